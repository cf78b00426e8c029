// Package cpumask lowers the CPU features seen by the vector code. Its import
// path sorts before the galois package, so it is initialised first.
package cpumask

import (
	"os"

	"github.com/klauspost/cpuid/v2"
)

// Level is the applied level.
var Level = "full"

func init() {
	l := os.Getenv("VERIF_CPU")
	switch l {
	case "":
		return
	case "noavx2":
		cpuid.CPU.Disable(cpuid.AVX2, cpuid.AVX512F, cpuid.AVX512BW)
	case "nossse3":
		cpuid.CPU.Disable(cpuid.AVX2, cpuid.AVX512F, cpuid.AVX512BW, cpuid.SSSE3)
	case "none":
		cpuid.CPU.Disable(cpuid.AVX2, cpuid.AVX512F, cpuid.AVX512BW, cpuid.SSSE3, cpuid.SSE2)
	}
	Level = l
}
