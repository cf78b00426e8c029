// Package mathrandv2 stands in for math/rand/v2.
package mathrandv2

import (
	"encoding/binary"
	real "math/rand/v2"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

type (
	Rand    = real.Rand
	Source  = real.Source
	Zipf    = real.Zipf
	PCG     = real.PCG
	ChaCha8 = real.ChaCha8
)

type src struct{}

func (src) Uint64() uint64 {
	var b [8]byte
	tape.Math.Fill(b[:])
	return binary.LittleEndian.Uint64(b[:])
}

var g = real.New(src{})

func New(s Source) *Rand                 { return real.New(s) }
func NewPCG(a, b uint64) *PCG            { return real.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8     { return real.NewChaCha8(s) }
func Int64() int64                       { return g.Int64() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int32() int32                       { return g.Int32() }
func Int() int                           { return g.Int() }
func Uint() uint                         { return uint(g.Uint64()) }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func UintN(n uint) uint                  { return uint(g.Uint64N(uint64(n))) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(g.Uint64N(uint64(n)))
}
