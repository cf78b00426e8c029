// Package mathrand stands in for math/rand: the global functions draw from
// the seedable-PRNG tape whatever the seed; explicit sources are the real ones.
package mathrand

import (
	"encoding/binary"
	real "math/rand"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

type src struct{}

func (src) Uint64() uint64 {
	var b [8]byte
	tape.Math.Fill(b[:])
	return binary.LittleEndian.Uint64(b[:])
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

var g = real.New(src{})

func New(s Source) *Rand          { return real.New(s) }
func NewSource(seed int64) Source { tape.NoteSeed(); return real.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf {
	return real.NewZipf(r, s, v, imax)
}
func Seed(int64)                         { tape.NoteSeed() }
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Read(p []byte) (n int, err error)   { tape.Math.Fill(p); return len(p), nil }
