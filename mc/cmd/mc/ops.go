package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
)

type splitFn func(secret []byte, n, t int, g *csprng.CSPRNG) ([][]byte, error)

type variant struct {
	name string
	f    splitFn
	gen  bool // draws everything from the caller's generator
}

var shamirVariants = []variant{
	{"Split", func(s []byte, n, t int, _ *csprng.CSPRNG) ([][]byte, error) { return shamir.Split(s, n, t) }, false},
	{"SplitGeneric", func(s []byte, n, t int, _ *csprng.CSPRNG) ([][]byte, error) { return shamir.SplitGeneric(s, n, t) }, false},
	{"SplitP", func(s []byte, n, t int, _ *csprng.CSPRNG) ([][]byte, error) { return shamir.SplitP(s, n, t) }, false},
	{"SplitWithRandomizer", func(s []byte, n, t int, g *csprng.CSPRNG) ([][]byte, error) {
		return shamir.SplitWithRandomizer(s, n, t, g)
	}, true},
	{"SplitWithRandomizerOld", func(s []byte, n, t int, g *csprng.CSPRNG) ([][]byte, error) {
		return shamir.SplitWithRandomizerOld(s, n, t, g)
	}, true},
}

var ssmsVariants = []variant{
	{"krawczyk.Split", func(s []byte, n, t int, _ *csprng.CSPRNG) ([][]byte, error) { return krawczyk.Split(s, n, t) }, false},
	{"krawczyk.SplitWithRandomizer", func(s []byte, n, t int, g *csprng.CSPRNG) ([][]byte, error) {
		return krawczyk.SplitWithRandomizer(s, n, t, g)
	}, true},
}

var allVariants = append(append([]variant{}, shamirVariants...), ssmsVariants...)

var genKey = []byte("0123456789abcdefFEDCBA9876543210")

// newGen is a generator over the tape's keystream.
func newGen() *csprng.CSPRNG { return csprng.NewCSPRNGWithKeyIV(append([]byte(nil), genKey...)) }

// keystreamControlled tells whether the tape decides the generator's output
// (not so if the generator is built on some other cipher interface).
func keystreamControlled() bool {
	read := func() []byte {
		b := make([]byte, 16)
		newGen().Read(b)
		return b
	}
	tape.Reset(1)
	a := read()
	v := byte(0x5a)
	tape.AES.Const, tape.AES.ConstLen = &v, 1<<40
	b := read()
	tape.Reset(1)
	return !bytes.Equal(a, b) && bytes.Equal(b, bytes.Repeat([]byte{v}, 16))
}

// secretOf makes a secret of n bytes: deterministic, every byte value occurs.
func secretOf(n, salt int) []byte {
	b := make([]byte, n)
	x := uint64(salt)*0x9e3779b97f4a7c15 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 11)
	}
	return b
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }
func cloneAll(b [][]byte) [][]byte {
	if b == nil {
		return nil
	}
	o := make([][]byte, len(b))
	for i := range b {
		if b[i] != nil {
			o[i] = append([]byte{}, b[i]...)
		}
	}
	return o
}

func pick(sh [][]byte, idx []int) [][]byte {
	o := make([][]byte, len(idx))
	for i, k := range idx {
		o[i] = sh[k]
	}
	return o
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// combineIs checks that combining the chosen shares gives the secret.
func combineIs(sh [][]byte, idx []int, secret []byte) string {
	got, err := shamir.Combine(pick(sh, idx))
	if err != nil {
		return fmt.Sprintf("Combine of shares %v failed: %v", idx, err)
	}
	if !bytes.Equal(got, secret) {
		return fmt.Sprintf("Combine of shares %v gives %s instead of %s", idx, short(got), short(secret))
	}
	return ""
}

func ssmsIs(list [][]byte, what interface{}, n, t int, secret []byte) string {
	got, err := krawczyk.Combine(list, n, t)
	if err != nil {
		return fmt.Sprintf("krawczyk.Combine of shares %v failed: %v", what, err)
	}
	if !bytes.Equal(got, secret) {
		return fmt.Sprintf("krawczyk.Combine of shares %v gives %s instead of %s", what, short(got), short(secret))
	}
	return ""
}

// someSubsets: first, last, strided and full selections, in mixed orders.
func someSubsets(n, t int) [][]int {
	seq := func(start, k, step int) []int {
		o := make([]int, 0, k)
		used := make([]bool, n)
		x := start
		for len(o) < k {
			x = ((x % n) + n) % n
			for used[x] {
				x = (x + 1) % n
			}
			used[x] = true
			o = append(o, x)
			x += step
		}
		return o
	}
	out := [][]int{seq(0, t, 1), seq(n-1, t, -1)}
	if n > t {
		out = append(out, seq(n-1, n, -1), seq(n/2, t+(n-t)/2, 3))
	} else {
		out = append(out, seq(n/2, n, 7))
	}
	return out
}

// subsets of 0..n-1 of size at least lo and at most hi, as index lists.
func subsets(n, lo, hi int) [][]int {
	var out [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) >= lo && len(s) <= hi {
			out = append(out, s)
		}
	}
	return out
}

func permutations(a []int, f func([]int) bool) bool {
	var rec func(k int) bool
	b := append([]int(nil), a...)
	rec = func(k int) bool {
		if k == len(b) {
			return f(b)
		}
		for i := k; i < len(b); i++ {
			b[k], b[i] = b[i], b[k]
			if !rec(k + 1) {
				return false
			}
			b[k], b[i] = b[i], b[k]
		}
		return true
	}
	return rec(0)
}

func reversed(a []int) []int {
	o := make([]int, len(a))
	for i, v := range a {
		o[len(a)-1-i] = v
	}
	return o
}

func upto(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// ntGrid lists the (n, t) pairs of the tier.
func ntGrid(full bool, small int) [][2]int {
	var out [][2]int
	big := map[int]bool{31: true, 32: true, 33: true, 63: true, 64: true, 65: true, 100: true, 127: true, 128: true, 129: true, 192: true, 200: true, 253: true, 254: true, 255: true}
	for n := 2; n <= 255; n++ {
		for t := 2; t <= n; t++ {
			if full || n <= small || t == 2 || t == 3 || t == n || t == n-1 ||
				big[n] && (t%16 == 0 || t%16 == 15 || t == 127 || t == 129) {
				out = append(out, [2]int{n, t})
			}
		}
	}
	return out
}

func addrOf(b []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(b[:1]))) }
