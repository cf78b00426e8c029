package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime/debug"
	"syscall"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/galois"
)

func init() {
	reg("C12", "pairs", c12Pairs)
	reg("C12", "exp", c12Exp)
	reg("C12", "zero", c12Zero)
	reg("C12", "memory", c12Memory)
	reg("C12", "between", c12Between)
	reg("C13", "add", c13Add)
	reg("C13", "mul", c13Mul)
	reg("C13", "table", c13Table)
	reg("C13", "pages", c13Pages)
}

func c12Pairs(c *Ctx) {
	// three passes over the whole table: the operations have no state, so the
	// order of the operands must not matter
	orders := []struct {
		name string
		at   func(i int) (byte, byte)
	}{
		{"rows", func(i int) (byte, byte) { return byte(i >> 8), byte(i) }},
		{"columns", func(i int) (byte, byte) { return byte(i), byte(i >> 8) }},
		{"strided", func(i int) (byte, byte) { i = i * 40503 & 0xffff; return byte(i >> 8), byte(i) }},
	}
	for _, o := range orders {
		for blk := 0; blk < 256; blk++ {
			o, blk := o, blk
			c.Case(func() string { return fmt.Sprintf("%s block %d", o.name, blk) }, func() string {
				for k := 0; k < 256; k++ {
					a, b := o.at(blk<<8 | k)
					p := ref.SlowMul(a, b)
					for _, g := range []struct {
						n         string
						got, want byte
					}{
						{"GalAdd", galois.GalAdd(a, b), a ^ b},
						{"GalSub", galois.GalSub(a, b), a ^ b},
						{"GalMultiply", galois.GalMultiply(a, b), p},
						{"GalMultiplyLogExp", galois.GalMultiplyLogExp(a, b), p},
					} {
						if g.got != g.want {
							return fmt.Sprintf("%s(%d, %d) = %d instead of %d", g.n, a, b, g.got, g.want)
						}
					}
					if b != 0 {
						q := galois.GalDivide(a, b)
						if ref.SlowMul(q, b) != a {
							return fmt.Sprintf("GalDivide(%d, %d) = %d, but %d*%d = %d", a, b, q, q, b, ref.SlowMul(q, b))
						}
						c.Eval(1)
					}
					c.Distinct(hash("pair", a, b))
					c.Eval(4)
				}
				return ""
			})
		}
	}
}

func c12Exp(c *Ctx) {
	var exps []int
	top := 1100
	if c.thorough {
		top = 70000
	}
	for n := 0; n <= top; n++ {
		exps = append(exps, n)
	}
	for k := uint(8); k < 63; k++ {
		for d := -3; d <= 3; d++ {
			exps = append(exps, 1<<k+d, 255<<(k-8)+d)
		}
	}
	for d := 0; d <= 520; d++ {
		exps = append(exps, math.MaxInt64-d, math.MaxInt64/255*255-d, math.MaxInt64/254-d, math.MaxInt32-d)
	}
	for a := 0; a < 256; a++ {
		a := byte(a)
		c.Case(func() string { return fmt.Sprintf("powers of %d", a) }, func() string {
			for _, n := range exps {
				// square and multiply with the reference product
				want, sq := byte(1), a
				for m := n; m > 0; m >>= 1 {
					if m&1 == 1 {
						want = ref.Mul(want, sq)
					}
					sq = ref.Mul(sq, sq)
				}
				if got := galois.GalExp(a, n); got != want {
					return fmt.Sprintf("GalExp(%d, %d) = %d instead of %d", a, n, got, want)
				}
				c.Distinct(hash("exp", a, n))
			}
			c.Eval(len(exps))
			return ""
		})
	}
}

// c12Zero: division by zero panics for a nonzero dividend, and the operations
// still give the same results after such a panic.
func c12Zero(c *Ctx) {
	for a := 0; a < 256; a++ {
		a := byte(a)
		c.Case(func() string { return fmt.Sprintf("%d / 0", a) }, func() string {
			var q byte
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				q = galois.GalDivide(a, 0)
				return
			}()
			if a != 0 && !panicked {
				return fmt.Sprintf("GalDivide(%d, 0) returns %d", a, q)
			}
			for b := 1; b < 256; b++ {
				b := byte(b)
				if q := galois.GalDivide(a, b); ref.Mul(q, b) != a {
					return fmt.Sprintf("after the division by zero: GalDivide(%d, %d) = %d", a, b, q)
				}
				if p := galois.GalMultiplyLogExp(a, b); p != ref.Mul(a, b) {
					return fmt.Sprintf("after the division by zero: GalMultiplyLogExp(%d, %d) = %d", a, b, p)
				}
			}
			c.Eval(512)
			c.Distinct(hash("zero", a))
			return ""
		})
	}
}

// c12Memory: what one operation leaves behind does not matter to the next:
// every operation on every pair of operands right after the same operation on
// every other pair (quick: on every pair that shares an operand, differs in one
// bit of each, or is a translate).
func c12Memory(c *Ctx) {
	var mulT, divT [256][256]byte
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			p := ref.SlowMul(byte(a), byte(b))
			mulT[a][b] = p
			if b != 0 {
				divT[p][b] = byte(a)
			}
		}
	}
	ops := []struct {
		name string
		f    func(a, b byte) byte
		t    *[256][256]byte
		lo   int
	}{
		{"GalDivide", galois.GalDivide, &divT, 1},
		{"GalMultiplyLogExp", galois.GalMultiplyLogExp, &mulT, 0},
		{"GalMultiply", galois.GalMultiply, &mulT, 0},
	}
	for _, o := range ops {
		for a := 0; a < 256; a++ {
			o, a := o, a
			c.Case(func() string { return fmt.Sprintf("%s after %s(%d, any)", o.name, o.name, a) }, func() string {
				try := func(b, x, y int) string {
					if y < o.lo {
						return ""
					}
					o.f(byte(a), byte(b))
					if g := o.f(byte(x), byte(y)); g != o.t[x][y] {
						return fmt.Sprintf("right after %s(%d, %d), %s(%d, %d) = %d instead of %d", o.name, a, b, o.name, x, y, g, o.t[x][y])
					}
					return ""
				}
				for b := o.lo; b < 256; b++ {
					beat()
					if c.thorough {
						for x := 0; x < 256; x++ {
							for y := 0; y < 256; y++ {
								if m := try(b, x, y); m != "" {
									return m
								}
							}
						}
						c.Eval(65536)
						continue
					}
					for x := 0; x < 256; x++ {
						for _, y := range []int{b, x, a, (b + x - a) & 255, b ^ x ^ a} {
							if m := try(b, x, y); m != "" {
								return m
							}
						}
						if m := try(b, a, x); m != "" {
							return m
						}
						if m := try(b, b, x); m != "" {
							return m
						}
					}
					for i := uint(0); i < 8; i++ {
						for j := uint(0); j < 8; j++ {
							if m := try(b, a^1<<i, b^1<<j); m != "" {
								return m
							}
						}
					}
					c.Eval(7*256 + 64)
				}
				c.Distinct(hash("memory", o.name, a))
				return ""
			})
		}
	}
}

// c12Between: the same for different operations in a row, powers included.
func c12Between(c *Ctx) {
	exps := []int{0, 1, 2, 3, 7, 128, 254, 255, 256, 510}
	step := 5
	if c.thorough {
		step = 1
	}
	for a := 0; a < 256; a += 1 {
		a := a
		c.Case(func() string { return fmt.Sprintf("mixed operations on %d and others", a) }, func() string {
			A := byte(a)
			for b := 0; b < 256; b++ {
				B := byte(b)
				if (a+b)%step != 0 && a != b {
					continue
				}
				p := ref.Mul(A, B)
				var e []byte
				for _, n := range exps {
					v := byte(1)
					for i := 0; i < n; i++ {
						v = ref.Mul(v, B)
					}
					e = append(e, v)
				}
				for k, n := range exps {
					for _, first := range []func(){
						func() { galois.GalMultiply(A, B) },
						func() { galois.GalMultiplyLogExp(B, A) },
						func() {
							if a != 0 {
								galois.GalDivide(B, A)
							}
						},
						func() { galois.GalExp(A, n) },
						func() { galois.GalExp(B, exps[(k+1)%len(exps)]) },
						func() { galois.GalExp(A^1, n) },
					} {
						first()
						if g := galois.GalExp(B, n); g != e[k] {
							return fmt.Sprintf("GalExp(%d, %d) = %d instead of %d after another operation", b, n, g, e[k])
						}
						first()
						if g := galois.GalMultiplyLogExp(A, B); g != p {
							return fmt.Sprintf("GalMultiplyLogExp(%d, %d) = %d instead of %d after another operation", a, b, g, p)
						}
						first()
						if g := galois.GalMultiply(A, B); g != p {
							return fmt.Sprintf("GalMultiply(%d, %d) = %d instead of %d after another operation", a, b, g, p)
						}
						if a != 0 {
							first()
							if g := galois.GalDivide(p, A); g != B {
								return fmt.Sprintf("GalDivide(%d, %d) = %d instead of %d after another operation", p, a, g, b)
							}
						}
						c.Eval(4)
					}
				}
				c.Distinct(hash("between", a, b))
			}
			return ""
		})
	}
}

// ---- vectors ----

type addFn struct {
	name string
	f    func(in, out []byte) []byte
}
type mulFn struct {
	name string
	f    func(k byte, in []byte) []byte
}

var addFns = []addFn{
	{"AddVector", galois.AddVector},
	{"AddVectorGeneric", galois.AddVectorGeneric},
	{"AddVectorBatchGeneric", galois.AddVectorBatchGeneric},
}
var mulFns = []mulFn{
	{"MulConstVector", galois.MulConstVector},
	{"MulConstVectorGeneric", galois.MulConstVectorGeneric},
}

// arena is a byte array whose start is 64-aligned.
func arena(n int) []byte {
	b := make([]byte, n+64)
	o := 0
	for addrOf(b[o:])&63 != 0 {
		o++
	}
	return b[o : o+n]
}

func guardByte(i int) byte { return byte(i*7 + 0x35) }

func vecLens(max int, extra ...int) []int {
	o := upto(max + 1)
	return append(o, extra...)
}

func checkAdd(f addFn, in, out []byte) string {
	want := make([]byte, len(out))
	for i := range out {
		want[i] = in[i] ^ out[i]
	}
	keep := clone(in)
	got := f.f(in, out)
	if !bytes.Equal(got, want) {
		return diffAt(f.name+" returns", got, want)
	}
	if !bytes.Equal(out, want) {
		return diffAt(f.name+" leaves in the second argument", out, want)
	}
	if !bytes.Equal(in, keep) {
		return diffAt(f.name+" modified the addend:", in, keep)
	}
	return ""
}

func checkMul(f mulFn, k byte, in []byte) string {
	want := make([]byte, len(in))
	keep := clone(in)
	for i := range in {
		want[i] = ref.Mul(k, in[i])
	}
	got := f.f(k, in)
	if !bytes.Equal(got, want) {
		return diffAt(fmt.Sprintf("%s by %d returns", f.name, k), got, want)
	}
	if !bytes.Equal(in, keep) && !bytes.Equal(in, want) {
		return diffAt(f.name+" half-modified its argument:", in, keep)
	}
	return ""
}

func diffAt(what string, got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s %d bytes instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s %#02x instead of %#02x at index %d of %d", what, got[i], want[i], i, len(got))
		}
	}
	return ""
}

func checkGuards(what string, b []byte, lo, hi int) string {
	for i := range b {
		if (i < lo || i >= hi) && b[i] != guardByte(i) {
			return fmt.Sprintf("%s wrote at %d, outside [%d,%d)", what, i, lo, hi)
		}
	}
	return ""
}

func fillGuard(b []byte) {
	for i := range b {
		b[i] = guardByte(i)
	}
}

func c13Lens(c *Ctx) []int {
	big := []int{767, 768, 769, 1023, 1024, 1025, 1087, 1088, 1089, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 65535, 65536, 65537}
	if c.thorough {
		return vecLens(4100, append(big, 1<<20-1, 1<<20, 1<<20+1, 1<<20+127)...)
	}
	return vecLens(660, big...)
}

func c13Add(c *Ctx) {
	for _, f := range addFns {
		for _, n := range c13Lens(c) {
			f, n := f, n
			c.Case(func() string { return fmt.Sprintf("%s length %d", f.name, n) }, func() string {
				if n == 0 {
					if r := f.f(nil, nil); len(r) != 0 {
						return "nil vectors give bytes"
					}
				}
				offs := upto(64)
				if n > 1100 {
					offs = []int{0, 1, 15, 16, 17, 31, 33, 63}
				}
				if n > 70000 {
					offs = []int{0, 9}
				}
				A, B := arena(n+192), arena(n+192)
				for _, oo := range offs {
					io := (oo*29 + n) & 63
					fillGuard(A)
					fillGuard(B)
					in, out := A[64+io:64+io+n:64+io+n], B[64+oo:64+oo+n:64+oo+n]
					copy(in, secretOf(n, oo*977+n))
					copy(out, secretOf(n, oo*977+n+500000))
					if m := checkAdd(f, in, out); m != "" {
						return fmt.Sprintf("offsets %d,%d: %s", io, oo, m)
					}
					if m := checkGuards(f.name+" addend", A, 64+io, 64+io+n); m != "" {
						return m
					}
					if m := checkGuards(f.name, B, 64+oo, 64+oo+n); m != "" {
						return m
					}
					// capacity beyond the length is somebody else's data
					fillGuard(B)
					out = B[64+oo : 64+oo+n]
					if m := checkAdd(f, A[64+io:64+io+n], out); m != "" {
						return fmt.Sprintf("offsets %d,%d: %s", io, oo, m)
					}
					if m := checkGuards(f.name, B, 64+oo, 64+oo+n); m != "" {
						return m
					}
					c.Distinct(hash(f.name, n, oo))
				}
				c.Eval(2 * len(offs))
				return ""
			})
		}
	}
}

func c13Mul(c *Ctx) {
	for _, f := range mulFns {
		for _, n := range c13Lens(c) {
			f, n := f, n
			c.Case(func() string { return fmt.Sprintf("%s length %d", f.name, n) }, func() string {
				if n == 0 {
					if r := f.f(7, nil); len(r) != 0 {
						return "nil vector gives bytes"
					}
				}
				consts := []byte{0, 1, 2, 3, 29, 128, 142, 200, 255}
				if n <= 300 || c.thorough && n < 1100 {
					consts = nil
					for k := 0; k < 256; k++ {
						consts = append(consts, byte(k))
					}
				}
				offs := []int{0, 1, 8, 15, 31, 33, 63}
				if n > 70000 {
					offs = []int{0, 9}
				}
				A := arena(n + 192)
				for x, k := range consts {
					of := []int{offs[(x+n)%len(offs)]}
					if len(consts) < 20 {
						of = offs
					}
					for _, o := range of {
						fillGuard(A)
						in := A[64+o : 64+o+n]
						copy(in, secretOf(n, int(k)*977+n))
						if m := checkMul(f, k, in); m != "" {
							return fmt.Sprintf("offset %d: %s", o, m)
						}
						if m := checkGuards(f.name, A, 64+o, 64+o+n); m != "" {
							return m
						}
						c.Eval(1)
					}
					c.Distinct(hash(f.name, n, k))
				}
				return ""
			})
		}
	}
}

// c13Table: every constant times every value at every position of a block.
func c13Table(c *Ctx) {
	step := 1
	for _, f := range mulFns {
		for k := 0; k < 256; k++ {
			f, k := f, byte(k)
			c.Case(func() string { return fmt.Sprintf("%s constant %d, all values in all lanes", f.name, k) }, func() string {
				for _, n := range []int{256, 272, 256 + 63} {
					A := arena(n)
					for s := 0; s < 64; s += step {
						for i := range A {
							A[i] = byte(i + s)
						}
						if m := checkMul(f, k, A); m != "" {
							return fmt.Sprintf("values from %d: %s", s, m)
						}
					}
					c.Eval(64)
				}
				c.Distinct(hash(f.name, k))
				return ""
			})
		}
	}
	for _, f := range addFns {
		for s := 0; s < 256; s++ {
			f, s := f, s
			c.Case(func() string { return fmt.Sprintf("%s all pairs of values with difference %d", f.name, s) }, func() string {
				A, B := arena(256+48), arena(256+48)
				for r := 0; r < 64; r++ {
					for i := range A {
						A[i] = byte(i + r)
						B[i] = byte(i + r + s)
					}
					if m := checkAdd(f, A, B); m != "" {
						return m
					}
				}
				c.Eval(64)
				c.Distinct(hash(f.name, s))
				return ""
			})
		}
	}
}

// c13Pages: vectors that touch an unmapped page on one side.
func c13Pages(c *Ctx) {
	ps := syscall.Getpagesize()
	alloc := func(n int) []byte {
		pages := (n+ps-1)/ps + 1
		b, err := syscall.Mmap(-1, 0, (pages+2)*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(b[:ps], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(b[len(b)-ps:], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		return b
	}
	debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(false)
	A, B := alloc(ps*2), alloc(ps*2)
	defer syscall.Munmap(A)
	defer syscall.Munmap(B)
	lens := vecLens(400, 1023, 1024, 1025, 4095, 4096, 4097)
	for _, n := range lens {
		n := n
		c.Case(func() string { return fmt.Sprintf("length %d next to unmapped pages", n) }, func() string {
			for end := 0; end < 2; end++ {
				in, out := A[ps:ps+n], B[ps:ps+n]
				if end == 1 {
					in, out = A[len(A)-ps-n:len(A)-ps:len(A)-ps], B[len(B)-ps-n:len(B)-ps:len(B)-ps]
				}
				for i := range in {
					in[i], out[i] = byte(i*3+1), byte(i*5+7)
				}
				for _, f := range addFns {
					if m := checkAdd(f, in, out); m != "" {
						return m
					}
				}
				for _, f := range mulFns {
					for _, k := range []byte{0, 1, 2, 0x8e, 255} {
						if m := checkMul(f, k, in); m != "" {
							return m
						}
					}
				}
				c.Eval(13)
			}
			c.Distinct(hash("page", n))
			return ""
		})
	}
}
