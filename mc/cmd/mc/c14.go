package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	reg("C14", "chunks", c14Chunks)
	reg("C14", "ivs", c14IVs)
	reg("C14", "keys", c14Keys)
	reg("C14", "callers", c14Callers)
	reg("C14", "mixed", c14Mixed)
	reg("C14", "far", c14Far)
	reg("C15", "small", c15Small)
	reg("C15", "const", c15Const)
	reg("C15", "single", c15Single)
	reg("C15", "pairs", c15Pairs)
	reg("C15", "dups", c15Dups)
}

// stdCTR is n bytes of the standard AES-128-CTR keystream.
func stdCTR(keyIV []byte, n int) []byte {
	b, err := aes.NewCipher(keyIV[:16])
	if err != nil {
		panic(err)
	}
	out := make([]byte, n)
	cipher.NewCTR(b, keyIV[16:32]).XORKeyStream(out, out)
	return out
}

type dirty struct {
	name string
	f    func(b []byte, i int)
}

var dirties = []dirty{
	{"zeroed", func(b []byte, i int) {}},
	{"0xff", func(b []byte, i int) {
		for k := range b {
			b[k] = 0xff
		}
	}},
	{"mixed", func(b []byte, i int) { copy(b, secretOf(len(b), i+1)) }},
}

func mustRead(g *csprng.CSPRNG, b []byte, want []byte, what string) string {
	n, err := g.Read(b)
	if err != nil || n != len(b) {
		return fmt.Sprintf("%s: Read of %d bytes returns %d, %v", what, len(b), n, err)
	}
	if !bytes.Equal(b, want) {
		return diffAt(what+": Read delivers", b, want)
	}
	return ""
}

// readSeq reads the given sizes and compares with the keystream.
func readSeq(keyIV, ks []byte, sizes []int, d dirty, scratch []byte) string {
	g := csprng.NewCSPRNGWithKeyIV(clone(keyIV))
	off := 0
	for i, n := range sizes {
		lo := 16 + i&7
		for k := range scratch[:lo+n+16] {
			scratch[k] = guardByte(k)
		}
		b := scratch[lo : lo+n]
		for k := range b {
			b[k] = 0
		}
		d.f(b, i)
		got, err := g.Read(b)
		if err != nil || got != n {
			return fmt.Sprintf("read %d of %v returns %d, %v", i, sizes, got, err)
		}
		if !bytes.Equal(b, ks[off:off+n]) {
			return diffAt(fmt.Sprintf("read %d of %v into a %s buffer delivers", i, sizes, d.name), b, ks[off:off+n])
		}
		if m := checkGuards("Read", scratch[:lo+n+16], lo, lo+n); m != "" {
			return m
		}
		off += n
	}
	return ""
}

func c14Chunks(c *Ctx) {
	sizes := []int{0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 64, 127, 255, 256, 1000}
	depth := 4
	if c.thorough {
		depth = 5
	}
	ks := stdCTR(genKey, 1<<17)
	scratch := make([]byte, 1<<17+64)
	var rec func(pre []int)
	rec = func(pre []int) {
		if len(pre) == depth {
			return
		}
		for _, s := range sizes {
			seq := append(append([]int(nil), pre...), s)
			if len(seq) == 2 {
				c.Case(func() string { return fmt.Sprintf("reads %v... in every way to depth %d", seq, depth) }, func() string {
					var down func(q []int) string
					down = func(q []int) string {
						// the last read decides: shorter prefixes were checked on the way
						if m := readSeq(genKey, ks, q, dirties[hash(len(q), q[0], q[1])%3], scratch); m != "" {
							return m
						}
						c.Eval(1)
						h := uint64(0)
						for _, x := range q {
							h = hash(h, x)
						}
						c.Distinct(h)
						if len(q) == depth {
							return ""
						}
						for _, x := range sizes {
							if m := down(append(append([]int(nil), q...), x)); m != "" {
								return m
							}
						}
						return ""
					}
					return down(seq)
				})
			} else {
				rec(seq)
			}
		}
	}
	rec(nil)
	// every size, twice, into every kind of buffer
	top := 1100
	if c.thorough {
		top = 5000
	}
	for n := 0; n <= top; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("reads of %d", n) }, func() string {
			for _, d := range dirties {
				for _, first := range []int{0, 1, 15, 16} {
					if m := readSeq(genKey, ks, []int{first, n, n, 1, n}, d, scratch); m != "" {
						return m
					}
					c.Eval(1)
				}
			}
			c.Distinct(hash("size", n))
			return ""
		})
	}
	big := []int{4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537}
	for _, a := range big {
		for _, b := range []int{0, 1, 16, 4096, 32768} {
			for _, e := range []int{1, 17, 4097} {
				q := []int{a, b, e}
				c.Case(func() string { return fmt.Sprintf("reads %v", q) }, func() string {
					for _, d := range dirties {
						if m := readSeq(genKey, ks, q, d, scratch); m != "" {
							return m
						}
					}
					c.Distinct(hash("big", a, b, e))
					return ""
				})
			}
		}
	}
}

// c14IVs: counters that carry into every byte of the IV.
func c14IVs(c *Ctx) {
	scratch := make([]byte, 1<<14+64)
	for k := 0; k <= 16; k++ {
		for low := 0; low < 256; low++ {
			for _, top := range []byte{0, 0x7f, 0xff} {
				k, low, top := k, low, top
				if k < 16 && top == 0xff && low%5 != 0 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("IV with %d trailing 0xff, last byte %d, top %#x", k, low, top) }, func() string {
					kv := clone(genKey)
					for i := 0; i < 16; i++ {
						kv[16+i] = top
						if i >= 16-k {
							kv[16+i] = 0xff
						}
					}
					kv[31] = byte(low)
					ks := stdCTR(kv, 5200)
					for i, q := range [][]int{{5200}, {16, 16, 16, 16, 5000}, {1, 1, 4200, 900}, {4000, 1, 33, 1000}, {33, 33, 33, 33, 3333}} {
						if m := readSeq(kv, ks, q, dirties[i%3], scratch); m != "" {
							return m
						}
						c.Eval(1)
					}
					c.Distinct(hash("iv", k, low, top))
					return ""
				})
			}
		}
	}
}

// c14Keys: every byte value at every position of key and IV, every bit alone.
func c14Keys(c *Ctx) {
	scratch := make([]byte, 1<<10)
	for p := 0; p < 32; p++ {
		for v := 0; v < 256; v++ {
			p, v := p, v
			c.Case(func() string { return fmt.Sprintf("byte %d of key and IV is %d", p, v) }, func() string {
				for _, base := range [][]byte{make([]byte, 32), genKey} {
					kv := clone(base)
					kv[p] = byte(v)
					ks := stdCTR(kv, 200)
					if m := readSeq(kv, ks, []int{17, 64, 3, 100}, dirties[2], scratch); m != "" {
						return m
					}
				}
				c.Eval(2)
				c.Distinct(hash("key", p, v))
				return ""
			})
		}
	}
}

// c14Callers: the caller's slice is overwritten, shared and appended to.
func c14Callers(c *Ctx) {
	for when := 0; when < 4; when++ {
		for what := 0; what < 33; what++ {
			for _, extra := range []int{0, 1, 32} {
				when, what, extra := when, what, extra
				c.Case(func() string {
					return fmt.Sprintf("caller overwrites byte %d of its key slice (capacity %d) before read %d", what, 32+extra, when)
				}, func() string {
					buf := make([]byte, 32, 32+extra)
					copy(buf, genKey)
					ks := stdCTR(genKey, 400)
					g := csprng.NewCSPRNGWithKeyIV(buf)
					h := csprng.NewCSPRNGWithKeyIV(buf)
					if !bytes.Equal(buf, genKey) {
						return "the constructor modified the key"
					}
					if when == 0 && what < 32 {
						buf[what] ^= 0xa5
					}
					off := 0
					b := make([]byte, 33)
					for i := 0; i < 4; i++ {
						if when == i && i > 0 {
							if what == 32 {
								for k := range buf {
									buf[k] = 0
								}
							} else {
								buf[what] ^= 0xa5
							}
						}
						if m := mustRead(g, b, ks[off:off+33], "generator"); m != "" {
							return m
						}
						if m := mustRead(h, b, ks[off:off+33], "second generator"); m != "" {
							return m
						}
						off += 33
					}
					// nor is it written by reading
					if what < 32 {
						want := clone(genKey)
						want[what] ^= 0xa5
						if !bytes.Equal(buf, want) {
							return "reading modified the caller's key slice"
						}
					}
					c.Distinct(hash("caller", when, what, extra))
					return ""
				})
			}
		}
	}
}

// c14Mixed: every sequence of requests, on two generators with equal seeds
// (one of them interleaved with a third under another key): equal results,
// and every Read is a range of the keystream behind all earlier ones.
func c14Mixed(c *Ctx) {
	type req struct {
		name string
		f    func(g *csprng.CSPRNG) []byte
	}
	read := func(n int) func(g *csprng.CSPRNG) []byte {
		return func(g *csprng.CSPRNG) []byte { b := make([]byte, n); g.Read(b); return b }
	}
	flat := func(s [][]byte, err error) []byte {
		o := []byte{byte(len(s))}
		for _, r := range s {
			o = append(append(o, byte(len(r))), r...)
		}
		if err != nil {
			o = append(o, err.Error()...)
		}
		return o
	}
	reqs := []req{
		{"Read(1)", read(1)}, {"Read(16)", read(16)}, {"Read(33)", read(33)}, {"Read(0)", read(0)}, {"Read(1025)", read(1025)},
		{"Perm(0)", func(g *csprng.CSPRNG) []byte { return g.Perm(0) }},
		{"Perm(5)", func(g *csprng.CSPRNG) []byte { return g.Perm(5) }},
		{"Perm(255)", func(g *csprng.CSPRNG) []byte { return g.Perm(255) }},
		{"GetUniqueBytes(3)", func(g *csprng.CSPRNG) []byte { return g.GetUniqueBytes(3) }},
		{"GetUniqueBytes(19)", func(g *csprng.CSPRNG) []byte { return g.GetUniqueBytes(19) }},
		{"GetUniqueBytes(20)", func(g *csprng.CSPRNG) []byte { return g.GetUniqueBytes(20) }},
		{"SplitWithRandomizer", func(g *csprng.CSPRNG) []byte {
			return flat(shamir.SplitWithRandomizer([]byte("a secret"), 5, 3, g))
		}},
		{"failing SplitWithRandomizer", func(g *csprng.CSPRNG) []byte {
			return flat(shamir.SplitWithRandomizer([]byte("a secret"), 2, 3, g))
		}},
	}
	depth := 3
	if c.thorough {
		depth = 4
	}
	ks := stdCTR(genKey, 1<<16)
	other := clone(genKey)
	other[3] ^= 1
	for _, a := range reqs {
		for _, b := range reqs {
			a, b := a, b
			c.Case(func() string {
				return fmt.Sprintf("%s, %s, ... every continuation to depth %d", a.name, b.name, depth)
			}, func() string {
				var rec func(q []req) string
				rec = func(q []req) string {
					if len(q) < depth {
						for _, r := range reqs {
							if m := rec(append(append([]req(nil), q...), r)); m != "" {
								return m
							}
						}
						return ""
					}
					g, h, o := csprng.NewCSPRNGWithKeyIV(clone(genKey)), csprng.NewCSPRNGWithKeyIV(clone(genKey)), csprng.NewCSPRNGWithKeyIV(other)
					var names []string
					pos := 0
					onlyReads := true
					for i, r := range q {
						names = append(names, r.name)
						x := r.f(g)
						reqs[(i+len(q))%len(reqs)].f(o)
						y := r.f(h)
						if !bytes.Equal(x, y) {
							return fmt.Sprintf("equal seeds and requests %v give different results", names)
						}
						isRead := r.name[:4] == "Read"
						if isRead && onlyReads {
							if !bytes.Equal(x, ks[pos:pos+len(x)]) {
								return diffAt(fmt.Sprintf("%v delivers", names), x, ks[pos:pos+len(x)])
							}
							pos += len(x)
						} else {
							onlyReads = false
						}
						if isRead && !onlyReads && len(x) >= 16 {
							k := bytes.Index(ks[pos:], x)
							if k < 0 {
								return fmt.Sprintf("%v delivers bytes that are not the keystream behind position %d", names, pos)
							}
							pos += k + len(x)
						}
						c.Eval(1)
						c.Distinct(hash(fmt.Sprint(names)))
					}
					// and afterwards the generator still reads the keystream
					x, y := read(48)(g), read(48)(h)
					if !bytes.Equal(x, y) || bytes.Index(ks[pos:], x) < 0 {
						return fmt.Sprintf("after %v a read is not the keystream behind position %d", names, pos)
					}
					return ""
				}
				return rec([]req{a, b})
			})
		}
	}
}

// c14Far: reads far into the stream, across the places where 32-bit block or
// byte counts and the IV's low words wrap.
func c14Far(c *Ctx) {
	type far struct {
		total, step int
	}
	fars := []far{{1<<24 + 4096, 65521}, {1<<24 + 4096, 1 << 20}, {1 << 22, 1000},
		{1<<20 + 2, 1<<20 + 1}, {1<<22 + 2, 1<<21 + 3}, {1<<23 + 2, 1<<23 + 1}, {1<<24 + 12, 1<<24 + 9}, {1<<26 + 12, 1<<26 + 5}, {1<<32 + 1<<18, 1<<18 - 1}}
	if c.thorough {
		fars = append(fars, far{1<<32 + 1<<16, 1<<24 - 1}, far{1<<32 + 1<<16, 1 << 26}, far{1<<33 + 77, 1<<25 + 13}, far{1<<29 + 12, 1<<29 + 5}, far{1<<30 + 12, 1<<30 + 5})
	}
	for _, f := range fars {
		for _, low := range []byte{0, 0xff} {
			f, low := f, low
			c.Case(func() string { return fmt.Sprintf("%d bytes in steps of %d, low IV bytes %#x", f.total, f.step, low) }, func() string {
				kv := clone(genKey)
				for i := 20; i < 32; i++ {
					kv[i] = low
				}
				g := csprng.NewCSPRNGWithKeyIV(clone(kv))
				blk, _ := aes.NewCipher(kv[:16])
				ref := cipher.NewCTR(blk, kv[16:])
				buf, want, zero := make([]byte, f.step), make([]byte, f.step), make([]byte, f.step)
				for done := 0; done < f.total; done += f.step {
					if n, err := g.Read(buf); n != len(buf) || err != nil {
						return fmt.Sprintf("a read of %d bytes returns %d, %v", len(buf), n, err)
					}
					ref.XORKeyStream(want, zero)
					if !bytes.Equal(buf, want) {
						return diffAt(fmt.Sprintf("at position %d", done), buf, want)
					}
					c.Eval(1)
				}
				c.Distinct(hash("far", f.total, f.step, low))
				return ""
			})
		}
	}
}

// ---- C15 ----

type permFn struct {
	name string
	mk   func() func(n byte) []byte
	uniq bool
}

var permFns = []permFn{
	{"csprng.Perm", func() func(byte) []byte { return newGen().Perm }, false},
	{"randomizer.Perm", func() func(byte) []byte { return randomizer.NewRandomizer().Perm }, false},
	{"csprng.GetUniqueBytes", func() func(byte) []byte { return newGen().GetUniqueBytes }, true},
}

// force makes the next draws of whichever source is used the given bytes.
func force(first []byte) {
	tape.AES.Prefix = first
	for _, s := range []*tape.Stream{tape.Crypto, tape.Math} {
		s.Prefix = map[int]byte{}
		for i, b := range first {
			s.Prefix[s.Pos+i] = b
		}
	}
}

func forceConst(v byte, n int) {
	tape.AES.Const, tape.AES.ConstLen = &v, uint64(n)
	for _, s := range []*tape.Stream{tape.Crypto, tape.Math} {
		s.Const, s.ConstLen = &v, s.Pos+n
	}
}

func checkPerm(f permFn, n int, got []byte) string {
	if len(got) != n {
		return fmt.Sprintf("%s(%d) returns %d bytes", f.name, n, len(got))
	}
	var seen [256]bool
	for _, v := range got {
		if seen[v] {
			return fmt.Sprintf("%s(%d) returns %d twice: %v", f.name, n, v, short(got))
		}
		seen[v] = true
		if !f.uniq && int(v) >= n {
			return fmt.Sprintf("%s(%d) returns %d", f.name, n, v)
		}
		if f.uniq && v == 255 {
			return fmt.Sprintf("%s(%d) returns 255, which is no tag", f.name, n)
		}
	}
	return ""
}

// c15Small: every keystream over a spanning alphabet, small n; and every
// ordering is reached.
func c15Small(c *Ctx) {
	alpha := map[int][]int{}
	span := func(lo, hi int) []int {
		var o []int
		for i := 0; i < lo; i++ {
			o = append(o, i)
		}
		for i := 256 - hi; i < 256; i++ {
			o = append(o, i)
		}
		return o
	}
	alpha[0], alpha[1], alpha[2] = span(256, 0), span(256, 0), span(256, 0)
	alpha[3] = span(24, 24)
	alpha[4] = span(12, 4)
	alpha[5] = span(6, 3)
	alpha[6] = span(6, 0)
	if c.thorough {
		alpha[3], alpha[4], alpha[5], alpha[6] = span(256, 0), span(24, 12), span(12, 6), span(6, 2)
	}
	for _, f := range permFns {
		for n := 0; n <= 6; n++ {
			f, n := f, n
			c.Case(func() string {
				return fmt.Sprintf("%s(%d), every keystream over %d byte values", f.name, n, len(alpha[n]))
			}, func() string {
				draws := make([]byte, n)
				idx := make([]int, n)
				orders := map[string]bool{}
				al := alpha[n]
				for {
					for i := range idx {
						draws[i] = byte(al[idx[i]])
					}
					tape.Reset(c.seed)
					p := f.mk()
					force(draws)
					got := p(byte(n))
					if m := checkPerm(f, n, got); m != "" {
						return fmt.Sprintf("%s for draws %v", m, draws)
					}
					if !f.uniq {
						orders[string(got)] = true
					}
					c.Eval(1)
					k := 0
					for ; k < n; k++ {
						if idx[k]++; idx[k] < len(al) {
							break
						}
						idx[k] = 0
					}
					if k == n {
						break
					}
				}
				if f.uniq {
					c.Distinct(hash(f.name, n))
					return ""
				}
				fact := 1
				for i := 2; i <= n; i++ {
					fact *= i
				}
				// an implementation that uses its draws differently may need others
				for s := uint64(0); len(orders) < fact && s < 400*uint64(fact); s++ {
					tape.Reset(1000 + s)
					orders[string(f.mk()(byte(n)))] = true
				}
				if len(orders) < fact {
					return fmt.Sprintf("%s(%d) reaches only %d of %d orderings", f.name, n, len(orders), fact)
				}
				for o := range orders {
					c.Distinct(hash(f.name, o))
				}
				return ""
			})
		}
	}
}

func c15Const(c *Ctx) {
	for _, f := range permFns {
		for n := 0; n <= 255; n++ {
			f, n := f, n
			c.Case(func() string { return fmt.Sprintf("%s(%d), constant keystreams", f.name, n) }, func() string {
				for v := 0; v < 256; v++ {
					for _, l := range []int{n, n + 1, 600} {
						tape.Reset(c.seed)
						p := f.mk()
						forceConst(byte(v), l)
						if m := checkPerm(f, n, p(byte(n))); m != "" {
							return fmt.Sprintf("%s for %d draws of %d", m, l, v)
						}
					}
					c.Distinct(hash(f.name, n, v))
				}
				c.Eval(768)
				return ""
			})
		}
	}
}

// c15Single: every single draw replaced by every (or a boundary) value.
func c15Single(c *Ctx) {
	for _, f := range permFns {
		for n := 1; n <= 255; n++ {
			f, n := f, n
			c.Case(func() string { return fmt.Sprintf("%s(%d), one draw deviates", f.name, n) }, func() string {
				vals := []int{0, 1, 2, n - 1, n, n + 1, 127, 128, 253, 254, 255}
				if c.thorough || n < 24 || n == 64 || n == 128 || n >= 250 {
					vals = upto(256)
				}
				for pos := 0; pos < n+2; pos++ {
					for _, v := range vals {
						if v > 255 {
							continue
						}
						tape.Reset(uint64(pos&3) + 1)
						p := f.mk()
						forceAt(pos, byte(v))
						if m := checkPerm(f, n, p(byte(n))); m != "" {
							return fmt.Sprintf("%s when draw %d is %d", m, pos, v)
						}
					}
				}
				c.Eval((n + 2) * len(vals))
				c.Distinct(hash(f.name, n))
				return ""
			})
		}
	}
}

func forceAt(pos int, v byte) {
	if tape.AES.Override == nil {
		tape.AES.Override = map[uint64]byte{}
	}
	tape.AES.Override[uint64(pos)] = v
	for _, s := range []*tape.Stream{tape.Crypto, tape.Math} {
		if s.Prefix == nil {
			s.Prefix = map[int]byte{}
		}
		s.Prefix[s.Pos+pos] = v
	}
}

func c15Pairs(c *Ctx) {
	ns := []int{2, 3, 7, 19, 20, 33, 128, 254, 255}
	vals := []byte{0, 1, 254, 255}
	for _, f := range permFns {
		for _, n := range ns {
			for p := 0; p < n; p++ {
				f, n, p := f, n, p
				c.Case(func() string { return fmt.Sprintf("%s(%d), draws %d and each later one deviate", f.name, n, p) }, func() string {
					step := 1
					if n > 100 && !c.thorough {
						step = 5
					}
					for q := p + 1; q <= n; q += step {
						for _, a := range vals {
							for _, b := range vals {
								tape.Reset(c.seed)
								fn := f.mk()
								forceAt(p, a)
								forceAt(q, b)
								if m := checkPerm(f, n, fn(byte(n))); m != "" {
									return fmt.Sprintf("%s when draws %d, %d are %d, %d", m, p, q, a, b)
								}
							}
						}
						c.Eval(16)
					}
					c.Distinct(hash(f.name, n, p))
					return ""
				})
			}
		}
	}
}

// c15Dups: streams full of duplicates and of the excluded value.
func c15Dups(c *Ctx) {
	alpha := []byte{0, 7, 254, 255}
	L := 7
	if c.thorough {
		L = 9
	}
	f := permFns[2]
	total := 1
	for i := 0; i < L; i++ {
		total *= len(alpha)
	}
	for n := 1; n <= 20; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("%s(%d), every start of %d draws over %v", f.name, n, L, alpha) }, func() string {
			d := make([]byte, L)
			for k := 0; k < total; k++ {
				x := k
				for i := range d {
					d[i] = alpha[x%len(alpha)]
					x /= len(alpha)
				}
				tape.Reset(c.seed)
				p := f.mk()
				force(d)
				if m := checkPerm(f, n, p(byte(n))); m != "" {
					return fmt.Sprintf("%s for draws %v", m, d)
				}
			}
			c.Eval(total)
			c.Distinct(hash("dups", n))
			return ""
		})
		// runs of one value, then of another, in the middle of the request
		c.Case(func() string { return fmt.Sprintf("%s(%d), runs of equal draws", f.name, n) }, func() string {
			for run := 1; run <= 64; run++ {
				for v := 0; v < 256; v += 3 {
					tape.Reset(c.seed)
					p := f.mk()
					d := append(bytes.Repeat([]byte{byte(v)}, run), bytes.Repeat([]byte{255}, run)...)
					d = append(d, bytes.Repeat([]byte{byte(v + 1)}, run)...)
					force(d)
					if m := checkPerm(f, n, p(byte(n))); m != "" {
						return fmt.Sprintf("%s for runs of %d draws of %d", m, run, v)
					}
				}
			}
			c.Eval(64 * 86)
			c.Distinct(hash("runs", n))
			return ""
		})
	}
}
