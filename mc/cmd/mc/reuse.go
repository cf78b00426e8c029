package main

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C10", "positions", c10Positions)
	reg("C11", "lengths", c11Lengths)
	reg("C18", "reuse", c18Reuse)
}

// ---- C18: the caller uses the same memory for call after call ----

// callerMem is memory the caller writes its inputs to, again and again.
type callerMem struct {
	secret []byte
	list   [][]byte
	blocks [][]byte
	key    []byte
}

func newCallerMem() *callerMem {
	a := &callerMem{secret: make([]byte, 5000), list: make([][]byte, 6), key: make([]byte, 32)}
	for range a.list {
		a.blocks = append(a.blocks, make([]byte, 5100))
	}
	return a
}

// put writes a list into the blocks.
func (a *callerMem) put(l [][]byte) [][]byte {
	for i, s := range l {
		copy(a.blocks[i], s)
		a.list[i] = a.blocks[i][:len(s)]
	}
	return a.list[:len(l)]
}

// content: kinds that differ in everything, in one byte, or only in a tag.
func content(N, kind int) []byte {
	s := secretOf(N, kind/2)
	if kind%2 == 1 {
		s[N/2] ^= 0x20
	}
	return s
}

type reuseOp struct {
	name string
	do   func(a *callerMem, N, kind int) string
}

func reuseOps(g *csprng.CSPRNG, split, workerCombine func(alg string, l [][]byte, secret []byte) ([][]byte, []byte, error)) []reuseOp {
	var ops []reuseOp
	back := func(sh [][]byte, err error, secret []byte, n, t int) string {
		if err != nil {
			return err.Error()
		}
		return ref.CheckSharing(secret, sh, n, t)
	}
	for _, v := range allVariants {
		v := v
		ops = append(ops, reuseOp{v.name, func(a *callerMem, N, kind int) string {
			secret := content(N, kind)
			sh, err := v.f(a.secret[:copy(a.secret, secret)], 4, 3, g)
			if v.name[0] != 'k' {
				return back(sh, err, secret, 4, 3)
			}
			if err != nil {
				return err.Error()
			}
			if got, err := ref.SSMSDecode(cloneAll(sh[1:]), 3); err != nil || !bytes.Equal(got, secret) {
				return fmt.Sprintf("its shares stand for %s, %v", short(got), err)
			}
			return ""
		}})
	}
	ops = append(ops, reuseOp{"Worker.Split shamir", func(a *callerMem, N, kind int) string {
		secret := content(N, kind)
		sh, _, err := split(worker.AlgShamir, nil, a.secret[:copy(a.secret, secret)])
		return back(sh, err, secret, 4, 3)
	}}, reuseOp{"Worker.Split krawczyk", func(a *callerMem, N, kind int) string {
		secret := content(N, kind)
		sh, _, err := split(worker.AlgSSMS, nil, a.secret[:copy(a.secret, secret)])
		if err != nil {
			return err.Error()
		}
		if got, err := ref.SSMSDecode(cloneAll(sh[:3]), 3); err != nil || !bytes.Equal(got, secret) {
			return fmt.Sprintf("its shares stand for %s, %v", short(got), err)
		}
		return ""
	}})
	points := func(N, kind, n int) ([]byte, [][]byte) {
		secret := content(N, kind)
		tags := []byte{9, 200, 33, 255, 1, 77}[:n]
		if kind/2%2 == 1 { // the same tags on other shares
			tags = []byte{200, 9, 255, 33, 77, 1}[:n]
		}
		return secret, pointsOf(secret, tags, 3)
	}
	coded := func(N, kind, n int) ([]byte, [][]byte) {
		secret := content(N, kind)
		tags := []byte{9, 200, 33, 255, 1, 77}[:n]
		return secret, ref.SSMSEncode(secret, secretOf(16, kind/2), tags, n, 3, func(p, j int) byte { return byte(p*5 + j) })
	}
	equal := func(got []byte, err error, secret []byte) string {
		if err != nil || !bytes.Equal(got, secret) {
			return fmt.Sprintf("gives %s, %v instead of %s", short(got), err, short(secret))
		}
		return ""
	}
	ops = append(ops, reuseOp{"Combine", func(a *callerMem, N, kind int) string {
		secret, sh := points(N, kind, 4)
		got, err := shamir.Combine(a.put(sh))
		return equal(got, err, secret)
	}}, reuseOp{"Combine of three", func(a *callerMem, N, kind int) string {
		secret, sh := points(N, kind, 3)
		got, err := shamir.Combine(a.put(sh))
		return equal(got, err, secret)
	}}, reuseOp{"Regenerate", func(a *callerMem, N, kind int) string {
		secret, sh := points(N, kind, 4)
		more, err := shamir.Regenerate(a.put(sh), 2)
		if err != nil {
			return err.Error()
		}
		return back(append(cloneAll(sh), more...), nil, secret, 6, 3)
	}}, reuseOp{"krawczyk.Combine", func(a *callerMem, N, kind int) string {
		secret, sh := coded(N, kind, 5)
		got, err := krawczyk.Combine(a.put(sh), 5, 3)
		return equal(got, err, secret)
	}}, reuseOp{"krawczyk.Combine of parity", func(a *callerMem, N, kind int) string {
		secret, sh := coded(N, kind, 6)
		got, err := krawczyk.Combine(a.put(sh[3:]), 6, 3)
		return equal(got, err, secret)
	}}, reuseOp{"Worker.Combine shamir", func(a *callerMem, N, kind int) string {
		secret, sh := points(N, kind, 4)
		_, got, err := workerCombine(worker.AlgShamir, a.put(sh), nil)
		return equal(got, err, secret)
	}}, reuseOp{"Worker.Combine krawczyk", func(a *callerMem, N, kind int) string {
		secret, sh := coded(N, kind, 4)
		_, got, err := workerCombine(worker.AlgSSMS, a.put(sh[:4]), nil)
		return equal(got, err, secret)
	}}, reuseOp{"NewCSPRNGWithKeyIV", func(a *callerMem, N, kind int) string {
		kv := secretOf(32, kind/2)
		if kind%2 == 1 {
			kv[5+N%20] ^= 8
		}
		copy(a.key, kv)
		x := csprng.NewCSPRNGWithKeyIV(a.key)
		y := csprng.NewCSPRNGWithKeyIV(clone(kv))
		p, q := make([]byte, 40), make([]byte, 40)
		x.Read(p)
		y.Read(q)
		if !bytes.Equal(p, q) {
			return "delivers the stream of another key"
		}
		return ""
	}})
	return ops
}

// c18Reuse: every sequence of calls on the same memory with changing contents
// computes on what the memory holds at the time of the call.
func c18Reuse(c *Ctx) {
	count := len(reuseOps(nil, nil, nil))
	kinds := [][]int{{0, 1}, {0, 2}, {0, 2, 0}, {1, 0, 1}, {0, 2, 4}}
	sizes := []int{1, 16, 40, 257, 1100}
	if c.thorough {
		sizes = append(sizes, 2, 3, 15, 17, 31, 33, 63, 64, 65, 1023, 1024, 1025, 2049, 4096)
		kinds = append(kinds, []int{0, 1, 0, 2, 3, 0}, []int{4, 4, 0, 0, 2, 2})
	}
	for x := 0; x < count; x++ {
		for y := 0; y < count; y++ {
			x, y := x, y
			c.Case(func() string {
				ops := reuseOps(nil, nil, nil)
				return fmt.Sprintf("%s and %s on the same memory with changing contents", ops[x].name, ops[y].name)
			}, func() string {
				for _, N := range sizes {
					for _, ks := range kinds {
						for _, second := range []int{N, N + 3} {
							a := newCallerMem()
							w := worker.NewWorker()
							ops := reuseOps(newGen(), func(alg string, _ [][]byte, s []byte) ([][]byte, []byte, error) {
								sh, err := w.Split(alg, s, 4, 3)
								return sh, nil, err
							}, func(alg string, l [][]byte, _ []byte) ([][]byte, []byte, error) {
								b, err := w.Combine(alg, l, 4, 3)
								return nil, b, err
							})
							for i, k := range ks {
								o, n := ops[x], N
								if i%2 == 1 {
									o, n = ops[y], second
								}
								if m := o.do(a, n, k); m != "" {
									return fmt.Sprintf("%d bytes, contents %v, call %d (%s): %s", n, ks[:i+1], i+1, o.name, m)
								}
							}
							c.Eval(1)
						}
					}
				}
				c.Distinct(hash("reuse", x, y))
				return ""
			})
		}
	}
}

// ---- C10: one bad share anywhere in a long list ----

func c10Positions(c *Ctx) {
	ks := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255}
	if c.thorough {
		ks = upto(256)[2:]
	}
	for _, ssms := range []bool{false, true} {
		for _, k := range ks {
			for _, N := range []int{1, 2, 16, 33, 300, 1025} {
				if k > 64 && N != 16 && N != 1 && !c.thorough {
					continue
				}
				ssms, k, N := ssms, k, N
				c.Case(func() string {
					return fmt.Sprintf("SSMS %v: %d shares of %d secret bytes, one bad share at every position", ssms, k, N)
				}, func() string {
					tags := make([]byte, k)
					for i := range tags {
						tags[i] = byte((i*7+3)%255 + 1)
					}
					rows := make([][]byte, k)
					t, at := 2, N // the tag's place
					if ssms {
						at = 20
						rows = ref.SSMSEncode(secretOf(N, k), genKey[:16], tags, k, t, func(p, j int) byte { return byte(p*5 + j) })
					} else {
						for i := range rows {
							rows[i] = append(secretOf(N, i), tags[i])
						}
					}
					try := func(what string, p int, l [][]byte) string {
						c.Eval(1)
						if ssms {
							if got, err := krawczyk.Combine(l, k, t); err == nil {
								return fmt.Sprintf("krawczyk.Combine accepts %s at position %d: %s", what, p, short(got))
							}
							return ""
						}
						if got, err := shamir.Combine(l); err == nil {
							return fmt.Sprintf("Combine accepts %s at position %d: %s", what, p, short(got))
						}
						if k < 255 {
							if more, err := shamir.Regenerate(l, 1); err == nil {
								return fmt.Sprintf("Regenerate accepts %s at position %d: %s", what, p, short(more[0]))
							}
						}
						return ""
					}
					for p := 0; p < k; p++ {
						if k > 70 && p > 5 && p < k-5 && p%16 > 1 && p%16 < 15 && !c.thorough {
							continue
						}
						g := rows[p]
						bad := []struct {
							what string
							b    []byte
						}{
							{"an empty share", []byte{}}, {"a share of one byte", []byte{1}}, {"a share a byte shorter", g[:len(g)-1]},
							{"a share a byte longer", append(clone(g), 7)}, {"a share 256 bytes longer", append(clone(g), make([]byte, 256)...)},
							{"a share twice as long", append(clone(g), g...)}, {"a share without its first byte", g[1:]},
						}
						if !ssms {
							bad = append(bad, struct {
								what string
								b    []byte
							}{"a nil share", nil})
						}
						for _, x := range bad {
							l := append([][]byte{}, rows...)
							l[p] = x.b
							if m := try(x.what, p, l); m != "" {
								return m
							}
						}
						for q := 0; q < k; q++ {
							if q == p || k > 40 && q > 2 && q < k-2 && (q-p) > 2 && (p-q) > 2 && q != p/2 && q != k/2 && !c.thorough {
								continue
							}
							l := append([][]byte{}, rows...)
							l[p] = clone(g)
							l[p][at] = tags[q]
							if m := try(fmt.Sprintf("the tag of share %d", q), p, l); m != "" {
								return m
							}
							if ssms {
								continue // an exact copy adds nothing, but does no harm either
							}
							l[p] = clone(rows[q])
							if m := try(fmt.Sprintf("a copy of share %d", q), p, l); m != "" {
								return m
							}
						}
					}
					// all but one share bad
					for p := 0; p < k; p++ {
						l := make([][]byte, k)
						l[p] = clone(rows[p])
						if m := try("nothing but one share,", p, l); m != "" {
							return m
						}
						if p > 40 {
							break
						}
					}
					c.Distinct(hash("positions", fmt.Sprint(ssms), k, N))
					return ""
				})
			}
		}
	}
}

// ---- C11: shares of every length, and lists with every tag ----

func c11Lengths(c *Ctx) {
	top := 700
	if c.thorough {
		top = 4200
	}
	lens := append(upto(top + 1)[1:], 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 10000, 16385, 32769, 65535, 65537, 100001)
	for _, N := range lens {
		N := N
		c.Case(func() string { return fmt.Sprintf("shares of %d bytes", N) }, func() string {
			for _, g := range [][3]int{{2, 2, 3}, {3, 2, 1}, {5, 5, 4}, {6, 3, 20}} {
				k, t, m := g[0], g[1], g[2]
				if N > 5000 && k > 3 {
					continue
				}
				secret := secretOf(N, N+k)
				tags := make([]byte, k)
				for i := range tags {
					tags[i] = byte(255 - i*(N%40+1))
				}
				sh := pointsOf(secret, tags, t)
				c.Eval(1)
				if e := regenCheck(secret, sh, upto(k), m, t); e != "" {
					return fmt.Sprintf("from %d shares, t=%d: %s", k, t, e)
				}
			}
			c.Distinct(hash("lengths", N))
			return ""
		})
	}
	// every pair of tags, every run of tags
	for x := 1; x < 256; x++ {
		x := x
		c.Case(func() string { return fmt.Sprintf("tag %d with every other, and runs of tags from it", x) }, func() string {
			secret := []byte{0x5c, 0, 0xff}
			for y := 1; y < 256; y++ {
				if y == x {
					continue
				}
				c.Eval(1)
				if e := regenCheck(secret, pointsOf(secret, []byte{byte(x), byte(y)}, 2), upto(2), 3, 2); e != "" {
					return fmt.Sprintf("tags %d, %d: %s", x, y, e)
				}
			}
			for k := 3; k <= 255; k += 1 + k/3 {
				tags := make([]byte, k)
				for i := range tags {
					tags[i] = byte((x-1+i)%255 + 1)
				}
				for _, m := range []int{1, 255 - k} {
					if m > 255-k || m > 60 && k < 200 && x%16 != 1 {
						continue
					}
					c.Eval(1)
					if e := regenCheck(secret, pointsOf(secret, tags, 2), upto(k), m, 2); e != "" {
						return fmt.Sprintf("%d tags from %d, %d more: %s", k, x, m, e)
					}
				}
			}
			c.Distinct(hash("tags", x))
			return ""
		})
	}
}
