package main

import (
	"fmt"
	"sort"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// Sizes at which an implementation may switch to another way of working.

func init() {
	reg("C17", "large", c17Large)
	reg("C11", "contents", c11Contents)
	reg("C04", "large", c04Large)
	reg("C10", "longer", c10Longer)
	reg("C13", "large", c13Large)
}

// ---- C17: large calls after large calls ----

func c17Large(c *Ctx) {
	lens := []int{17000, 33001, 70001, 300007, 1<<20 + 11}
	if c.thorough {
		lens = append(lens, 1025, 5003, 16385, 65537, 131075, 600011, 1<<21+5, 1<<22+3)
	}
	kinds := []func(N, n, t int) op{}
	for _, v := range allVariants {
		v := v
		kinds = append(kinds, func(N, n, t int) op { return splitOp(v, N, n, t) })
	}
	kinds = append(kinds,
		func(N, n, t int) op { return combineOp(N, t, false) },
		func(N, n, t int) op { return regenOp(N, t, 1) },
		func(N, n, t int) op { return ssmsCombineOp(N, n, t, false) })
	frs := map[string]*freshResult{}
	run := func(first, then op) {
		c.Case(func() string { return first.name + ", then " + then.name }, func() string {
			fr := frs[then.name]
			if fr == nil {
				fr = &freshResult{}
				frs[then.name] = fr
			}
			c.Distinct(hash("largehist", first.name, then.name))
			return c.afterHistory([]op{first}, then, fr)
		})
	}
	for i, k := range kinds {
		for _, a := range lens {
			for x, b := range lens {
				run(k(a, 3, 2), k(b, 4-x%2, 3))
			}
		}
		for j, l := range kinds {
			if i != j {
				run(k(300007, 3, 2), l(70001, 4, 3))
				run(k(33001, 5, 4), l(40000, 3, 3))
			}
		}
	}
}

// ---- columns that resemble each other (C11, C20) ----

type columns struct {
	name string
	at   func(i, j int, tags []byte, N int) byte // share i, position j of N
}

func scramble(i, j int) byte { return byte((j*2654435761 + i*40503 + j*j*77) >> 7) }

// likeColumns: contents of long shares in which columns repeat in part, or
// which change their degree on the way.
func likeColumns() []columns {
	poly := func(d int) func(tags []byte, i, j int) byte {
		return func(tags []byte, i, j int) byte {
			cf := []byte{scramble(1, j)}
			for k := 1; k <= d; k++ {
				cf = append(cf, scramble(k+50, j))
			}
			return ref.Eval(cf, tags[i])
		}
	}
	// the shares that change at position j, as a mask
	masked := func(name string, mask func(j, k int) func(i int) bool) columns {
		return columns{name, func(i, j int, tags []byte, N int) byte {
			// the value of the last position at which share i changed
			for p := j; p > 0 && j-p < 600; p-- {
				if mask(p, len(tags))(i) {
					return scramble(i, p) | 1
				}
			}
			return scramble(i, 0)
		}}
	}
	o := []columns{
		masked("one share changes per position", func(j, k int) func(i int) bool { return func(i int) bool { return i == j%k } }),
		masked("one share stays per position", func(j, k int) func(i int) bool { return func(i int) bool { return i != j%k } }),
		masked("even or odd shares change", func(j, k int) func(i int) bool { return func(i int) bool { return (i+j)%2 == 0 } }),
		masked("even shares change", func(j, k int) func(i int) bool { return func(i int) bool { return i%2 == 0 } }),
		masked("odd shares change", func(j, k int) func(i int) bool { return func(i int) bool { return i%2 == 1 } }),
		masked("the first or the second half changes", func(j, k int) func(i int) bool { return func(i int) bool { return (i < k/2) == (j%2 == 0) } }),
		masked("every subset changes", func(j, k int) func(i int) bool { return func(i int) bool { return j>>(uint(i)%8)&1 == 1 } }),
		masked("every third share changes", func(j, k int) func(i int) bool { return func(i int) bool { return (i+j)%3 == 0 } }),
	}
	for _, d := range []int{0, 1, 2, 4, 7} {
		for _, part := range []int{2, 4} {
			d, part := d, part
			o = append(o, columns{fmt.Sprintf("degree %d but for the last %dth", d, part), func(i, j int, tags []byte, N int) byte {
				if j < N-N/part-1 {
					return poly(d)(tags, i, j)
				}
				return scramble(i, j)
			}})
		}
		d := d
		o = append(o, columns{fmt.Sprintf("degree %d but for one position in 100", d), func(i, j int, tags []byte, N int) byte {
			if j%100 != 57 {
				return poly(d)(tags, i, j)
			}
			return scramble(i, j)
		}}, columns{fmt.Sprintf("degree %d but for the last position", d), func(i, j int, tags []byte, N int) byte {
			if j != N-1 {
				return poly(d)(tags, i, j)
			}
			return scramble(i, j)
		}}, columns{fmt.Sprintf("degree %d but for one share", d), func(i, j int, tags []byte, N int) byte {
			if i != j%len(tags) {
				return poly(d)(tags, i, j)
			}
			return scramble(i, j)
		}})
	}
	return o
}

func (k columns) rows(tags []byte, N int) [][]byte {
	rows := make([][]byte, len(tags))
	for i := range rows {
		rows[i] = make([]byte, N)
		for j := range rows[i] {
			rows[i][j] = k.at(i, j, tags, N)
		}
	}
	return rows
}

var likeTags = [][]byte{{1, 2}, {200, 3, 77}, {5, 255, 254, 1, 128}, {6, 5, 4, 3, 2, 1}, {9, 8, 7, 6, 5, 4, 3, 2, 1},
	{1, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255}, {101, 158, 215, 16, 73, 130, 187, 244, 45, 102, 159, 216, 17, 74, 131, 188, 245, 46, 103, 160}}

func c11Contents(c *Ctx) {
	lens := []int{40, 300, 1100}
	if c.thorough {
		lens = append(lens, 2, 3, 7, 600, 2100, 5000)
	}
	for _, tags := range likeTags {
		for _, N := range lens {
			for _, k := range likeColumns() {
				tags, N, k := tags, N, k
				c.Case(func() string { return fmt.Sprintf("%d shares of %d bytes: %s", len(tags), N, k.name) }, func() string {
					rows := k.rows(tags, N)
					sh := make([][]byte, len(tags))
					for i := range sh {
						sh[i] = append(append(make([]byte, 0, N+1), rows[i]...), tags[i])
					}
					c.Distinct(hash("contents", len(tags), N, k.name))
					for _, m := range []int{1, 3} {
						c.Eval(1)
						if e := regenCheck(ref.InterpAt(tags, rows, 0), sh, upto(len(tags)), m, len(tags)); e != "" {
							return fmt.Sprintf("%d more: %s", m, e)
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- C04: large requests ----

// windowTwice finds 8 bytes that occur twice anywhere in the pieces.
func windowTwice(pieces [][]byte) string {
	type at struct {
		v uint64
		p int
	}
	var all []at
	base := 0
	for _, b := range pieces {
		v := uint64(0)
		for i, x := range b {
			v = v<<8 | uint64(x)
			if i >= 7 && (v^v>>29)&7 == 0 { // one window in eight, chosen by its content
				all = append(all, at{v, base + i - 7})
			}
		}
		base += len(b)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].v < all[j].v })
	for i := 1; i < len(all); i++ {
		if all[i].v == all[i-1].v {
			a, b := all[i-1].p, all[i].p
			if a > b {
				a, b = b, a
			}
			return fmt.Sprintf("the eight bytes delivered at position %d are delivered again at %d", a, b)
		}
	}
	return ""
}

func c04Large(c *Ctx) {
	lens := []int{1 << 17, 1<<18 + 3, 1<<19 + 100, 1<<20 + 17, 1 << 21, 1<<22 + 1, 1<<23 + 5}
	if c.thorough {
		lens = append(lens, 1<<24+9, 1<<25+33, 1<<26+1)
	}
	for _, N := range lens {
		for how := 0; how < 4; how++ {
			N, how := N, how
			c.Case(func() string {
				return fmt.Sprintf("reads of %d bytes, %s", N, []string{"once", "after small ones", "before small ones", "repeated"}[how])
			}, func() string {
				g := csprng.NewCSPRNGWithKeyIV(clone(genKey))
				var out [][]byte
				read := func(n int) {
					b := make([]byte, n)
					g.Read(b)
					out = append(out, b)
				}
				sizes := [][]int{{N}, {5, 100, N}, {N, 1000, 16, 700}, {N, N/2 + 1, N}}[how]
				if how == 3 && N > 1<<22 && !c.thorough {
					return ""
				}
				for _, n := range sizes {
					read(n)
				}
				beat()
				c.Eval(1)
				c.Distinct(hash("largereads", N, how))
				return windowTwice(out)
			})
		}
	}
	// the coefficients of large splits with one generator
	for _, v := range []variant{byName("SplitWithRandomizer"), byName("SplitWithRandomizerOld")} {
		for _, g := range [][3]int{{1<<20 + 33, 3, 2}, {1<<18 + 7, 5, 5}, {1<<17 + 9, 10, 10}, {600011, 3, 3}} {
			v, N, n, t := v, g[0], g[1], g[2]
			c.Case(func() string { return fmt.Sprintf("%s(%d bytes, %d, %d) twice", v.name, N, n, t) }, func() string {
				gen := newGen()
				var rows [][]byte
				for r := 0; r < 2; r++ {
					sh, err := v.f(secretOf(N, r), n, t, gen)
					if err != nil {
						return err.Error()
					}
					rows = append(rows, ref.Coefs(sh, t)[1:]...)
				}
				c.Distinct(hash("largesplits", v.name, N, n, t))
				// a run of equal coefficients shows either row by row or
				// column by column
				if m := windowTwice(rows); m != "" {
					return "coefficients: " + m
				}
				flat := make([][]byte, 2)
				for r := range flat {
					part := rows[r*(t-1) : (r+1)*(t-1)]
					for j := range part[0] {
						for k := range part {
							flat[r] = append(flat[r], part[k][j])
						}
					}
				}
				if m := windowTwice(flat); m != "" {
					return "coefficients byte by byte: " + m
				}
				return ""
			})
		}
	}
}

// ---- C10: shares longer by the multiples at which lengths wrap ----

func c10Longer(c *Ctx) {
	zero, err := zeroes(1<<32 + 1<<17)
	if err != nil {
		c.Note("no address space for shares past 2^32 bytes: %v", err)
		zero = make([]byte, 1<<24+1<<17)
	}
	for _, d := range []int{1 << 8, 1 << 15, 1 << 16, 1 << 17, 1 << 24, 1 << 31, 1 << 32} {
		for _, N := range []int{1, 2, 21, 22, 100, 5000} {
			for k := 2; k <= 4; k++ {
				d, N, k := d, N, k
				if N+d+22 > len(zero) {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d shares of %d bytes, one longer by %d", k, N, d) }, func() string {
					long := func(s []byte, tagAt int, tag byte) []byte {
						b := zero[:len(s)+d]
						copy(b, s)
						b[len(b)-1] = 254
						b[tagAt] = tag
						return b
					}
					clear := func(n int) {
						for i := 0; i < n; i++ {
							zero[i] = 0
						}
						zero[n+d-1] = 0
					}
					for p := 0; p < k; p++ {
						rows := make([][]byte, k)
						for i := range rows {
							rows[i] = append(secretOf(N, i), byte(i+1))
						}
						rows[p] = long(rows[p], N, byte(p+1))
						c.Eval(1)
						if got, err := shamir.Combine(rows); err == nil {
							return fmt.Sprintf("Combine accepts the longer share at position %d: %s", p, short(got))
						}
						if more, err := shamir.Regenerate(rows, 1); err == nil {
							return fmt.Sprintf("Regenerate accepts the longer share at position %d: %s", p, short(more[0]))
						}
						clear(N + 1)
						tags := []byte{7, 8, 9, 10}[:k]
						sh := ref.SSMSEncode(secretOf(N, 3), genKey[:16], tags, k, 2, func(p, j int) byte { return byte(p*5 + j) })
						L := len(sh[p])
						last := sh[p][L-1]
						sh[p] = long(sh[p], L-1, last)
						sh[p][len(sh[p])-1] = last
						if got, err := krawczyk.Combine(sh, k, 2); err == nil {
							return fmt.Sprintf("krawczyk.Combine accepts the longer share at position %d: %s", p, short(got))
						}
						if d < 1<<25 {
							w := worker.NewWorker()
							if got, err := w.Combine(worker.AlgSSMS, sh, k, 2); err == nil {
								return fmt.Sprintf("the worker accepts the longer share at position %d: %s", p, short(got))
							}
						}
						clear(L)
					}
					c.Distinct(hash("longer", d, N, k))
					return ""
				})
			}
		}
	}
}

// ---- C13: vectors past the caches ----

func c13Large(c *Ctx) {
	lens := []int{1<<17 + 5, 1<<18 - 1, 1<<18 + 31, 1 << 19, 1<<19 + 130, 1<<19 + 66, 1<<20 + 127, 1<<20 + 1<<13 + 1, 1<<21 + 97, 1<<22 + 77}
	if c.thorough {
		lens = append(lens, 1<<23+9, 1<<24+15, 1<<24+130, 1<<25+33)
	}
	for _, n := range lens {
		for off := 0; off < 2; off++ {
			n, off := n, off*9
			if off > 0 && n > 1<<21 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("length %d, offset %d", n, off) }, func() string {
				A, B := arena(n+192), arena(n+192)
				fillGuard(A)
				fillGuard(B)
				in, out := A[64+off:64+off+n], B[64:64+n]
				copy(in, secretOf(n, 3))
				for _, f := range mulFns {
					for _, k := range []byte{0, 1, 0x8e} {
						if m := checkMul(f, k, in); m != "" {
							return fmt.Sprintf("%s: %s", f.name, m)
						}
						if m := checkGuards(f.name, A, 64+off, 64+off+n); m != "" {
							return m
						}
						c.Eval(1)
					}
				}
				for _, f := range addFns {
					copy(out, secretOf(n, 4))
					if m := checkAdd(f, in, out); m != "" {
						return fmt.Sprintf("%s: %s", f.name, m)
					}
					if m := checkGuards(f.name, B, 64, 64+n); m != "" {
						return m
					}
					c.Eval(1)
				}
				beat()
				c.Distinct(hash("large", n, off))
				return ""
			})
		}
	}
}
