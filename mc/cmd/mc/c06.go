package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	reg("C06", "grid", c06Grid)
	reg("C06", "subsets", c06Subsets)
	reg("C06", "lengths", func(c *Ctx) { c06Lengths(c, false) })
	reg("C06", "draws", c06Draws)
	reg("C08", "lengths", func(c *Ctx) { c06Lengths(c, true) })
	reg("C08", "grid", c08Grid)
	reg("C08", "foreign", c08Foreign)
	reg("C09", "params", c09Params)
	reg("C09", "legal", c09Legal)
	reg("C10", "shamir", c10Shamir)
	reg("C10", "ssms", c10SSMS)
	reg("C10", "bytes", c10Bytes)
	reg("C11", "grid", c11Grid)
	reg("C11", "draws", c11Draws)
	reg("C11", "counts", c11Counts)
}

func ssmsSplit(v variant, secret []byte, n, t int) ([][]byte, string) {
	sh, err := v.f(secret, n, t, newGen())
	if err != nil {
		return nil, "split failed: " + err.Error()
	}
	if len(sh) != n {
		return nil, fmt.Sprintf("%d shares instead of %d", len(sh), n)
	}
	return sh, ""
}

func holes(sh [][]byte, s []int) [][]byte {
	h := make([][]byte, len(sh))
	for _, i := range s {
		h[i] = sh[i]
	}
	return h
}

func c06Grid(c *Ctx) {
	var grid [][2]int
	for _, g := range ntGrid(false, 40) {
		n, t := g[0], g[1]
		if n <= 40 || c.thorough || (n < 100 && (t <= 3 || t >= n-1) && n%4 == 1) || n%64 == 63 && t%16 == 15 || n == 255 && (t <= 3 || t >= 254) || n >= 253 && t == 2 {
			grid = append(grid, g)
		}
	}
	for _, v := range ssmsVariants {
		for _, g := range grid {
			v, n, t := v, g[0], g[1]
			N := 1 + (n*13+t*5)%70
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				secret := secretOf(N, n+t)
				sh, m := ssmsSplit(v, secret, n, t)
				if m != "" {
					return m
				}
				for k, s := range someSubsets(n, t) {
					if n > 60 && k > 1 {
						break
					}
					if m := ssmsIs(pick(sh, s), s, n, t, secret); m != "" {
						return m
					}
					if n <= 60 {
						if m := ssmsIs(holes(sh, s), fmt.Sprint(s, " with nil for the others"), n, t, secret); m != "" {
							return m
						}
					}
				}
				c.Distinct(hash(v.name, n, t, N))
				return ""
			})
		}
	}
}

func c06Subsets(c *Ctx) {
	max := 8
	if c.thorough {
		max = 10
	}
	for _, v := range ssmsVariants {
		for n := 2; n <= max; n++ {
			for t := 2; t <= n; t++ {
				for _, N := range []int{1, t, 3*t + 1, 64} {
					v, n, t, N := v, n, t, N
					c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d: every subset of >= t shares", v.name, n, t, N) }, func() string {
						secret := secretOf(N, n*16+t)
						sh, m := ssmsSplit(v, secret, n, t)
						if m != "" {
							return m
						}
						for _, s := range subsets(n, t, n) {
							c.Distinct(hash(v.name, n, t, N, fmt.Sprint(s)))
							var lists [][][]byte
							lists = append(lists, pick(sh, s), pick(sh, reversed(s)), holes(sh, s))
							// nil entries in front, between and behind, in reverse order
							var h [][]byte
							for _, i := range reversed(s) {
								h = append(h, nil, sh[i])
							}
							lists = append(lists, append(h, nil))
							if len(s) <= 3 || len(s) <= 4 && N == 64 {
								msg := ""
								permutations(s, func(p []int) bool {
									c.Eval(1)
									msg = ssmsIs(pick(sh, p), p, n, t, secret)
									return msg == ""
								})
								if msg != "" {
									return msg
								}
							}
							for k, l := range lists {
								c.Eval(1)
								if m := ssmsIs(l, fmt.Sprintf("%v (form %d)", s, k), n, t, secret); m != "" {
									return m
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
}

func c06Lengths(c *Ctx, layout bool) {
	lim, top := 1500, 140000
	if c.thorough {
		lim, top = 4200, 1<<20+40
	}
	for _, v := range ssmsVariants {
		for _, g := range [][2]int{{3, 2}, {5, 3}, {4, 4}, {7, 5}} {
			for _, N := range lengthList(lim, top) {
				v, n, t, N := v, g[0], g[1], N
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
					secret := secretOf(N, N)
					sh, m := ssmsSplit(v, secret, n, t)
					if m != "" {
						return m
					}
					c.Distinct(hash(v.name, n, t, N))
					if layout {
						return ssmsData(sh, secret, n, t)
					}
					for _, s := range someSubsets(n, t)[:3] {
						if m := ssmsIs(pick(sh, s), s, n, t, secret); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	for _, v := range ssmsVariants {
		for _, N := range []int{1<<24 - 1, 1<<24 + 5} {
			v, N := v, N
			c.Case(func() string { return fmt.Sprintf("%s n=3 t=2 len=%d", v.name, N) }, func() string {
				secret := secretOf(N, N)
				sh, m := ssmsSplit(v, secret, 3, 2)
				if m != "" {
					return m
				}
				c.Distinct(hash(v.name, N))
				if layout {
					return ssmsData(sh, secret, 3, 2)
				}
				return ssmsIs(pick(sh, []int{2, 0}), "2,0", 3, 2, secret)
			})
		}
	}
}

// c06Draws: leading random bytes of each source over all values.
func c06Draws(c *Ctx) {
	for _, v := range ssmsVariants {
		for pos := 0; pos < 60; pos++ {
			v, pos := v, pos
			c.Case(func() string { return fmt.Sprintf("%s n=4 t=2 len=10, every value of random byte %d", v.name, pos) }, func() string {
				for val := 0; val < 256; val++ {
					tape.Reset(c.seed)
					if v.gen {
						tape.AES.Override = map[uint64]byte{uint64(pos): byte(val)}
					} else {
						tape.Crypto.Prefix = map[int]byte{pos: byte(val)}
						if pos < 12 {
							tape.Math.Prefix = map[int]byte{pos: byte(val)}
						}
					}
					secret := secretOf(10, val)
					sh, m := ssmsSplit(v, secret, 4, 2)
					if m != "" {
						return m
					}
					c.Eval(1)
					for _, s := range [][]int{{0, 1}, {3, 2}, {1, 3, 0}} {
						if m := ssmsIs(pick(sh, s), s, 4, 2, secret); m != "" {
							return fmt.Sprintf("value %d: %s", val, m)
						}
					}
				}
				c.Distinct(hash(v.name, pos))
				return ""
			})
		}
		for val := 0; val < 256; val++ {
			v, val := v, val
			c.Case(func() string { return fmt.Sprintf("%s, the first 16..300 random bytes are %d", v.name, val) }, func() string {
				for _, run := range []int{16, 17, 40, 300} {
					for _, g := range [][2]int{{3, 2}, {24, 5}} {
						tape.Reset(c.seed)
						b := byte(val)
						tape.AES.Const, tape.AES.ConstLen = &b, uint64(run)
						tape.Crypto.Const, tape.Crypto.ConstLen = &b, run
						secret := secretOf(50, val)
						sh, m := ssmsSplit(v, secret, g[0], g[1])
						if m != "" {
							return m
						}
						c.Eval(1)
						for _, s := range someSubsets(g[0], g[1])[:2] {
							if m := ssmsIs(pick(sh, s), s, g[0], g[1], secret); m != "" {
								return m
							}
						}
					}
				}
				c.Distinct(hash(v.name, "run", val))
				return ""
			})
		}
	}
}

func c08Grid(c *Ctx) {
	for _, v := range ssmsVariants {
		for _, g := range ntGrid(false, 32) {
			n, t := g[0], g[1]
			if n > 32 && !(n%64 == 63 && t%16 == 15 || n == 255 && t <= 3 || n == 128 || c.thorough && n%5 == 0) {
				continue
			}
			for _, N := range []int{1, t, t + 1, 5*t - 1, 96} {
				v, n, t, N := v, n, t, N
				if n > 40 && N != t+1 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
					secret := secretOf(N, n*3+t)
					sh, m := ssmsSplit(v, secret, n, t)
					if m != "" {
						return m
					}
					if m := ssmsData(sh, secret, n, t); m != "" {
						return m
					}
					c.Distinct(hash(v.name, n, t, N))
					// an independent decoder recovers the secret from any t
					sel := [][]int{}
					if n <= 6 {
						sel = subsets(n, t, t)
					} else {
						for _, s := range someSubsets(n, t) {
							sel = append(sel, s[:t])
						}
					}
					for _, s := range sel {
						c.Eval(1)
						got, err := ref.SSMSDecode(pick(sh, s), t)
						if err != nil || !bytes.Equal(got, secret) {
							return fmt.Sprintf("the reference decoder gives %s, %v from shares %v", short(got), err, s)
						}
					}
					return ""
				})
			}
		}
	}
}

// c08Foreign: shares written by the reference encoder.
func c08Foreign(c *Ctx) {
	for _, g := range ntGrid(false, 30) {
		n, t := g[0], g[1]
		if n > 30 && !(n%64 == 63 && t%16 == 15 || n == 255 && t <= 3 || c.thorough && n%7 == 0) {
			continue
		}
		for _, N := range []int{1, t, 2*t + 1, 47, 300} {
			for kind := 0; kind < 4; kind++ {
				n, t, N, kind := n, t, N, kind
				if n > 40 && (N > 60 || kind > 1) {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("reference shares n=%d t=%d len=%d tags %d", n, t, N, kind) }, func() string {
					secret := secretOf(N, n+N)
					key := secretOf(16, kind*7+n)
					switch kind {
					case 1:
						key = make([]byte, 16)
					case 2:
						key = bytes.Repeat([]byte{0xff}, 16)
					}
					tags := make([]byte, n)
					for i := range tags {
						switch kind {
						case 0:
							tags[i] = byte(i + 1)
						case 1:
							tags[i] = byte(255 - i)
						default:
							tags[i] = byte((i*7+kind*31)%255 + 1)
						}
					}
					co := secretOf(20*t, 9)
					sh := ref.SSMSEncode(secret, key, tags, n, t, func(p, j int) byte {
						if kind == 2 {
							return 0
						}
						return co[p*(t-1)+j-1]
					})
					c.Distinct(hash(n, t, N, kind))
					sel := someSubsets(n, t)
					if n <= 6 {
						sel = subsets(n, t, n)
					}
					for _, s := range sel {
						c.Eval(1)
						if m := ssmsIs(pick(sh, s), s, n, t, secret); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- C09 ----

func legal(n, t int) bool { return 2 <= t && t <= n && n <= 255 }

func c09Params(c *Ctx) {
	var vals []int
	for i := -3; i <= 262; i++ {
		vals = append(vals, i)
	}
	ext := []int{math.MinInt64, math.MinInt64 + 1, math.MinInt32, -65536, -257, -256, -255, -254, 300, 511, 512, 513, 514, 515, 767, 770,
		1000, 4096, 65535, 65536, 65537, 65538, 65539, 65540, 65791, math.MaxInt64 - 1, math.MaxInt64, 1 << 62, 1<<62 + 3, 1<<56 + 2}
	for _, v := range allVariants {
		ssms := v.name[0] == 'k'
		v := v
		ns := append(append([]int{}, vals...), ext...)
		for _, n := range ns {
			n := n
			c.Case(func() string { return fmt.Sprintf("%s n=%d, every illegal threshold", v.name, n) }, func() string {
				for _, t := range ns {
					if legal(n, t) {
						continue
					}
					for _, secret := range [][]byte{{7}, {1, 2, 3, 4, 5}} {
						c.Eval(1)
						sh, err := v.f(secret, n, t, newGen())
						if err == nil {
							return fmt.Sprintf("t=%d: accepted (%d shares)", t, len(sh))
						}
						if len(sh) != 0 {
							return fmt.Sprintf("t=%d: shares next to the error", t)
						}
						if len(secret) == 1 && (n > 270 || t > 270) {
							break
						}
					}
					c.Distinct(hash(v.name, n, t))
				}
				return ""
			})
			if n < 2 || n > 255 || ssms && n > 30 && n%45 != 30 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s n=%d, empty and nil secrets", v.name, n) }, func() string {
				for _, t := range ns {
					if n > 20 && legal(n, t) && t%17 != 2 {
						continue
					}
					for k, secret := range [][]byte{nil, {}, make([]byte, 0, 10)} {
						c.Eval(1)
						sh, err := v.f(secret, n, t, newGen())
						if err == nil {
							return fmt.Sprintf("t=%d: empty secret (form %d) accepted", t, k)
						}
						if len(sh) != 0 {
							return fmt.Sprintf("t=%d: shares next to the error", t)
						}
					}
					c.Distinct(hash(v.name, n, t, "empty"))
				}
				return ""
			})
		}
	}
}

func c09Legal(c *Ctx) {
	for _, v := range allVariants {
		ssms := v.name[0] == 'k'
		for n := 2; n <= 255; n++ {
			v, n := v, n
			if ssms && n > 32 && n%16 != 15 && n < 250 && !c.thorough {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s n=%d, every legal threshold", v.name, n) }, func() string {
				for t := 2; t <= n; t++ {
					if ssms && n > 32 && t > 3 && t < n-1 && t%32 != 0 && t%32 != 31 {
						continue
					}
					c.Eval(1)
					N := 1
					if t%5 == 0 {
						N = 2 + t%7
					}
					sh, err := v.f(secretOf(N, t), n, t, newGen())
					if err != nil {
						return fmt.Sprintf("t=%d: %v", t, err)
					}
					if len(sh) != n {
						return fmt.Sprintf("t=%d: %d shares", t, len(sh))
					}
					c.Distinct(hash(v.name, n, t))
				}
				return ""
			})
		}
	}
}

// ---- C10 ----

type symbol struct {
	name string
	b    []byte
}

// shamirSymbols: genuine shares of one sharing and malformed entries.
func shamirSymbols() (genuine [][]byte, syms []symbol) {
	sh, err := shamir.Split([]byte("0123456789"), 4, 2)
	if err != nil {
		panic(err)
	}
	g := func(i int) []byte { return clone(sh[i]) }
	cor := g(1)
	cor[3] ^= 0x40
	zero := g(2)
	zero[len(zero)-1] = 0
	dup := g(3)
	dup[len(dup)-1] = sh[0][len(sh[0])-1]
	syms = []symbol{
		{"s0", g(0)}, {"s1", g(1)}, {"s2", g(2)},
		{"nil", nil}, {"empty", []byte{}}, {"1 byte", []byte{9}}, {"2 bytes", []byte{1, 2}},
		{"short s1", g(1)[:len(sh[1])-1]}, {"long s0", append(g(0), 77)}, {"half s2", g(2)[:5]},
		{"corrupt s1", cor}, {"s2 tag 0", zero}, {"s3 with tag of s0", dup}, {"zeros", make([]byte, len(sh[0]))},
	}
	return sh, syms
}

// enumerate all lists over the symbols up to a length.
func lists(c *Ctx, syms []symbol, max int, f func(list []symbol) string) {
	// one case per pair of leading symbols, all continuations inside
	run := func(prefix []int) {
		c.Case(func() string { return "lists starting with " + names(syms, prefix) }, func() string {
			var walk func(l []int) string
			walk = func(l []int) string {
				sl := make([]symbol, len(l))
				for i, k := range l {
					sl[i] = syms[k]
				}
				c.Eval(1)
				c.Distinct(hash(names(syms, l)))
				if m := c.guard(func() string { return f(sl) }); m != "" {
					return "list " + names(syms, l) + ": " + m
				}
				if len(l) == max {
					return ""
				}
				if len(prefix) < 2 {
					return ""
				}
				for s := range syms {
					if m := walk(append(append([]int{}, l...), s)); m != "" {
						return m
					}
				}
				return ""
			}
			return walk(prefix)
		})
	}
	run(nil)
	for a := range syms {
		run([]int{a})
	}
	for a := range syms {
		for b := range syms {
			run([]int{a, b})
		}
	}
}

func names(syms []symbol, l []int) string {
	s := "["
	for i, k := range l {
		if i > 0 {
			s += ", "
		}
		s += syms[k].name
	}
	return s + "]"
}

// mustFail tells whether a list of shares has to be refused.
func mustFail(l []symbol, min int) string {
	if len(l) < 2 {
		return "fewer than two shares"
	}
	tags := map[byte]bool{}
	for _, s := range l {
		if len(s.b) != len(l[0].b) {
			return "shares of unequal length"
		}
	}
	if len(l[0].b) < min {
		return "shares without data"
	}
	for _, s := range l {
		t := s.b[len(s.b)-1]
		if tags[t] {
			return "shares with duplicate tags"
		}
		tags[t] = true
	}
	return ""
}

func raw(l []symbol) [][]byte {
	if l == nil {
		return nil
	}
	o := make([][]byte, len(l))
	for i := range l {
		o[i] = clone(l[i].b)
		if l[i].b != nil && o[i] == nil {
			o[i] = []byte{}
		}
	}
	return o
}

func c10Shamir(c *Ctx) {
	max := 4
	if c.thorough {
		max = 5
	}
	_, syms := shamirSymbols()
	lists(c, syms, max, func(l []symbol) string {
		why := mustFail(l, 2)
		got, err := shamir.Combine(raw(l))
		if why != "" && err == nil {
			return fmt.Sprintf("Combine accepts %s and gives %s", why, short(got))
		}
		if err != nil && len(got) != 0 {
			return "Combine gives data next to the error"
		}
		for _, m := range []int{0, 1, 3} {
			if m == 3 && len(l) > 3 {
				continue
			}
			more, err := shamir.Regenerate(raw(l), m)
			if why != "" && err == nil {
				return fmt.Sprintf("Regenerate(%d) accepts %s", m, why)
			}
			if err != nil && len(more) != 0 {
				return "Regenerate gives shares next to the error"
			}
			if why == "" && err == nil && len(more) != m {
				return fmt.Sprintf("Regenerate(%d) gives %d shares", m, len(more))
			}
		}
		return ""
	})
	for _, m := range []int{-1, -2, -255, -256, math.MinInt64, 252, 253, 254, 255, 256, 257, 1000, 65536, 65538, math.MaxInt64, math.MaxInt64 - 2} {
		for k := 2; k <= 4; k++ {
			m, k := m, k
			c.Case(func() string { return fmt.Sprintf("Regenerate %d more from %d shares", m, k) }, func() string {
				sh, err := shamir.Split([]byte("abc"), 4, 2)
				if err != nil {
					return err.Error()
				}
				more, err := shamir.Regenerate(sh[:k], m)
				ok := m >= 0 && m <= 255-k
				if ok && err != nil {
					return err.Error()
				}
				if !ok && err == nil {
					return fmt.Sprintf("accepted, %d shares", len(more))
				}
				c.Distinct(hash("count", k, uint64(m)))
				return ""
			})
		}
	}
	// more than 255 entries, many duplicates
	for _, k := range []int{254, 255, 256, 257, 300, 600} {
		k := k
		c.Case(func() string { return fmt.Sprintf("%d shares", k) }, func() string {
			l := make([][]byte, k)
			for i := range l {
				l[i] = []byte{byte(i), byte(i * 3), byte(i)}
			}
			_, err := shamir.Combine(l)
			if err == nil && k > 256 {
				return fmt.Sprintf("Combine: %v", err)
			}
			if _, err := shamir.Regenerate(l, 1); err == nil && k > 254 {
				return "Regenerate accepts it"
			}
			c.Distinct(hash("many", k))
			return ""
		})
	}
}

func c10SSMS(c *Ctx) {
	max := 3
	if c.thorough {
		max = 4
	}
	for _, g := range [][2]int{{4, 2}, {4, 3}, {5, 5}, {3, 3}} {
		n, t := g[0], g[1]
		tape.Reset(c.seed)
		secret := []byte("an SSMS secret of 30 bytes....")
		sh, err := krawczyk.Split(secret, n, t)
		if err != nil {
			c.Case(func() string { return "split" }, func() string { return err.Error() })
			return
		}
		gs := func(i int) []byte { return clone(sh[i]) }
		cor := gs(1)
		cor[25] ^= 4
		badLen := gs(1)
		badLen[18] ^= 0x80
		badLen2 := gs(1)
		badLen2[19] ^= 0x80
		pid := gs(1)
		pid[len(pid)-1] = byte(n)
		pid255 := gs(1)
		pid255[len(pid)-1] = 255
		pdup := gs(2)
		pdup[len(pdup)-1] = 0
		tdup := gs(2)
		tdup[20] = sh[0][20]
		tz := gs(1)
		tz[20] = 0
		syms := []symbol{
			{"s0", gs(0)}, {"s1", gs(1)}, {"s2", gs(2)},
			{"nil", nil}, {"empty", []byte{}}, {"1 byte", []byte{0}}, {"20 bytes", make([]byte, 20)}, {"21 bytes", gs(1)[:21]}, {"22 bytes", gs(1)[:22]},
			{"s1 cut", gs(1)[:len(sh[1])-1]}, {"s0 extended", append(gs(0), 0)}, {"s1 22 bytes, id 1", append(gs(1)[:21], 1)},
			{"s1 data flipped", cor}, {"s1 length flipped", badLen}, {"s1 length high bit", badLen2}, {"s1 id=n", pid}, {"s1 id=255", pid255},
			{"s2 id=0", pdup}, {"s2 tag of s0", tdup}, {"s1 tag 0", tz}, {"zeros", make([]byte, len(sh[0]))},
		}
		lists(c, syms, max, func(l []symbol) string {
			counts := [][2]int{{n, t}}
			if len(l) <= 2 {
				counts = append(counts, [2]int{0, 0}, [2]int{t, n}, [2]int{-1, -1}, [2]int{n, -t}, [2]int{-n, t}, [2]int{1, 1}, [2]int{2, 1}, [2]int{2, 2}, [2]int{n, n},
					[2]int{255, 2}, [2]int{255, 255}, [2]int{256, 2}, [2]int{256, 256}, [2]int{300, 5}, [2]int{3, 0}, [2]int{0, 3},
					[2]int{math.MaxInt64, 2}, [2]int{math.MinInt64, 2}, [2]int{2, math.MinInt64}, [2]int{math.MaxInt64, math.MaxInt64}, [2]int{65539, 2})
			}
			for _, pc := range counts {
				var real []symbol
				for _, s := range l {
					if s.b != nil {
						real = append(real, s)
					}
				}
				// the tag of an SSMS share sits at byte 20
				why := ""
				tags, ids := map[byte]bool{}, map[byte]bool{}
				lens := map[int]bool{}
				for _, s := range real {
					lens[len(s.b)] = true
					if len(s.b) < 23 {
						why = "shares without data"
						continue
					}
					if tags[s.b[20]] {
						why = "shares with duplicate tags"
					}
					tags[s.b[20]] = true
					ids[s.b[len(s.b)-1]] = true
				}
				if len(lens) > 1 {
					why = "shares of unequal length"
				}
				if len(real) < pc[1] || len(ids) < pc[1] || len(real) < 2 {
					why = "too few shares"
				}
				if pc[0] < pc[1] || pc[1] < 1 || pc[0] > 255 {
					why = "illegal counts"
				}
				c.Eval(1)
				got, err := krawczyk.Combine(raw(l), pc[0], pc[1])
				if why != "" && err == nil {
					return fmt.Sprintf("Combine with n=%d t=%d accepts %s and gives %s", pc[0], pc[1], why, short(got))
				}
				if err != nil && len(got) != 0 {
					return "data next to the error"
				}
			}
			return ""
		})
	}
}

// c10Bytes: every single-byte change, truncation and extension of each share
// of a valid set; every list of tiny byte strings.
func c10Bytes(c *Ctx) {
	for alg := 0; alg < 2; alg++ {
		alg := alg
		tape.Reset(c.seed)
		var sh [][]byte
		if alg == 0 {
			sh, _ = shamir.Split([]byte("0123456789abcdef"), 3, 2)
		} else {
			sh, _ = krawczyk.Split([]byte("0123456789abcdef"), 3, 2)
		}
		comb := func(l [][]byte) (err error) {
			if alg == 0 {
				_, err = shamir.Combine(l)
				return
			}
			_, err = krawczyk.Combine(l, 3, 2)
			return
		}
		if len(sh) != 3 {
			continue
		}
		for i := 0; i < 3; i++ {
			for p := range sh[i] {
				i, p := i, p
				c.Case(func() string { return fmt.Sprintf("algorithm %d: byte %d of share %d takes every value", alg, p, i) }, func() string {
					for v := 0; v < 256; v++ {
						l := cloneAll(sh)
						l[i][p] = byte(v)
						c.Eval(2)
						comb(l)
						l[2] = nil
						comb(l[:2])
					}
					c.Distinct(hash(alg, i, p))
					return ""
				})
				c.Case(func() string { return fmt.Sprintf("algorithm %d: share %d cut to %d bytes", alg, i, p) }, func() string {
					for ext := 0; ext < 2; ext++ {
						l := cloneAll(sh)
						l[i] = l[i][:p]
						if ext == 1 {
							l[i] = append(clone(sh[i]), make([]byte, p+1)...)
						}
						c.Eval(1)
						if err := comb(l); err == nil {
							return "a share of another length is accepted"
						}
						all := cloneAll(sh)
						for k := range all {
							all[k] = all[k][:p]
						}
						comb(all)
					}
					return ""
				})
			}
		}
	}
	// all pairs of strings of length <= 2 over a few bytes, and triples
	var strs [][]byte
	vals := []byte{0, 1, 2, 255}
	strs = append(strs, nil, []byte{})
	for _, a := range vals {
		strs = append(strs, []byte{a})
		for _, b := range vals {
			strs = append(strs, []byte{a, b})
		}
	}
	for i := range strs {
		i := i
		c.Case(func() string { return fmt.Sprintf("tiny lists starting with %x", strs[i]) }, func() string {
			for j := range strs {
				for k := -1; k < len(strs); k++ {
					l := [][]byte{strs[i], strs[j]}
					if k >= 0 {
						l = append(l, strs[k])
					}
					var sl []symbol
					for _, b := range l {
						sl = append(sl, symbol{"", b})
					}
					c.Eval(3)
					why := mustFail(sl, 2)
					if got, err := shamir.Combine(cloneAll(l)); err == nil && why != "" {
						return fmt.Sprintf("Combine of %x accepts %s: %x", l, why, got)
					} else if err != nil && why == "" {
						return fmt.Sprintf("Combine of %x: %v", l, err)
					}
					if _, err := shamir.Regenerate(cloneAll(l), 2); err == nil && why != "" {
						return fmt.Sprintf("Regenerate of %x accepts %s", l, why)
					}
					if got, err := krawczyk.Combine(cloneAll(l), 3, 2); err == nil {
						return fmt.Sprintf("krawczyk.Combine of %x gives %x", l, got)
					}
				}
			}
			return ""
		})
	}
}

// ---- C11 ----

func regenCheck(secret []byte, sh [][]byte, use []int, m, t int) string {
	old := pick(sh, use)
	more, err := shamir.Regenerate(cloneAll(old), m)
	if err != nil {
		return fmt.Sprintf("Regenerate(%d) from %d shares: %v", m, len(use), err)
	}
	if len(more) != m {
		return fmt.Sprintf("%d shares instead of %d", len(more), m)
	}
	for i, s := range more {
		if len(s) != len(secret)+1 {
			return fmt.Sprintf("new share %d has %d bytes", i, len(s))
		}
	}
	all := append(cloneAll(old), more...)
	return ref.CheckSharing(secret, all, len(use)+m, t)
}

func c11Grid(c *Ctx) {
	max := 16
	if c.thorough {
		max = 40
	}
	for _, v := range shamirVariants {
		for n := 2; n <= max; n++ {
			for t := 2; t <= n; t++ {
				for _, m := range []int{0, 1, 2, 5, 17} {
					v, n, t, m := v, n, t, m
					N := 1 + (n+t+m)%6
					c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d, %d more", v.name, n, t, N, m) }, func() string {
						secret := secretOf(N, n+t)
						sh, e := splitOK(v, secret, n, t)
						if e != "" {
							return e
						}
						sel := someSubsets(n, t)
						if n <= 5 {
							sel = subsets(n, t, n)
						}
						for _, s := range sel {
							c.Eval(1)
							c.Distinct(hash(v.name, n, t, m, fmt.Sprint(s)))
							if e := regenCheck(secret, sh, s, m, t); e != "" {
								return fmt.Sprintf("from shares %v: %s", s, e)
							}
						}
						// mixed sets reconstruct
						if m > 0 && n <= 6 {
							more, err := shamir.Regenerate(cloneAll(sh[:t]), m)
							if err != nil {
								return err.Error()
							}
							all := append(cloneAll(sh[:t]), more...)
							if len(all) > 8 {
								all = all[:8]
							}
							for _, s := range subsets(len(all), t, t) {
								c.Eval(1)
								if e := combineIs(all, s, secret); e != "" {
									return "mixed old and new shares: " + e
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
	for _, N := range []int{1, 16, 33, 255, 256, 257, 1000, 1024, 1025, 4099} {
		N := N
		c.Case(func() string { return fmt.Sprintf("len=%d", N) }, func() string {
			secret := secretOf(N, N)
			sh, err := shamir.Split(secret, 5, 3)
			if err != nil {
				return err.Error()
			}
			c.Distinct(hash("len", N))
			return regenCheck(secret, sh, []int{4, 0, 2}, 4, 3)
		})
	}
	// chains: regenerate from regenerated shares only
	for t := 2; t <= 6; t++ {
		for hops := 1; hops <= 4; hops++ {
			t, hops := t, hops
			c.Case(func() string { return fmt.Sprintf("t=%d: %d generations of replacement", t, hops) }, func() string {
				secret := secretOf(9, t)
				sh, err := shamir.Split(secret, t, t)
				if err != nil {
					return err.Error()
				}
				for h := 0; h < hops; h++ {
					c.Eval(1)
					if sh, err = shamir.Regenerate(sh, t+1); err != nil {
						return err.Error()
					}
					if e := ref.CheckSharing(secret, sh, t+1, t); e != "" {
						return fmt.Sprintf("generation %d: %s", h+1, e)
					}
				}
				c.Distinct(hash("chain", t, hops))
				return ""
			})
		}
	}
}

// c11Counts: every count from every number of shares.
func c11Counts(c *Ctx) {
	for k := 2; k <= 255; k++ {
		if !c.thorough && k > 60 && k < 240 && k%4 != 1 {
			continue
		}
		k := k
		c.Case(func() string { return fmt.Sprintf("every count m from %d shares", k) }, func() string {
			secret := []byte{0x42}
			sh, err := shamir.Split(secret, k, 2)
			if err != nil {
				return err.Error()
			}
			for m := 0; m <= 260; m++ {
				if m > 24 && m < 255-k-3 && m%16 != 7 && !c.thorough {
					continue
				}
				c.Eval(1)
				if k+m > 255 {
					if more, err := shamir.Regenerate(cloneAll(sh), m); err == nil {
						return fmt.Sprintf("m=%d: %d shares instead of an error", m, len(more))
					}
					if m > 258-k && m < 255 {
						m = 255 // the counts in between behave alike
					}
					continue
				}
				use := upto(k)
				if k > 40 && m > 40 {
					// interpolation is quadratic: keep the check on fewer old shares
					use = upto(k)
				}
				if e := regenCheck(secret, sh, use, m, 2); e != "" {
					return fmt.Sprintf("m=%d: %s", m, e)
				}
				c.Distinct(hash("count", k, m))
			}
			return ""
		})
	}
}

func c11Draws(c *Ctx) {
	secret := []byte{0x11, 0x22}
	mk := func(n, t int) [][]byte {
		// fixed tags: 1..n
		sh := make([][]byte, n)
		co := secretOf(2*t, 77)
		for i := range sh {
			c0 := append([]byte{secret[0]}, co[:t-1]...)
			c1 := append([]byte{secret[1]}, co[t:2*t-1]...)
			sh[i] = []byte{ref.Eval(c0, byte(i+1)), ref.Eval(c1, byte(i+1)), byte(i + 1)}
		}
		return sh
	}
	// all values of the two leading bytes of every source
	for _, g := range [][3]int{{2, 2, 2}, {3, 3, 2}, {4, 2, 3}} {
		for hi := 0; hi < 256; hi++ {
			g, hi := g, hi
			c.Case(func() string {
				return fmt.Sprintf("%d shares, t=%d, %d more: random bytes (%d, every value)", g[0], g[1], g[2], hi)
			}, func() string {
				sh := mk(g[0], g[1])
				for lo := 0; lo < 256; lo++ {
					tape.Reset(c.seed)
					p := map[int]byte{0: byte(hi), 1: byte(lo)}
					tape.Crypto.Prefix, tape.Math.Prefix = p, p
					c.Eval(1)
					if e := regenCheck(secret, sh, upto(g[0]), g[2], g[1]); e != "" {
						return fmt.Sprintf("second byte %d: %s", lo, e)
					}
				}
				c.Distinct(hash(g[0], g[1], g[2], hi))
				return ""
			})
		}
	}
	// runs of one value, then anything
	for val := 0; val < 256; val++ {
		val := val
		c.Case(func() string { return fmt.Sprintf("the first 1..40 random bytes are all %d", val) }, func() string {
			for _, g := range [][3]int{{2, 2, 3}, {5, 3, 4}, {2, 2, 20}, {3, 2, 252}} {
				for _, run := range []int{1, 2, 3, 4, 5, 8, 16, 24, 40, 256} {
					if g[2] == 252 && (run%8 != 0 || val%16 != 0) {
						continue
					}
					tape.Reset(c.seed)
					b := byte(val)
					tape.Crypto.Const, tape.Crypto.ConstLen = &b, run
					tape.Math.Const, tape.Math.ConstLen = &b, run
					c.Eval(1)
					if e := regenCheck(secret, mk(g[0], g[1]), upto(g[0]), g[2], g[1]); e != "" {
						return fmt.Sprintf("%d bytes, %d shares, %d more: %s", run, g[0], g[2], e)
					}
				}
			}
			c.Distinct(hash("run", val))
			return ""
		})
	}
	// repeated pairs of values: collisions among the new tags and redraws
	for a := 0; a < 12; a++ {
		for b := 0; b < 12; b++ {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("random bytes alternate between %d and %d", a, b) }, func() string {
				for _, per := range []int{1, 2, 4, 8} {
					for _, g := range [][3]int{{2, 2, 4}, {4, 4, 6}, {6, 2, 5}} {
						tape.Reset(c.seed)
						p := map[int]byte{}
						for i := 0; i < 64; i++ {
							p[i] = byte(a)
							if i/per%2 == 1 {
								p[i] = byte(b)
							}
						}
						tape.Crypto.Prefix, tape.Math.Prefix = p, p
						c.Eval(1)
						if e := regenCheck(secret, mk(g[0], g[1]), upto(g[0]), g[2], g[1]); e != "" {
							return fmt.Sprintf("period %d: %s", per, e)
						}
					}
				}
				c.Distinct(hash("alt", a, b))
				return ""
			})
		}
	}
}
