package main

import (
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

func init() {
	reg("C03", "degree", c03Degree)
	reg("C07", "degree", c07Degree)
	reg("C07", "sources", c07Sources)
}

// degreeShapes: every threshold, with as few and as many shares as there can be.
func degreeShapes(c *Ctx) [][2]int {
	var out [][2]int
	for t := 2; t <= 255; t++ {
		out = append(out, [2]int{t, t})
		if t < 255 && (c.thorough || t <= 20 || t%7 == 0 || t >= 250 || t >= 120 && t <= 136) {
			out = append(out, [2]int{255, t})
		}
	}
	return out
}

// c03Degree: for every threshold there are t-1 coefficients, none of them
// constant or a copy of another.
func c03Degree(c *Ctx) {
	for _, v := range shamirVariants {
		for _, g := range degreeShapes(c) {
			v, n, t := v, g[0], g[1]
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=2: coefficients over 8 streams", v.name, n, t) }, func() string {
				c.Eval(8)
				c.Distinct(hash("degree", v.name, n, t))
				return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
					tape.Reset(c.seed*100 + s)
					sh, err := v.f(secretOf(2, 1), n, t, newGen())
					if err != nil {
						return nil, nil, err.Error()
					}
					if len(sh) != n {
						return nil, nil, "wrong number of shares"
					}
					return ref.Coefs(sh[n-t:], t)[1:], ref.Tags(sh), ""
				}, 8)
			})
		}
	}
}

// c07Degree: the same for the sharing of the key and the key itself.
func c07Degree(c *Ctx) {
	for _, v := range ssmsVariants {
		for _, g := range degreeShapes(c) {
			v, n, t := v, g[0], g[1]
			c.Case(func() string {
				return fmt.Sprintf("%s n=%d t=%d len=9: key and coefficients over 8 streams", v.name, n, t)
			}, func() string {
				c.Eval(8)
				c.Distinct(hash("degree", v.name, n, t))
				return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
					tape.Reset(c.seed*100 + s)
					sh, err := v.f(secretOf(9, 1), n, t, newGen())
					if err != nil {
						return nil, nil, err.Error()
					}
					if len(sh) != n {
						return nil, nil, "wrong number of shares"
					}
					m := make([][]byte, n)
					for i := range sh {
						if len(sh[i]) < 22 {
							return nil, nil, "malformed shares"
						}
						m[i] = sh[i][:21]
					}
					co := ref.Coefs(m[n-t:], t)
					co[0] = co[0][:16]
					return co, ref.Tags(m), ""
				}, 8)
			})
		}
	}
}

// c07Sources: each byte of the key and of its sharing's coefficients comes
// from a random byte of its own.
func c07Sources(c *Ctx) {
	ks := c.needKeystream()
	cfgs := [][3]int{{2, 2, 1}, {3, 3, 100}, {6, 4, 33}, {20, 9, 5}, {30, 17, 40}, {70, 66, 3}, {130, 128, 9}}
	if c.thorough {
		cfgs = append(cfgs, [3]int{255, 254, 5}, [3]int{255, 129, 2000})
	}
	for _, v := range ssmsVariants {
		if v.gen && !ks {
			continue
		}
		for _, g := range cfgs {
			v, n, t, N := v, g[0], g[1], g[2]
			if v.gen && n > 100 && !c.thorough {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("sources of %s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				tr := c.traceSplit(v, N, n, t)
				c.Distinct(hash("sources", v.name, n, t, N))
				var m string
				if v.gen {
					m = tr.distinctSources('k', "the generator's keystream", "key and coefficients")
				} else if m = tr.distinctSources('c', "the operating system's randomness", "key and coefficients"); m != "" {
					if m2 := tr.distinctSources('m', "randomness", "key and coefficients"); m2 == "" {
						m = "" // from the seedable source: another property's business
					}
				}
				c.Eval(tr.runs)
				return m
			})
		}
	}
}
