package main

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

// Histories of one object: the properties of one call's result, checked for
// every call of a sequence of requests to one generator, randomizer or worker.

func init() {
	reg("C01", "object", func(c *Ctx) { splitHistories(c, "shamir", roundtrip) })
	reg("C02", "object", func(c *Ctx) { splitHistories(c, "shamir", wellFormed) })
	reg("C06", "object", func(c *Ctx) {
		splitHistories(c, "krawczyk", func(s []byte, sh [][]byte, n, t int) string {
			l := someSubsets(n, t)[1+len(s)%2]
			return ssmsIs(pick(sh, l), l, n, t, s)
		})
	})
	reg("C08", "object", func(c *Ctx) {
		splitHistories(c, "krawczyk", func(s []byte, sh [][]byte, n, t int) string { return ssmsJudge(sh, s, n, t, true) })
	})
	reg("C15", "object", permHistories)
	reg("C18", "object", c18Object)
}

// object is what a history is made on.
type object struct {
	g *csprng.CSPRNG
	w func(alg string, secret []byte, n, k int) ([][]byte, error)
	r *randomizer.Randomizer
}

func newObject() *object {
	w := worker.NewWorker()
	return &object{newGen(), w.Split, randomizer.NewRandomizer()}
}

// request is one call on an object.
type request struct {
	name    string
	n, t, N int    // of a split
	alg     string // "" for requests that are no splits
	perm    *permFn
	f       func(o *object, secret []byte) ([][]byte, error)
}

func (q request) do(o *object) ([][]byte, string) {
	var secret []byte
	if q.alg != "" {
		secret = secretOf(q.N, q.n*3+q.t)
	}
	out, err := q.f(o, secret)
	if err != nil {
		return nil, q.name + ": " + err.Error()
	}
	return out, ""
}

func splitReq(kind string, n, t, N int) request {
	q := request{name: fmt.Sprintf("%s(%d bytes, %d, %d)", kind, N, n, t), n: n, t: t, N: N, alg: "shamir"}
	switch kind {
	case "SplitWithRandomizer", "SplitWithRandomizerOld", "krawczyk.SplitWithRandomizer":
		v := byName(kind)
		q.f = func(o *object, s []byte) ([][]byte, error) { return v.f(s, n, t, o.g) }
		if kind[0] == 'k' {
			q.alg = "krawczyk"
		}
	case "worker shamir", "worker krawczyk":
		q.alg = kind[7:]
		q.f = func(o *object, s []byte) ([][]byte, error) { return o.w(q.alg, s, n, t) }
	}
	return q
}

func permReq(kind string, n int) request {
	q := request{name: fmt.Sprintf("%s(%d)", kind, n), n: n}
	one := func(b []byte) ([][]byte, error) { return [][]byte{b}, nil }
	switch kind {
	case "Perm":
		q.perm = &permFn{name: "csprng.Perm"}
		q.f = func(o *object, _ []byte) ([][]byte, error) { return one(o.g.Perm(byte(n))) }
	case "GetUniqueBytes":
		q.perm = &permFn{name: "csprng.GetUniqueBytes", uniq: true}
		q.f = func(o *object, _ []byte) ([][]byte, error) { return one(o.g.GetUniqueBytes(byte(n))) }
	case "randomizer.Perm":
		q.perm = &permFn{name: "randomizer.Perm"}
		q.f = func(o *object, _ []byte) ([][]byte, error) { return one(o.r.Perm(byte(n))) }
	case "Read":
		q.f = func(o *object, _ []byte) ([][]byte, error) {
			b := make([]byte, n)
			k, err := o.g.Read(b)
			if err == nil && k != n {
				err = fmt.Errorf("%d bytes", k)
			}
			return [][]byte{b}, err
		}
	}
	return q
}

// judged runs the history on a new object and judges every split of the kind.
func judged(c *Ctx, hist []request, alg string, j judge) string {
	o := newObject()
	for i, q := range hist {
		out, m := q.do(o)
		if m == "" && q.alg == alg {
			m = j(secretOf(q.N, q.n*3+q.t), out, q.n, q.t)
		}
		if m == "" && q.perm != nil && alg == "perm" {
			m = checkPerm(*q.perm, q.n, out[0])
		}
		if m != "" {
			names := ""
			for k := 0; k <= i; k++ {
				if k > i-6 || k < 2 {
					names += hist[k].name + "; "
				}
			}
			return fmt.Sprintf("request %d of %s%s", i, names, m)
		}
		c.Eval(1)
	}
	return ""
}

func splitHistories(c *Ctx, alg string, j judge) {
	kinds := []string{"SplitWithRandomizer", "SplitWithRandomizerOld", "worker shamir"}
	if alg == "krawczyk" {
		kinds = []string{"krawczyk.SplitWithRandomizer", "worker krawczyk"}
	}
	times := 9
	if c.thorough {
		times = 24
	}
	// the same shape over and over
	for _, kind := range kinds {
		for n := 2; n <= 255; n++ {
			ts := []int{2, n}
			if n > 40 {
				ts = []int{2, 3}
			}
			for _, t := range ts {
				if t > n {
					continue
				}
				kind, n, t := kind, n, t
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d, %d times from one object", kind, n, t, times) }, func() string {
					var h []request
					for i := 0; i < times; i++ {
						h = append(h, splitReq(kind, n, t, 1+i%5))
					}
					c.Distinct(hash("same", kind, n, t))
					return judged(c, h, alg, j)
				})
			}
		}
	}
	// every triple over requests of many sizes
	var ops []request
	for _, kind := range kinds {
		for _, s := range [][3]int{{2, 2, 1}, {5, 3, 40}, {19, 2, 3}, {20, 3, 2}, {100, 2, 5}, {255, 2, 2}} {
			ops = append(ops, splitReq(kind, s[0], s[1], s[2]))
		}
	}
	other := "krawczyk.SplitWithRandomizer"
	if alg == "krawczyk" {
		other = "SplitWithRandomizer"
	}
	ops = append(ops, splitReq(other, 4, 2, 17), splitReq(other, 30, 3, 9), permReq("Perm", 10), permReq("Perm", 255), permReq("GetUniqueBytes", 7),
		permReq("GetUniqueBytes", 200), permReq("Read", 1), permReq("Read", 4096))
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%s; %s; then every other request, from one object", a.name, b.name) }, func() string {
				for k, x := range ops {
					if x.alg != alg {
						continue
					}
					tape.Reset(c.seed + uint64(k))
					h := []request{a, b, x}
					if c.thorough {
						h = append(h, a, x, b)
					}
					if m := judged(c, h, alg, j); m != "" {
						return m
					}
				}
				c.Distinct(hash("triple", a.name, b.name))
				return ""
			})
		}
	}
	// long mixed runs
	runs, length := 8, 400
	if c.thorough {
		runs, length = 24, 3000
	}
	for r := 0; r < runs; r++ {
		r := r
		c.Case(func() string { return fmt.Sprintf("run %d of %d requests of all sizes from one object", r, length) }, func() string {
			var h []request
			for i := 0; i < length; i++ {
				n := 2 + (i*37+r*61)%254
				t := 2 + (i*5+r)%3
				if t > n {
					t = n
				}
				h = append(h, splitReq(kinds[(i+r)%len(kinds)], n, t, 1+(i*i+r)%70))
				if i%3 == r%3 {
					h = append(h, permReq([]string{"Perm", "GetUniqueBytes", "Read"}[i%9/3], (i*17+r)%256))
				}
			}
			c.Distinct(hash("run", r))
			return judged(c, h, alg, j)
		})
	}
}

func permHistories(c *Ctx) {
	sizes := []int{0, 1, 2, 5, 18, 19, 20, 21, 60, 100, 127, 128, 129, 200, 254, 255}
	var ops []request
	for _, n := range sizes {
		ops = append(ops, permReq("Perm", n), permReq("GetUniqueBytes", n))
	}
	for _, n := range []int{3, 100, 255} {
		ops = append(ops, permReq("randomizer.Perm", n))
	}
	ops = append(ops, permReq("Read", 3), permReq("Read", 300), splitReq("SplitWithRandomizer", 30, 2, 5))
	reps := 1
	if c.thorough {
		reps = 6
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%s; %s; then every other request", a.name, b.name) }, func() string {
				for rep := 0; rep < reps; rep++ {
					for k, x := range ops {
						tape.Reset(c.seed + uint64(k+rep*1000))
						if m := judged(c, []request{a, b, x, a, b}, "perm", nil); m != "" {
							return m
						}
					}
				}
				c.Distinct(hash(a.name, b.name))
				return ""
			})
		}
	}
	for _, kind := range []string{"Perm", "GetUniqueBytes", "randomizer.Perm"} {
		for n := 0; n <= 255; n++ {
			kind, n := kind, n
			c.Case(func() string { return fmt.Sprintf("%s(%d) 60 times", kind, n) }, func() string {
				var h []request
				for i := 0; i < 60; i++ {
					h = append(h, permReq(kind, n))
				}
				c.Distinct(hash("60", kind, n))
				return judged(c, h, "perm", nil)
			})
		}
	}
}

// c18Object: over every sequence of requests to one object, results stay what
// they were while the object serves later requests, and what the caller does
// with its results has no effect on later ones.
func c18Object(c *Ctx) {
	ops := []request{
		permReq("Perm", 5), permReq("Perm", 40), permReq("Perm", 255), permReq("GetUniqueBytes", 4), permReq("GetUniqueBytes", 19), permReq("GetUniqueBytes", 20),
		permReq("GetUniqueBytes", 120), permReq("randomizer.Perm", 5), permReq("randomizer.Perm", 200), permReq("Read", 40),
		splitReq("SplitWithRandomizer", 3, 2, 5), splitReq("SplitWithRandomizer", 30, 3, 70), splitReq("SplitWithRandomizerOld", 3, 2, 33), splitReq("SplitWithRandomizerOld", 25, 2, 5),
		splitReq("krawczyk.SplitWithRandomizer", 4, 2, 40), splitReq("krawczyk.SplitWithRandomizer", 21, 3, 9),
		splitReq("worker shamir", 5, 3, 17), splitReq("worker shamir", 20, 2, 100), splitReq("worker krawczyk", 3, 3, 50), splitReq("worker krawczyk", 22, 2, 6),
	}
	run := func(h []request, salt uint64, scribble bool) (last [][]byte, msg string) {
		tape.Reset(c.seed + salt)
		o := newObject()
		var outs, snaps [][][]byte
		for _, q := range h {
			out, m := q.do(o)
			if m != "" {
				return nil, m
			}
			last = cloneAll(out)
			if !scribble {
				for k := range outs {
					if m := sameRows(outs[k], snaps[k]); m != "" {
						return nil, fmt.Sprintf("%s changes the result of the earlier %s: %s", q.name, h[k].name, m)
					}
				}
				outs, snaps = append(outs, out), append(snaps, last)
				continue
			}
			for _, b := range out {
				b = b[:cap(b)]
				for x := range b {
					b[x] = 0xff
				}
			}
			for k := range outs {
				for _, b := range outs[k] {
					if !bytes.Equal(b, bytes.Repeat([]byte{0xff}, len(b))) {
						return nil, fmt.Sprintf("%s writes into the result of the earlier %s", q.name, h[k].name)
					}
				}
			}
			outs = append(outs, out)
		}
		return last, ""
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			c.Case(func() string {
				return fmt.Sprintf("%s; %s; then every other request to the same object", a.name, b.name)
			}, func() string {
				for k, x := range ops {
					h := []request{a, b, x}
					if c.thorough {
						h = []request{a, b, x, b, a, x}
					}
					want, m := run(h, uint64(k), false)
					if m != "" {
						return m
					}
					got, m := run(h, uint64(k), true)
					if m != "" {
						return m
					}
					if m := sameRows(got, want); m != "" {
						return fmt.Sprintf("the caller overwriting its results of %s and %s changes the later %s: %s", a.name, b.name, x.name, m)
					}
					c.Eval(1)
				}
				c.Distinct(hash(a.name, b.name))
				return ""
			})
		}
	}
}
