package main

import (
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C03", "exact", c03Exact)
	reg("C03", "rank", c03Rank)
	reg("C03", "long", c03Long)
	reg("C04", "exact", c04Exact)
	reg("C04", "histories", c04Histories)
	reg("C03", "sources", c03Sources)
	reg("C04", "long", c04Long)
	reg("C04", "repeat", c04Repeat)
	reg("C04", "sources", c04Sources)
	reg("C05", "sources", c05Sources)
	reg("C05", "caller", c05Caller)
	reg("C07", "forged", c07Forged)
	reg("C05", "rank", c05Rank)
	reg("C05", "constructors", c05Constructors)
	reg("C07", "threshold", c07Threshold)
	reg("C07", "keys", c07Keys)
}

func splitScenario(v variant, secret []byte, n, t int, streams string) *scenario {
	return &scenario{streams: streams, sel: chooseK(n, t-1), run: func(tr *trace) string {
		sh, err := v.f(secret, n, t, newGen())
		if err != nil {
			return err.Error()
		}
		if len(sh) != n {
			return fmt.Sprintf("%d shares instead of %d", len(sh), n)
		}
		for i, s := range sh {
			if len(s) != len(secret)+1 {
				return fmt.Sprintf("share %d has %d bytes", i, len(s))
			}
		}
		shareRows(tr, sh)
		return ""
	}}
}

func streamsFor(v variant) string {
	if v.gen {
		return "k"
	}
	return "cm"
}

func (c *Ctx) needKeystream() bool {
	if !c.reset {
		return true
	}
	if keystreamControlled() {
		return true
	}
	c.Partial("the generator's keystream is not drawn through a cipher interface the harness replaces: generator-driven cases skipped")
	return false
}

// c03Exact: all secrets x all random draws for one byte, and all draws of two
// coefficient bytes.
func c03Exact(c *Ctx) {
	ks := c.needKeystream()
	for _, v := range shamirVariants {
		if v.gen && !ks {
			continue
		}
		st := "c"
		if v.gen {
			st = "k"
		}
		for _, n := range []int{2, 3} {
			for s := 0; s < 256; s++ {
				v, n, s := v, n, s
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=2 secret %02x: all coefficients", v.name, n, s) }, func() string {
					p := &prober{c: c, s: splitScenario(v, []byte{byte(s)}, n, 2, st), seed: c.seed + uint64(s%3)}
					m, ok := p.exhaustive("one byte")
					if !ok {
						c.Partial("%s: more than two random bytes behind one coefficient", v.name)
					}
					c.Eval(p.runs)
					c.Distinct(hash(v.name, n, s))
					return m
				})
			}
		}
		for _, cfg := range []struct {
			n, t   int
			secret []byte
		}{{3, 3, []byte{0}}, {3, 3, []byte{0xa5}}, {4, 3, []byte{1}}, {4, 3, []byte{0xff}}, {2, 2, []byte{0, 0}}, {3, 2, []byte{0x80, 1}}, {4, 2, []byte{7, 7}}} {
			v, cfg := v, cfg
			c.Case(func() string {
				return fmt.Sprintf("%s n=%d t=%d secret %x: all coefficients", v.name, cfg.n, cfg.t, cfg.secret)
			}, func() string {
				p := &prober{c: c, s: splitScenario(v, cfg.secret, cfg.n, cfg.t, st), seed: c.seed}
				m, ok := p.exhaustive("two bytes")
				if !ok {
					c.Partial("%s: more than two random bytes behind two coefficients", v.name)
				}
				c.Eval(p.runs)
				c.Distinct(hash(v.name, cfg.n, cfg.t, cfg.secret))
				return m
			})
		}
	}
}

func c03Rank(c *Ctx) {
	ks := c.needKeystream()
	cfgs := [][3]int{{2, 2, 2}, {3, 2, 3}, {3, 3, 5}, {4, 3, 3}, {5, 5, 4}, {5, 3, 16}, {6, 4, 9}, {7, 6, 7}, {3, 2, 33}, {4, 2, 64}, {5, 4, 40},
		{19, 2, 3}, {20, 3, 4}, {21, 2, 17}, {64, 3, 2}, {255, 2, 2}, {255, 3, 1}, {12, 12, 2}, {40, 20, 1}, {3, 2, 130}, {3, 2, 257}}
	if c.thorough {
		cfgs = append(cfgs, [3]int{3, 2, 1025}, [3]int{3, 3, 520}, [3]int{255, 128, 1}, [3]int{255, 255, 1}, [3]int{100, 50, 3}, [3]int{5, 4, 300}, [3]int{8, 5, 129})
	}
	for _, v := range shamirVariants {
		if v.gen && !ks {
			continue
		}
		for _, g := range cfgs {
			for sec := 0; sec < 2; sec++ {
				v, n, t, N, sec := v, g[0], g[1], g[2], sec
				if N*(t-1) > 200 && sec > 0 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d secret %d", v.name, n, t, N, sec) }, func() string {
					secret := make([]byte, N)
					if sec == 1 {
						secret = secretOf(N, n)
					}
					st := "c"
					if v.gen {
						st = "k"
					}
					p := &prober{c: c, s: splitScenario(v, secret, n, t, st), seed: c.seed + uint64(sec)}
					m := p.uniform("share bodies")
					if m != "" && !v.gen {
						// coefficients may come from the seedable source (that is
						// another property's business)
						p = &prober{c: c, s: splitScenario(v, secret, n, t, "cm"), seed: c.seed + uint64(sec)}
						m = p.uniform("share bodies")
					}
					c.Eval(p.runs)
					c.Distinct(hash(v.name, n, t, N, sec))
					return m
				})
			}
		}
	}
}

// columnsDistinct: over several random streams, no two coefficients are the
// same random byte, and none is constant or a copy of a tag.
func columnsDistinct(rowsOf func(seed uint64) (coefs [][]byte, tags []byte, msg string), seeds int) string {
	var fp []uint64
	var n int
	tagFP := make([]uint64, 0)
	for s := 0; s < seeds; s++ {
		rows, tags, m := rowsOf(uint64(s))
		if m != "" {
			return m
		}
		k := 0
		for _, r := range rows {
			k += len(r)
		}
		if fp == nil {
			n = k
			fp = make([]uint64, n)
			tagFP = make([]uint64, len(tags))
		}
		if k != n {
			return fmt.Sprintf("%d coefficients with one stream, %d with another", n, k)
		}
		i := 0
		for _, r := range rows {
			for _, b := range r {
				fp[i] = fp[i]<<8 | uint64(b)
				i++
			}
		}
		for j, b := range tags {
			if j < len(tagFP) {
				tagFP[j] = tagFP[j]<<8 | uint64(b)
			}
		}
	}
	seen := make(map[uint64]int, n)
	for j, f := range tagFP {
		seen[f] = -1 - j
		var g uint64 // tag-1: the raw permutation value
		for s := uint(0); s < uint(seeds); s++ {
			g |= uint64(byte(f>>(8*s))-1) << (8 * s)
		}
		seen[g] = -1 - j
	}
	for i, f := range fp {
		if j, dup := seen[f]; dup {
			if j < 0 {
				return fmt.Sprintf("coefficient byte %d equals the tag (or tag-1) of share %d for every random stream tried", i, -1-j)
			}
			return fmt.Sprintf("coefficient bytes %d and %d are equal for every random stream tried", j, i)
		}
		seen[f] = i
		first := byte(f)
		same := true
		for s := uint(1); s < uint(seeds); s++ {
			if byte(f>>(8*s)) != first {
				same = false
			}
		}
		if same {
			return fmt.Sprintf("coefficient byte %d is %#02x for every random stream tried", i, first)
		}
	}
	return ""
}

func c03Long(c *Ctx) {
	lens := []int{100, 511, 513, 1023, 1024, 1025, 2049, 4095, 4097, 8193, 16385, 32769, 65535, 65537, 131073}
	if c.thorough {
		lens = append(lens, 200003, 262145, 524289, 1<<20+1)
	}
	for _, v := range shamirVariants {
		for _, N := range lens {
			for _, g := range [][2]int{{2, 2}, {4, 3}, {5, 5}} {
				if N > 40000 && g[1] == 5 {
					continue
				}
				v, N, n, t := v, N, g[0], g[1]
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d: coefficients over 8 streams", v.name, n, t, N) }, func() string {
					c.Eval(8)
					c.Distinct(hash(v.name, n, t, N))
					return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
						tape.Reset(c.seed*100 + s)
						sh, err := v.f(secretOf(N, 1), n, t, newGen())
						if err != nil {
							return nil, nil, err.Error()
						}
						if len(sh) != n {
							return nil, nil, "wrong number of shares"
						}
						return ref.Coefs(sh, t)[1:], ref.Tags(sh), ""
					}, 8)
				})
			}
		}
	}
}

// ---- C04: operations on one generator ----

type genOp struct {
	name string
	// run performs the operation and records what it delivered; rows are
	// recorded so that the last `uniform` of them must be uniform
	run func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string)
}

func genOps() []genOp {
	read := func(n int) genOp {
		return genOp{fmt.Sprintf("Read(%d)", n), func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			b := make([]byte, n)
			k, err := g.Read(b)
			if err != nil || k != n {
				return nil, fmt.Sprintf("Read gives %d, %v", k, err)
			}
			tr.row(b)
			return []int{len(tr.rows) - 1}, ""
		}}
	}
	split := func(v variant, N, n, t int, viaWorker bool) genOp {
		name := fmt.Sprintf("%s(len %d, %d, %d)", v.name, N, n, t)
		return genOp{name, func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := v.f(secretOf(N, 3), n, t, g)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			shareRows(tr, sh)
			var s []int
			for i := 0; i < t-1; i++ {
				s = append(s, base+i)
			}
			return s, ""
		}}
	}
	return []genOp{
		read(1), read(5), read(16), read(33),
		{"Perm(5)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			tr.tag(g.Perm(5)...)
			return nil, ""
		}},
		{"GetUniqueBytes(4)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			tr.tag(g.GetUniqueBytes(4)...)
			return nil, ""
		}},
		split(shamirVariants[3], 3, 3, 2, false),
		split(shamirVariants[3], 2, 4, 3, false),
		split(shamirVariants[4], 3, 3, 2, false),
		{"krawczyk.SplitWithRandomizer(len 9, 3, 2)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := krawczyk.SplitWithRandomizer(secretOf(9, 4), 3, 2, g)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			ssmsRows(tr, sh, 2)
			return []int{base, base + 1}, ""
		}},
	}
}

func workerOps() []genOp {
	return []genOp{
		{"worker shamir(len 3, 3, 2)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := w.Split("shamir", secretOf(3, 3), 3, 2)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			shareRows(tr, sh)
			return []int{base}, ""
		}},
		{"worker krawczyk(len 9, 3, 2)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := w.Split("krawczyk", secretOf(9, 4), 3, 2)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			ssmsRows(tr, sh, 2)
			return []int{base, base + 1}, ""
		}},
		{"worker shamir(len 2, 25, 3)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := w.Split("shamir", secretOf(2, 3), 25, 3)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			shareRows(tr, sh)
			return []int{base, base + 1}, ""
		}},
	}
}

// historyScenario runs the operations on one generator and one worker.
func historyScenario(ops []genOp) *scenario {
	sc := &scenario{streams: "k", sel: [][]int{nil}}
	sc.run = func(tr *trace) string {
		g := newGen()
		w := worker.NewWorker()
		var sel []int
		for i, o := range ops {
			if i > 0 {
				tr.next()
			}
			s, m := o.run(g, &w, tr)
			if m != "" {
				return o.name + ": " + m
			}
			sel = append(sel, s...)
		}
		sc.sel[0] = sel
		return ""
	}
	return sc
}

// shared finds a random byte that decides outputs of two operations.
func (p *prober) shared(names []string) string {
	b, m := p.exec(nil)
	if m != "" {
		return m
	}
	n := int(tape.AES.MaxOff)
	for off := 0; off < n; off++ {
		q := pos{'k', off}
		v := p.byteAt(q)
		hits := make([]int, len(names))
		for k := uint(0); k < 8; k++ {
			t, m := p.exec(map[pos]byte{q: v ^ 1<<k})
			if m != "" {
				return m
			}
			for i := range names {
				ch := !bytesEq(t.tags[i], b.tags[i])
				for r := range b.rows {
					if b.op[r] == i && !bytesEq(t.rows[r], b.rows[r]) {
						ch = true
					}
				}
				if ch {
					hits[i]++
				}
			}
		}
		first := -1
		for i, h := range hits {
			if h >= 7 {
				if first >= 0 {
					return fmt.Sprintf("keystream byte %d decides the output of operation %d (%s) and of operation %d (%s)", off, first, names[first], i, names[i])
				}
				first = i
			}
		}
	}
	return ""
}

func bytesEq(a, b []byte) bool { return string(a) == string(b) }

func c04Histories(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	run := func(ops []genOp) {
		c.Case(func() string { return "history " + opNames(ops) }, func() string {
			sc := historyScenario(ops)
			p := &prober{c: c, s: sc, seed: c.seed}
			if _, m := p.exec(nil); m != "" {
				return m
			}
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			c.Distinct(hash(opNames(ops)))
			if len(sc.sel[0]) > 0 {
				if m := p.uniform("joint output"); m != "" {
					return m
				}
			}
			m := p.shared(names)
			c.Eval(p.runs)
			return m
		})
	}
	ops := genOps()
	for _, a := range ops {
		for _, b := range ops {
			run([]genOp{a, b})
		}
	}
	wo := workerOps()
	for _, a := range wo {
		for _, b := range wo {
			run([]genOp{a, b})
		}
	}
	for i, a := range ops {
		for j, b := range ops {
			for k, d := range ops {
				if c.thorough || (i+2*j+3*k)%7 == 0 {
					run([]genOp{a, b, d})
				}
			}
		}
	}
	for _, a := range wo {
		for _, b := range wo {
			for _, d := range wo {
				run([]genOp{a, b, d})
			}
		}
	}
}

func opNames(ops []genOp) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += "; "
		}
		s += o.name
	}
	return s
}

// c04Exact: two operations drawing one coefficient byte each, all 65536 draws.
func c04Exact(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	one := func(v variant) genOp {
		return genOp{v.name + "(1 byte)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
			sh, err := v.f([]byte{0x3c}, 2, 2, g)
			if err != nil {
				return nil, err.Error()
			}
			base := len(tr.rows)
			shareRows(tr, sh)
			return []int{base}, ""
		}}
	}
	list := []genOp{one(shamirVariants[3]), one(shamirVariants[4]), genOps()[0]}
	for _, a := range list {
		for _, b := range list {
			a, b := a, b
			c.Case(func() string { return "all draws of " + a.name + "; " + b.name }, func() string {
				sc := historyScenario([]genOp{a, b})
				p := &prober{c: c, s: sc, seed: c.seed}
				if _, m := p.exec(nil); m != "" {
					return m
				}
				m, ok := p.exhaustive("two operations")
				if !ok {
					c.Partial("more than two random bytes behind two output bytes")
				}
				c.Eval(p.runs)
				c.Distinct(hash(a.name, b.name))
				return m
			})
		}
	}
	w1 := genOp{"worker shamir(1 byte)", func(g *csprng.CSPRNG, w *worker.Worker, tr *trace) ([]int, string) {
		sh, err := w.Split("shamir", []byte{0x3c}, 2, 2)
		if err != nil {
			return nil, err.Error()
		}
		base := len(tr.rows)
		shareRows(tr, sh)
		return []int{base}, ""
	}}
	c.Case(func() string { return "all draws of two worker splits of one byte" }, func() string {
		sc := historyScenario([]genOp{w1, w1})
		p := &prober{c: c, s: sc, seed: c.seed}
		if _, m := p.exec(nil); m != "" {
			return m
		}
		m, ok := p.exhaustive("two worker splits")
		if !ok {
			c.Partial("more than two random bytes behind two output bytes")
		}
		c.Eval(p.runs)
		return m
	})
}

// c04Long: long histories of big operations; no two coefficients, keys or
// delivered bytes of any of them are the same random byte.
func c04Long(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	sizes := []int{17, 255, 256, 1000, 4096, 5000, 65536, 70001}
	for _, hist := range [][]int{{0, 0, 0, 0}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 1, 3}, {2, 2, 2}, {3, 3, 0, 0, 3}, {0, 3, 2, 0, 1, 2}} {
		for _, N := range sizes {
			hist, N := hist, N
			for _, viaWorker := range []bool{false, true} {
				viaWorker := viaWorker
				c.Case(func() string { return fmt.Sprintf("history %v of size %d, worker=%v", hist, N, viaWorker) }, func() string {
					c.Eval(8)
					c.Distinct(hash(fmt.Sprint(hist), N, fmt.Sprint(viaWorker)))
					return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
						tape.Reset(c.seed*100 + 50 + s)
						g := newGen()
						w := worker.NewWorker()
						return runHistory(hist, N, viaWorker, g, &w)
					}, 8)
				})
			}
		}
	}
}

// runHistory performs operations 0 SplitWithRandomizer, 1 the old one, 2 SSMS,
// 3 Read, 4 GetUniqueBytes, 5 Perm and returns all random values delivered.
func runHistory(hist []int, N int, viaWorker bool, g *csprng.CSPRNG, w *worker.Worker) (rows [][]byte, tags []byte, msg string) {
	for i, h := range hist {
		var sh [][]byte
		var err error
		t := 2
		switch {
		case h == 0 && viaWorker:
			sh, err = w.Split("shamir", secretOf(N, i), 3, 2)
		case h == 0:
			sh, err = shamirVariants[3].f(secretOf(N, i), 3, 2, g)
		case h == 1 && viaWorker:
			t = 3
			sh, err = w.Split("shamir", secretOf(N, i), 4, 3)
		case h == 1:
			sh, err = shamirVariants[4].f(secretOf(N, i), 3, 2, g)
		case h == 2 && viaWorker:
			sh, err = w.Split("krawczyk", secretOf(N, i), 3, 2)
		case h == 2:
			sh, err = krawczyk.SplitWithRandomizer(secretOf(N, i), 3, 2, g)
		case h == 3 && !viaWorker:
			b := make([]byte, N)
			g.Read(b)
			rows = append(rows, b)
		case h == 4 && !viaWorker:
			g.GetUniqueBytes(7)
		case h == 5 && !viaWorker:
			g.Perm(30)
		}
		if err != nil {
			return nil, nil, err.Error()
		}
		if sh == nil {
			continue
		}
		if h == 2 {
			key, _ := ref.SSMSMeta(sh[:2])
			m := make([][]byte, len(sh))
			for k := range sh {
				m[k] = sh[k][:21]
			}
			rows = append(append(rows, key), ref.Coefs(m, 2)[1:]...)
			tags = append(tags, ref.Tags(m)...)
			continue
		}
		rows = append(rows, ref.Coefs(sh, t)[1:]...)
		tags = append(tags, ref.Tags(sh)...)
	}
	return rows, tags, ""
}

// c04Repeat: every operation over and over, and every two operations taking
// turns in several rhythms, on one generator (one worker).
func c04Repeat(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	R := 130
	if c.thorough {
		R = 1100
	}
	type rhythm struct {
		name string
		f    func(a, b, i int) int
	}
	rhythms := []rhythm{
		{"in turn", func(a, b, i int) int { return []int{a, b}[i%2] }},
		{"one, then many", func(a, b, i int) int {
			if i == 0 {
				return a
			}
			return b
		}},
		{"many, then one, and again", func(a, b, i int) int {
			if i%17 == 16 {
				return b
			}
			return a
		}},
		{"halves", func(a, b, i int) int {
			if i < R/2 {
				return a
			}
			return b
		}},
	}
	for a := 0; a < 6; a++ {
		for b := 0; b < 6; b++ {
			for ri, rh := range rhythms {
				if a == b && ri > 0 {
					continue
				}
				for _, viaWorker := range []bool{false, true} {
					if viaWorker && (a > 2 || b > 2) {
						continue
					}
					for _, N := range []int{21, 34} {
						if N != 21 && !c.thorough && (a != b) {
							continue
						}
						a, b, rh, viaWorker, N := a, b, rh, viaWorker, N
						c.Case(func() string {
							return fmt.Sprintf("%d operations %d and %d %s, size %d, worker=%v", R, a, b, rh.name, N, viaWorker)
						}, func() string {
							hist := make([]int, R)
							for i := range hist {
								hist[i] = rh.f(a, b, i)
							}
							c.Eval(8)
							c.Distinct(hash("repeat", a, b, rh.name, N, fmt.Sprint(viaWorker)))
							return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
								tape.Reset(c.seed*100 + 20 + s)
								w := worker.NewWorker()
								rows, _, m := runHistory(hist, N, viaWorker, newGen(), &w)
								return rows, nil, m
							}, 8)
						})
					}
				}
			}
		}
	}
}

// c04Sources: the keystream byte behind every value of longer histories.
func c04Sources(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	hists := [][]int{{0, 0}, {2, 2, 2}, {0, 2, 0}, {0, 3, 2, 0}, {3, 4, 3, 0}, {2, 3, 3, 2}, {3, 3, 3, 3, 3, 3, 3, 3}, {0, 0, 0, 0, 0, 0, 0, 0}, {2, 2, 2, 2, 2, 2, 2, 2}, {5, 3, 0}}
	sizes := []int{1, 16, 40, 300, 1500}
	if c.thorough {
		hists = append(hists, []int{1, 1}, []int{1, 0, 2}, []int{0, 1, 2, 3, 4, 5})
		sizes = append(sizes, 17, 128, 700, 4097, 20000)
	}
	for _, hist := range hists {
		for _, N := range sizes {
			hist, N := hist, N
			c.Case(func() string { return fmt.Sprintf("sources of history %v of size %d", hist, N) }, func() string {
				t := &tracer{c: c, seed: c.seed, run: func() drawing {
					rows, tags, m := runHistory(hist, N, false, newGen(), nil)
					return drawing{join(rows), tags, m}
				}}
				m := t.distinctSources('k', "the generator's keystream", "history")
				c.Eval(t.runs)
				c.Distinct(hash("sources", fmt.Sprint(hist), N))
				return m
			})
		}
	}
}

// secretValues are the key and the polynomial coefficients of a sharing.
func secretValues(v variant, sh [][]byte, n, t int) drawing {
	if len(sh) != n {
		return drawing{msg: fmt.Sprintf("%d shares instead of %d", len(sh), n)}
	}
	if v.name[:2] == "kr" {
		m := make([][]byte, len(sh))
		for k := range sh {
			m[k] = sh[k][:21]
		}
		key, _ := ref.SSMSMeta(sh[:t])
		return drawing{vals: append(clone(key), join(ref.Coefs(m, t)[1:])...), tags: ref.Tags(m)}
	}
	return drawing{vals: join(ref.Coefs(sh, t)[1:]), tags: ref.Tags(sh)}
}

func (c *Ctx) traceSplit(v variant, N, n, t int) *tracer {
	secret := secretOf(N, 5)
	return &tracer{c: c, seed: c.seed, run: func() drawing {
		sh, err := v.f(secret, n, t, newGen())
		if err != nil {
			return drawing{msg: err.Error()}
		}
		return secretValues(v, sh, n, t)
	}}
}

// skipSource: the internally parallel split is traced under the deterministic
// scheduler, everything else without it.
func (c *Ctx) skipSource(v variant, N int) bool {
	if v.name == "SplitWithRandomizerOld" && N > 40000 && !c.thorough {
		return true // deciding tags takes many runs there
	}
	if v.name == "SplitP" && N > 1000 {
		return c.variant != "sched" || N > 70000
	}
	return c.variant == "sched"
}

func sourceSizes(thorough bool) [][3]int {
	cfgs := [][3]int{{2, 2, 200}, {3, 2, 1023}, {3, 3, 1025}, {3, 2, 2050}, {3, 3, 4099}, {3, 2, 9000}, {4, 2, 33000}, {3, 3, 33000}, {2, 2, 70000},
		{3, 2, 140000}, {12, 9, 60}, {30, 17, 40}, {40, 30, 33}, {64, 50, 20}, {130, 128, 9}, {255, 254, 5}}
	if thorough {
		cfgs = append(cfgs, [3]int{2, 2, 1<<20 + 3}, [3]int{4, 3, 1<<19 + 3}, [3]int{255, 255, 300}, [3]int{40, 40, 5000}, [3]int{3, 3, 300000})
	}
	return cfgs
}

// c03Sources: the random byte behind every coefficient of bigger sharings.
func c03Sources(c *Ctx) {
	ks := c.needKeystream()
	for _, v := range shamirVariants {
		if v.gen && !ks {
			continue
		}
		for _, g := range sourceSizes(c.thorough) {
			v, n, t, N := v, g[0], g[1], g[2]
			if c.skipSource(v, N) || v.gen && n > 100 && !c.thorough {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("sources of %s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				tr := c.traceSplit(v, N, n, t)
				c.Distinct(hash("sources", v.name, n, t, N))
				var m string
				if v.gen {
					m = tr.distinctSources('k', "the generator's keystream", "coefficients")
				} else if m = tr.distinctSources('c', "the operating system's randomness", "coefficients"); m != "" {
					// coefficients from the seedable source are another
					// property's business
					if m2 := tr.distinctSources('m', "randomness", "coefficients"); m2 == "" {
						m = ""
					}
				}
				c.Eval(tr.runs)
				return m
			})
		}
	}
}

// c05Sources: the OS-random byte behind every key byte and coefficient of
// bigger sharings made without a caller's generator.
func c05Sources(c *Ctx) {
	for _, v := range allVariants {
		if v.gen {
			continue
		}
		for _, g := range sourceSizes(c.thorough) {
			v, n, t, N := v, g[0], g[1], g[2]
			if v.name[:2] == "kr" && N > 3000 || c.skipSource(v, N) {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("sources of %s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				tr := c.traceSplit(v, N, n, t)
				m := tr.distinctSources('c', "the operating system's randomness", "keys and coefficients")
				c.Eval(tr.runs)
				c.Distinct(hash("sources", v.name, n, t, N))
				return m
			})
		}
	}
}

// c05Caller: with a generator passed in, every key byte and coefficient comes
// from that generator, whatever other generators were used before.
func c05Caller(c *Ctx) {
	if !c.needKeystream() {
		return
	}
	other := []byte("another key 0123another iv 98765")
	for _, v := range allVariants {
		if !v.gen {
			continue
		}
		for _, before := range []int{0, 1, 2, 3, 5, 9, 40} {
			for _, g := range [][3]int{{3, 2, 5}, {4, 3, 40}, {25, 4, 9}} {
				v, before, n, t, N := v, before, g[0], g[1], g[2]
				c.Case(func() string {
					return fmt.Sprintf("%s n=%d t=%d len=%d after %d splits with another generator", v.name, n, t, N, before)
				}, func() string {
					// the changes are in force before the generators are first read,
					// as they may read ahead; their keystreams keep their numbers
					var id1, id2 uint64
					run := func(which int, mask byte) drawing {
						beat()
						c.fresh(c.seed)
						g1, g2 := csprng.NewCSPRNGWithKeyIV(clone(other)), newGen()
						switch which {
						case 0:
							tape.Crypto.Flip = func(int) byte { return mask }
						case 1, 2:
							id := id1
							if which == 2 {
								id = id2
							}
							tape.AES.Flip = func(x, _ uint64) byte {
								if x == id {
									return mask
								}
								return 0
							}
						}
						g1.Read(make([]byte, 1))
						a := tape.AES.LastID
						g2.Read(make([]byte, 1))
						b := tape.AES.LastID
						if a == b {
							return drawing{msg: "two generators of different seeds use one keystream"}
						}
						if which < 0 {
							id1, id2 = a, b
						}
						for i := 0; i < before; i++ {
							if _, err := v.f(secretOf(N, i), n, t, g1); err != nil {
								return drawing{msg: err.Error()}
							}
						}
						sh, err := v.f(secretOf(N, 77), n, t, g2)
						if err != nil {
							return drawing{msg: err.Error()}
						}
						c.Eval(1)
						return secretValues(v, sh, n, t)
					}
					base := run(-1, 0)
					if base.msg != "" {
						return base.msg
					}
					c.Distinct(hash("caller", v.name, before, n, t, N))
					moved := make([]bool, len(base.vals))
					for _, mask := range []byte{0x80, 0x40, 0x01, 0x03, 0xff} {
						for w, name := range []string{"the operating system's source", "the other generator"} {
							d := run(w, mask)
							if d.msg != "" {
								return d.msg
							}
							for i := range d.vals {
								if d.vals[i] != base.vals[i] {
									return fmt.Sprintf("value %d (of key and coefficients) depends on %s", i, name)
								}
							}
						}
						d := run(2, mask)
						if d.msg != "" {
							return d.msg
						}
						for i := range d.vals {
							moved[i] = moved[i] || d.vals[i] != base.vals[i]
						}
					}
					for i := range moved {
						if !moved[i] {
							return fmt.Sprintf("value %d (of key and coefficients) does not depend on the caller's generator", i)
						}
					}
					return ""
				})
			}
		}
	}
}

// ---- C05 ----

func ssmsScenario(v variant, N, n, t int, streams string) *scenario {
	var sel [][]int
	for _, s := range chooseK(n, t-1) {
		x := []int{0}
		for _, i := range s {
			x = append(x, i+1)
		}
		sel = append(sel, x)
	}
	return &scenario{streams: streams, sel: sel, run: func(tr *trace) string {
		sh, err := v.f(secretOf(N, 8), n, t, newGen())
		if err != nil {
			return err.Error()
		}
		if len(sh) != n || len(sh[0]) < 22 {
			return "malformed shares"
		}
		ssmsRows(tr, sh, t)
		return ""
	}}
}

func c05Rank(c *Ctx) {
	cfgs := [][3]int{{2, 2, 1}, {3, 2, 3}, {4, 3, 5}, {5, 5, 3}, {20, 2, 3}, {255, 2, 1}, {3, 2, 40}, {6, 4, 12}}
	if c.thorough {
		cfgs = append(cfgs, [3]int{3, 2, 300}, [3]int{3, 3, 200}, [3]int{40, 20, 2})
	}
	for _, v := range allVariants {
		if v.gen {
			continue
		}
		for _, g := range cfgs {
			v, n, t, N := v, g[0], g[1], g[2]
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d, OS randomness only", v.name, n, t, N) }, func() string {
				var sc *scenario
				if v.name == "krawczyk.Split" {
					sc = ssmsScenario(v, N, n, t, "c")
				} else {
					sc = splitScenario(v, secretOf(N, n), n, t, "c")
				}
				p := &prober{c: c, s: sc, seed: c.seed}
				m := p.uniform("with the seedable sources known")
				c.Eval(p.runs)
				c.Distinct(hash(v.name, n, t, N))
				return m
			})
		}
	}
}

// c05Constructors: at least 128 bits of OS randomness decide the key of every
// new generator, one-to-one, and outputs of two constructions are unrelated.
func c05Constructors(c *Ctx) {
	type ctor struct {
		name string
		f    func() []byte // constructs and draws
	}
	draw := func(r interface{ Read([]byte) (int, error) }) []byte {
		b := make([]byte, 48)
		r.Read(b)
		return b
	}
	list := []ctor{
		{"NewCSPRNG", func() []byte { return draw(csprng.NewCSPRNG()) }},
		{"NewRandomizer", func() []byte { return draw(randomizer.NewRandomizer()) }},
		{"NewWorker", func() []byte {
			w := worker.NewWorker()
			sh, err := w.Split("shamir", make([]byte, 48), 2, 2)
			if err != nil {
				panic(err)
			}
			return append(clone(sh[0]), sh[1]...)
		}},
	}
	for _, ct := range list {
		for skip := 0; skip < 3; skip++ {
			for sd := uint64(0); sd < 4; sd++ {
				ct, skip, sd := ct, skip, sd
				c.Case(func() string { return fmt.Sprintf("%s after %d others, stream %d", ct.name, skip, sd) }, func() string {
					run := func(q int, v byte, mathSeed uint64) (string, uint64, int, int) {
						tape.Reset(c.seed + sd)
						if mathSeed != 0 {
							tape.Math.Const, tape.Math.ConstLen = new(byte), 1<<30
						}
						if q >= 0 {
							tape.Crypto.Prefix = map[int]byte{q: v}
						}
						for i := 0; i < skip; i++ {
							list[i].f()
						}
						from := tape.Crypto.Pos
						k0 := len(tape.Keys)
						out := string(ct.f())
						var key uint64
						if len(tape.Keys) > k0 {
							key = tape.Keys[k0]
						}
						c.Eval(1)
						return out, key, from, tape.Crypto.Pos
					}
					base, key, from, to := run(-1, 0, 0)
					if to-from < 16 {
						return fmt.Sprintf("only %d bytes of OS randomness are drawn", to-from)
					}
					tape.Reset(c.seed + sd)
					keyed := 0 // bits of OS randomness the key depends on
					outBits := 0
					for q := from; q < to; q++ {
						b := tape.Crypto.ByteAt(q)
						keys := map[uint64]bool{key: true}
						dep := 0
						for v := 0; v < 256; v++ {
							x := byte(v) ^ b
							if x == 0 {
								continue
							}
							if x&(x-1) != 0 && q%4 != 0 {
								continue
							}
							o, k, _, _ := run(q, byte(v), 0)
							if k != key && x&(x-1) == 0 {
								dep++
							}
							if k != key {
								if keys[k] {
									return fmt.Sprintf("OS-random byte %d: two values give the same key", q)
								}
								keys[k] = true
							}
							if o != base && x&(x-1) == 0 {
								outBits++
							}
						}
						keyed += dep
					}
					c.Max("key_bits", keyed)
					if key != 0 && keyed < 128 {
						return fmt.Sprintf("the key depends on %d bits of OS randomness", keyed)
					}
					if outBits < 128 {
						return fmt.Sprintf("the output depends on %d bits of OS randomness", outBits)
					}
					c.Distinct(hash(ct.name, skip, sd))
					return ""
				})
			}
		}
	}
}

// ---- C07 ----

func c07Threshold(c *Ctx) {
	max := 7
	if c.thorough {
		max = 10
	}
	for _, v := range ssmsVariants {
		for n := 2; n <= max; n++ {
			for t := 2; t <= n; t++ {
				for _, N := range []int{1, 2, t, 16, 16*t + 1, 100} {
					v, n, t, N := v, n, t, N
					c.Case(func() string {
						return fmt.Sprintf("%s n=%d t=%d len=%d: every set of fewer than t shares", v.name, n, t, N)
					}, func() string {
						secret := secretOf(N, n)
						sh, err := v.f(secret, n, t, newGen())
						if err != nil {
							return "split failed: " + err.Error()
						}
						for _, s := range subsets(n, 0, t-1) {
							c.Eval(2)
							c.Distinct(hash(v.name, n, t, N, fmt.Sprint(s)))
							holes := make([][]byte, n)
							for _, i := range s {
								holes[i] = sh[i]
							}
							for k, list := range [][][]byte{pick(sh, s), holes} {
								got, err := krawczyk.Combine(list, n, t)
								if err == nil {
									return fmt.Sprintf("shares %v (nil kept: %v) give %s and no error", s, k == 1, short(got))
								}
								if len(got) != 0 {
									return fmt.Sprintf("shares %v give data with the error", s)
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
	for _, g := range [][2]int{{20, 12}, {40, 39}, {100, 50}, {255, 2}, {255, 20}} {
		for _, v := range ssmsVariants {
			v, n, t := v, g[0], g[1]
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d: t-1 shares", v.name, n, t) }, func() string {
				sh, err := v.f(secretOf(333, n), n, t, newGen())
				if err != nil {
					return err.Error()
				}
				for k := 0; k < t; k++ {
					if k > 3 && k < t-3 {
						continue
					}
					for st := 0; st < n; st += n/5 + 1 {
						c.Eval(1)
						var list [][]byte
						for i := 0; i < k; i++ {
							list = append(list, sh[(st+i)%n])
						}
						if got, err := krawczyk.Combine(list, n, t); err == nil {
							return fmt.Sprintf("%d shares from %d give %s", k, st, short(got))
						}
					}
				}
				c.Distinct(hash(v.name, n, t))
				return ""
			})
		}
	}
}

// c07Forged: what fewer than t genuine shares interpolate to is uniformly
// distributed, so the length field read from them can be anything. Shares are
// built for every length it can say around the sizes that matter, and for
// extreme ones.
func c07Forged(c *Ctx) {
	max := 5
	if c.thorough {
		max = 7
	}
	for n := 3; n <= max; n++ {
		for t := 3; t <= n; t++ {
			for _, N := range []int{1, 2, t, 2*t + 1, 16, 33} {
				for _, sub := range subsets(n, 2, t-1) {
					n, t, N, sub := n, t, N, sub
					c.Case(func() string {
						return fmt.Sprintf("n=%d t=%d len=%d shares %v, every length they can claim", n, t, N, sub)
					}, func() string {
						per := (N + t - 1) / t
						var claims []uint32
						for l := 0; l <= per*(n+1)+3; l++ {
							claims = append(claims, uint32(l))
						}
						for k := uint(5); k < 32; k++ {
							claims = append(claims, 1<<k-1, 1<<k, 1<<k+1)
						}
						claims = append(claims, 1<<32-1, 1<<32-2, uint32(N)+1<<8, uint32(N)+1<<16, uint32(N)+1<<24)
						secret := secretOf(N, n)
						key := secretOf(16, t)
						tags := make([]byte, n)
						for i := range tags {
							tags[i] = byte(i*83 + 2)
						}
						xs := make([]byte, len(sub))
						prod := byte(1)
						for i, k := range sub {
							xs[i] = tags[k]
							prod = ref.Mul(prod, tags[k])
						}
						for _, l := range claims {
							s := len(sub)
							// the coefficient of degree s moves the value at zero
							// of the interpolation through s points by itself
							// times the product of the tags
							coef := func(p, j int) byte {
								if j < s {
									return byte(p*5 + j*3 + 1)
								}
								if j > s {
									return 0
								}
								if p < 16 {
									return byte(p + 9)
								}
								want := byte(l >> (8 * uint(p-16)))
								have := byte(uint32(N) >> (8 * uint(p-16)))
								return ref.Mul(want^have, ref.Inv(prod))
							}
							sh := ref.SSMSEncode(secret, key, tags, n, t, coef)
							if _, got := ref.SSMSMeta(pick(sh, sub)); uint32(got) != l {
								return fmt.Sprintf("harness: the shares claim %d instead of %d", got, l)
							}
							c.Eval(2)
							for _, list := range [][][]byte{pick(sh, sub), holes(sh, sub), pick(sh, reversed(sub))} {
								if got, err := krawczyk.Combine(cloneAll(list), n, t); err == nil {
									return fmt.Sprintf("shares %v of a %d byte secret, interpolating to length %d, give %s and no error", sub, N, l, short(got))
								}
							}
							c.Distinct(hash("forged", n, t, N, fmt.Sprint(sub), int(l)))
						}
						return ""
					})
				}
			}
		}
	}
}

func c07Keys(c *Ctx) {
	cfgs := [][3]int{{2, 2, 1}, {3, 2, 20}, {4, 3, 5}, {5, 4, 33}, {20, 2, 3}, {25, 3, 7}, {255, 2, 3}}
	for _, v := range ssmsVariants {
		if v.gen && !c.needKeystream() {
			continue
		}
		for _, g := range cfgs {
			v, n, t, N := v, g[0], g[1], g[2]
			st := "c"
			if v.gen {
				st = "k"
			}
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d: key and t-1 metadata shares", v.name, n, t, N) }, func() string {
				p := &prober{c: c, s: ssmsScenario(v, N, n, t, st), seed: c.seed}
				m := p.uniform("key and metadata shares")
				if m != "" && !v.gen {
					p.s = ssmsScenario(v, N, n, t, "cm")
					m = p.uniform("key and metadata shares")
				}
				c.Eval(p.runs)
				c.Distinct(hash(v.name, n, t, N))
				if m != "" {
					return m
				}
				// what is exposed of the secret is its ciphertext under that key
				tape.Reset(c.seed)
				secret := secretOf(N, 8)
				sh, err := v.f(secret, n, t, newGen())
				if err != nil {
					return err.Error()
				}
				return ssmsData(sh, secret, n, t)
			})
			// two successive splits: independent keys
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d twice: both keys", v.name, n, t, N) }, func() string {
				sc := &scenario{streams: st}
				for i, s := range chooseK(n, t-1) {
					if i > 2 {
						break
					}
					x := []int{0, n + 1}
					for _, i := range s {
						x = append(x, i+1, n+1+i+1)
					}
					sc.sel = append(sc.sel, x)
				}
				sc.run = func(tr *trace) string {
					gen := newGen()
					for k := 0; k < 2; k++ {
						if k > 0 {
							tr.next()
						}
						sh, err := v.f(secretOf(N, 8), n, t, gen)
						if err != nil {
							return err.Error()
						}
						ssmsRows(tr, sh, t)
					}
					return ""
				}
				p := &prober{c: c, s: sc, seed: c.seed}
				m := p.uniform("two splits")
				c.Eval(p.runs)
				c.Distinct(hash(v.name, n, t, N, 2))
				return m
			})
		}
	}
}

// ssmsData checks shard contents and part ids against the reference codec.
func ssmsData(sh [][]byte, secret []byte, n, t int) string {
	if len(sh) != n {
		return fmt.Sprintf("%d shares instead of %d", len(sh), n)
	}
	per := (len(secret) + t - 1) / t
	for i, s := range sh {
		if len(s) != 21+per+1 {
			return fmt.Sprintf("share %d has %d bytes instead of %d", i, len(s), 22+per)
		}
		if s[len(s)-1] != byte(i) {
			return fmt.Sprintf("share %d carries part id %d", i, s[len(s)-1])
		}
	}
	meta := make([][]byte, n)
	for i := range sh {
		meta[i] = sh[i][:21]
	}
	key, length := ref.SSMSMeta(sh[:t])
	if length != len(secret) {
		return fmt.Sprintf("the length field says %d, the secret has %d bytes", length, len(secret))
	}
	mt := append(clone(key), byte(length), byte(length>>8), byte(length>>16), byte(length>>24))
	if m := ref.CheckSharing(mt, meta, n, t); m != "" {
		return "metadata: " + m
	}
	want := ref.SSMSEncode(secret, key, ref.Tags(meta), n, t, func(p, j int) byte { return 0 })
	for i := range sh {
		if string(sh[i][21:]) != string(want[i][21:]) {
			return fmt.Sprintf("the shard of share %d is not the Reed-Solomon row of the ciphertext", i)
		}
	}
	return ""
}
