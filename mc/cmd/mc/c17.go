package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/aaverif/vsched"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C17", "histories", c17Histories)
	reg("C17", "lengths", c17Lengths)
	reg("C17", "parameters", c17Parameters)
	reg("C17", "tags", c17Tags)
	reg("C18", "inputs", c18Inputs)
	reg("C18", "outputs", c18Outputs)
	reg("C18", "later", c18Later)
	reg("C20", "pairs", c20Pairs)
	reg("C20", "triples", c20Triples)
	reg("C20", "many", c20Many)
	reg("C20", "orders", c20Orders)
	reg("C21", "names", c21Names)
	reg("C21", "arguments", c21Arguments)
	reg("C21", "combine", c21Combine)
	reg("C21", "sequences", c21Sequences)
}

// ---- C17 ----

// op is one operation on fixed arguments; salt selects the secrets. It
// returns its results, flattened, and a complaint about their validity.
type op struct {
	name string
	f    func(salt int) (out [][]byte, bad string)
}

func errRow(err error) []byte {
	if err == nil {
		return []byte("ok")
	}
	return []byte("error")
}

// pointsOf evaluates fixed polynomials over the secret: shares made without
// the library.
func pointsOf(secret []byte, tags []byte, t int) [][]byte {
	out := make([][]byte, len(tags))
	for i, x := range tags {
		for p, s := range secret {
			cf := []byte{s}
			for j := 1; j < t; j++ {
				cf = append(cf, byte(p*31+j*57+11))
			}
			out[i] = append(out[i], ref.Eval(cf, x))
		}
		out[i] = append(out[i], x)
	}
	return out
}

func splitOp(v variant, N, n, t int) op {
	return op{fmt.Sprintf("%s(%d bytes, %d, %d)", v.name, N, n, t), func(salt int) ([][]byte, string) {
		secret := secretOf(N, salt)
		sh, err := v.f(secret, n, t, newGen())
		bad := ""
		if t > n || N == 0 || t < 2 {
			if err == nil {
				bad = "accepted"
			}
		} else if err != nil {
			bad = err.Error()
		} else if v.name[:2] == "kr" {
			bad = ssmsIs(cloneAll(sh[n-t:]), "the last", n, t, secret)
		} else {
			bad = ref.CheckSharing(secret, sh, n, t)
		}
		return append(sh, errRow(err)), bad
	}}
}

func combineOp(N, t int, brk bool) op {
	name := fmt.Sprintf("Combine(%d bytes, %d shares)", N, t)
	if brk {
		name += " with duplicate tags"
	}
	return op{name, func(salt int) ([][]byte, string) {
		secret := secretOf(N, salt)
		var tags []byte
		for i := 0; i < t; i++ {
			tags = append(tags, byte(i*37+5))
		}
		sh := pointsOf(secret, tags, t)
		if brk {
			sh[1][N] = sh[0][N]
		}
		got, err := shamir.Combine(sh)
		bad := ""
		if brk != (err != nil) {
			bad = fmt.Sprintf("error %v", err)
		} else if !brk && !bytes.Equal(got, secret) {
			bad = "wrong secret " + short(got)
		}
		return [][]byte{got, errRow(err)}, bad
	}}
}

func regenOp(N, t, m int) op {
	return op{fmt.Sprintf("Regenerate(%d bytes, %d shares, %d)", N, t, m), func(salt int) ([][]byte, string) {
		secret := secretOf(N, salt)
		var tags []byte
		for i := 0; i < t; i++ {
			tags = append(tags, byte(i*41+3))
		}
		sh := pointsOf(secret, tags, t)
		more, err := shamir.Regenerate(sh, m)
		bad := ""
		if m < 0 {
			if err == nil {
				bad = "accepted"
			}
		} else if err != nil {
			bad = err.Error()
		} else {
			for _, s := range more {
				if !bytes.Equal(ref.InterpAt(tags, ref.Bodies(sh), s[N]), s[:N]) {
					bad = "a new share is not on the polynomial"
				}
			}
		}
		return append(more, errRow(err)), bad
	}}
}

func ssmsCombineOp(N, n, t int, brk bool) op {
	name := fmt.Sprintf("krawczyk.Combine(%d bytes, %d of %d)", N, t, n)
	if brk {
		name += " with a truncated share"
	}
	return op{name, func(salt int) ([][]byte, string) {
		secret := secretOf(N, salt)
		tags := make([]byte, n)
		for i := range tags {
			tags[i] = byte(i*29 + 7)
		}
		sh := ref.SSMSEncode(secret, genKey[:16], tags, n, t, func(p, j int) byte { return byte(p*7 + j*13 + 1) })[n-t:]
		if brk {
			sh[0] = sh[0][:len(sh[0])-1]
		}
		got, err := krawczyk.Combine(sh, n, t)
		bad := ""
		if brk != (err != nil) {
			bad = fmt.Sprintf("error %v", err)
		} else if !brk && !bytes.Equal(got, secret) {
			bad = "wrong secret " + short(got)
		}
		return [][]byte{got, errRow(err)}, bad
	}}
}

func c17Ops() []op {
	return []op{
		splitOp(byName("Split"), 1, 2, 2),
		splitOp(byName("Split"), 40, 5, 3),
		splitOp(byName("Split"), 2100, 3, 2),
		splitOp(byName("Split"), 5, 40, 20),
		splitOp(byName("Split"), 8, 2, 3), // refused
		splitOp(byName("SplitWithRandomizer"), 5, 3, 2),
		splitOp(byName("SplitWithRandomizer"), 700, 6, 4),
		splitOp(byName("SplitWithRandomizer"), 0, 3, 2), // refused
		splitOp(byName("SplitWithRandomizerOld"), 9, 3, 3),
		splitOp(byName("SplitWithRandomizerOld"), 1300, 2, 2),
		splitOp(byName("SplitGeneric"), 33, 4, 2),
		splitOp(byName("SplitP"), 2100, 3, 2),
		splitOp(byName("SplitP"), 30, 4, 3),
		splitOp(byName("krawczyk.Split"), 10, 3, 2),
		splitOp(byName("krawczyk.Split"), 1500, 5, 4),
		splitOp(byName("krawczyk.SplitWithRandomizer"), 100, 4, 2),
		combineOp(40, 3, false),
		combineOp(700, 2, false),
		combineOp(12, 3, true),
		regenOp(20, 3, 4),
		regenOp(3, 2, -1),
		ssmsCombineOp(90, 5, 3, false),
		ssmsCombineOp(24, 3, 2, true),
		{"csprng requests", func(salt int) ([][]byte, string) {
			g := newGen()
			b := make([]byte, 33)
			g.Read(b)
			return [][]byte{b, g.Perm(200), g.GetUniqueBytes(9), randomizer.NewRandomizer().Perm(50)}, ""
		}},
	}
}

type drawn struct{ crypto, math, aes int }

// inProcess runs f, which resets the process state first, under the
// (deterministic) scheduler; background goroutines live until f returns.
func inProcess(where func() string, f func() string) (msg string) {
	msg, _ = inProcessN(where, f)
	return
}

// inProcessN also tells how many threads there were.
func inProcessN(where func() string, f func() string) (msg string, threads int) {
	x := vsched.Do(func() { msg = f() })
	threads = x.Threads
	if x.Panic != "" {
		msg = where() + "panic: " + x.Panic
	}
	if x.Deadlock {
		msg = where() + "deadlock"
	}
	return
}

// perform runs one operation.
func perform(o op, salt int) (out [][]byte, bad string, d drawn) {
	d = drawn{tape.Crypto.Pos, tape.Math.Pos, tape.AES.Total}
	out, bad = o.f(salt)
	d = drawn{tape.Crypto.Pos - d.crypto, tape.Math.Pos - d.math, tape.AES.Total - d.aes}
	return
}

func sameRows(a, b [][]byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results instead of %d", len(a), len(b))
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return diffAt(fmt.Sprintf("result %d has", i), a[i], b[i])
		}
	}
	return ""
}

type freshResult struct {
	out     [][]byte
	d       drawn
	known   bool
	threads int
}

// afterHistory runs the history, then o on the given draws, and compares with
// o in a fresh process.
func (c *Ctx) afterHistory(hist []op, o op, fr *freshResult) string {
	return c.afterHistoryOf(func() {}, hist, o, fr)
}

// afterHistoryOf: the call uses what setup made before the history.
func (c *Ctx) afterHistoryOf(setup func(), hist []op, o op, fr *freshResult) string {
	const final = 77
	if !fr.known {
		m, n := inProcessN(func() string { return o.name + " alone: " }, func() string {
			c.fresh(5)
			setup()
			tape.Reset(final)
			out, bad, d := perform(o, 1000)
			if bad != "" {
				return fmt.Sprintf("%s alone: %s", o.name, bad)
			}
			*fr = freshResult{out: out, d: d, known: true}
			return ""
		})
		fr.threads = n
		if m != "" {
			return m
		}
	}
	names := ""
	run := func(salt int, seed uint64) (out [][]byte, d drawn, msg string) {
		msg = inProcess(func() string { return fmt.Sprintf("after %sthe call %s: ", names, o.name) }, func() string {
			c.fresh(seed)
			setup()
			for i, h := range hist {
				if salt == 1 {
					names += h.name + "; "
				}
				if _, bad, _ := perform(h, salt+i); bad != "" {
					return fmt.Sprintf("after %s%s", names, bad)
				}
				c.res.Trans++
			}
			tape.Reset(final)
			var bad string
			out, bad, d = perform(o, 1000)
			c.res.Trans++
			if bad != "" {
				return fmt.Sprintf("after %sthe call %s: %s", names, o.name, bad)
			}
			return ""
		})
		return
	}
	out, d, m := run(1, 5)
	c.res.Scheds++
	c.Eval(1)
	if m != "" {
		return m
	}
	if m := sameRows(out, fr.out); m != "" {
		if fr.threads > 1 {
			// which of its goroutines gets which draw may depend on the
			// schedule: with equal draws it must not matter
			return c.withEqualDraws(setup, hist, o, fr)
		}
		if d == fr.d {
			return fmt.Sprintf("after %sthe call %s differs from the same call with the same draws in a fresh process: %s", names, o.name, m)
		}
		// it drew a different amount, so its draws were not equal (something
		// is read ahead); then at least what the history computed on must not
		// matter
		out2, _, m := run(500, 5)
		if m != "" {
			return m
		}
		if m := sameRows(out, out2); m != "" {
			return fmt.Sprintf("after %sthe call %s depends on the earlier secrets: %s", names, o.name, m)
		}
		c.Count("compared_by_noninterference", 1)
	}
	return ""
}

// withEqualDraws compares o after the history with o in a fresh process when
// all its draws from the operating system are one byte, and all earlier ones
// another.
func (c *Ctx) withEqualDraws(setup func(), hist []op, o op, fr *freshResult) string {
	run := func(hist []op) (out [][]byte, d drawn, msg string) {
		msg = inProcess(func() string { return "" }, func() string {
			c.fresh(5)
			v := byte(0x3c)
			tape.Crypto.Const, tape.Crypto.ConstLen = &v, 1<<40
			setup()
			for i, h := range hist {
				perform(h, 1+i)
			}
			tape.Reset(77)
			w := byte(0xa7)
			tape.Crypto.Const, tape.Crypto.ConstLen = &w, 1<<40
			var bad string
			out, bad, d = perform(o, 1000)
			return bad
		})
		return
	}
	if len(hist) == 0 {
		return ""
	}
	a, da, bad1 := run(nil)
	b, db, bad2 := run(hist)
	if bad1 != "" || bad2 != "" || da != db || da.aes > 0 {
		c.Count("compared_by_validity_alone", 1)
		return ""
	}
	c.Count("compared_with_equal_draws", 1)
	if m := sameRows(b, a); m != "" {
		return fmt.Sprintf("after %d calls, the last %s, the call %s differs from the same call in a fresh process though all draws of both are equal: %s", len(hist), hist[len(hist)-1].name, o.name, m)
	}
	return ""
}

func c17Histories(c *Ctx) {
	ops := c17Ops()
	depth := 2
	if c.thorough {
		depth = 3
	}
	fr := make([]freshResult, len(ops))
	var hs func(h []int, f func([]int))
	hs = func(h []int, f func([]int)) {
		f(h)
		if len(h) < depth {
			for i := range ops {
				hs(append(append([]int(nil), h...), i), f)
			}
		}
	}
	hs(nil, func(h []int) {
		c.Case(func() string {
			s := "history:"
			for _, i := range h {
				s += " " + ops[i].name + ";"
			}
			return s + " then every operation"
		}, func() string {
			var hist []op
			id := uint64(len(h))
			for _, i := range h {
				hist = append(hist, ops[i])
				id = hash(id, i)
			}
			c.res.States++
			for k := range ops {
				if m := c.afterHistory(hist, ops[k], &fr[k]); m != "" {
					return m
				}
				c.Distinct(hash(id, k))
			}
			return ""
		})
	})
}

// c17Lengths: one operation after another of the same kind, for all small
// pairs of lengths, thresholds and share counts (buffers shrink and grow).
func c17Lengths(c *Ctx) {
	lens := []int{1, 2, 3, 7, 15, 16, 17, 31, 33, 64, 100}
	nts := [][2]int{{2, 2}, {3, 3}, {5, 2}, {6, 5}}
	if c.thorough {
		lens = append(lens, 4, 5, 6, 8, 32, 65, 127, 129, 255, 257, 1025)
		nts = append(nts, [2]int{4, 3}, [2]int{9, 9}, [2]int{20, 2})
	}
	for _, v := range allVariants {
		for _, a := range lens {
			for _, x := range nts {
				v, a, x := v, a, x
				c.Case(func() string {
					return fmt.Sprintf("%s(%d bytes, %d, %d) then every other size", v.name, a, x[0], x[1])
				}, func() string {
					first := splitOp(v, a, x[0], x[1])
					c.res.States++
					for _, b := range lens {
						for _, y := range nts {
							var fr freshResult
							if m := c.afterHistory([]op{first, first}, splitOp(v, b, y[0], y[1]), &fr); m != "" {
								return m
							}
							c.Distinct(hash(v.name, a, x[0], x[1], b, y[0], y[1]))
						}
					}
					return ""
				})
			}
		}
	}
}

// c17Parameters: one process that splits (and combines) with every (n, t) of
// the grid, in several orders: nothing kept for one shape serves another.
func c17Parameters(c *Ctx) {
	max := 34
	edges := []int{63, 64, 65, 66, 67, 96, 97, 127, 128, 129, 130, 131, 192, 253, 254, 255}
	if c.thorough {
		max = 80
		edges = append(edges, 98, 99, 132, 133, 160, 161, 200, 223, 224, 225, 250, 251, 252)
	}
	var grid [][2]int
	for n := 2; n <= max; n++ {
		for t := 2; t <= n; t++ {
			grid = append(grid, [2]int{n, t})
		}
	}
	for _, n := range edges {
		for _, t := range []int{2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, n / 2, n - 2, n - 1, n} {
			if t > 33 && !c.thorough && t < n-2 {
				continue
			}
			if t <= n && (t <= 40 || c.thorough || n <= 67) {
				grid = append(grid, [2]int{n, t})
			}
		}
	}
	orders := []struct {
		name string
		less func(a, b [2]int) bool
	}{
		{"n then t, up", func(a, b [2]int) bool { return a[0] < b[0] || a[0] == b[0] && a[1] < b[1] }},
		{"n then t, down", func(a, b [2]int) bool { return a[0] > b[0] || a[0] == b[0] && a[1] > b[1] }},
		{"t up, n down", func(a, b [2]int) bool { return a[1] < b[1] || a[1] == b[1] && a[0] > b[0] }},
		{"t down, n up", func(a, b [2]int) bool { return a[1] > b[1] || a[1] == b[1] && a[0] < b[0] }},
	}
	vs := []variant{byName("krawczyk.Split"), byName("krawczyk.SplitWithRandomizer"), byName("Split"), byName("SplitWithRandomizer")}
	for _, v := range vs {
		for oi, o := range orders {
			for _, mode := range []string{"split", "combine"} {
				if mode == "combine" && v.name != "krawczyk.Split" && v.name != "Split" {
					continue
				}
				v, o, mode, oi := v, o, mode, oi
				c.Case(func() string { return fmt.Sprintf("%s, %s with every (n, t), %s", v.name, mode, o.name) }, func() string {
					g := append([][2]int(nil), grid...)
					sort.SliceStable(g, func(i, j int) bool { return o.less(g[i], g[j]) })
					prev := ""
					return inProcess(func() string { return "after " + prev + " the next: " }, func() string {
						c.fresh(c.seed)
						for i, x := range g {
							var p op
							n, t := x[0], x[1]
							N := 1 + (i*7+oi)%23
							switch {
							case mode == "split":
								p = splitOp(v, N, n, t)
							case v.name == "Split":
								p = combineOp(N, t, false)
								if n%2 == 0 && t+2 <= 255 {
									p = regenOp(N, t, 2)
								}
							default:
								p = ssmsCombineOp(N, n, t, false)
							}
							_, bad, _ := perform(p, i)
							c.Eval(1)
							c.res.Trans++
							if bad != "" {
								return fmt.Sprintf("%s, after %d others (the last %s): %s", p.name, i, prev, bad)
							}
							prev = p.name
							c.Distinct(hash(v.name, mode, oi, n, t))
						}
						c.res.States += len(g)
						return ""
					})
				})
			}
		}
	}
}

// c17Tags: one process that combines (and regenerates from) share after share
// list, each list after every other of its family: nothing kept for one list
// serves another with some of the same tags.
func c17Tags(c *Ctx) {
	const N = 3
	sharing := func(tags []byte, salt int) ([]byte, [][]byte) {
		s := secretOf(N, salt)
		return s, pointsOf(s, tags, len(tags))
	}
	combine := func(tags []byte, salt int) string {
		s, sh := sharing(tags, salt)
		got, err := shamir.Combine(sh)
		if err != nil || !bytes.Equal(got, s) {
			return fmt.Sprintf("Combine of tags %v gives %s, %v instead of %s", tags, short(got), err, short(s))
		}
		return ""
	}
	regen := func(tags []byte, salt int) string {
		_, sh := sharing(tags, salt)
		more, err := shamir.Regenerate(sh, 2)
		if err != nil || len(more) != 2 {
			return fmt.Sprintf("Regenerate from tags %v gives %d shares, %v", tags, len(more), err)
		}
		for _, m := range more {
			if len(m) != N+1 || !bytes.Equal(ref.InterpAt(tags, ref.Bodies(sh), m[N]), m[:N]) {
				return fmt.Sprintf("Regenerate from tags %v makes a share that is not on the polynomial", tags)
			}
		}
		return ""
	}
	// SSMS: x is an ordered selection of the five shares
	const n, t = 5, 3
	ssms := func(x []byte, salt int) string {
		s := secretOf(11, salt)
		sh := ref.SSMSEncode(s, secretOf(16, salt+1), []byte{9, 7, 200, 1, 30}, n, t, func(p, j int) byte { return byte(p*7 + j*13 + salt) })
		var l [][]byte
		for _, i := range x {
			l = append(l, sh[i])
		}
		got, err := krawczyk.Combine(l, n, t)
		if err != nil || !bytes.Equal(got, s) {
			return fmt.Sprintf("krawczyk.Combine of shares %v gives %s, %v instead of %s", x, short(got), err, short(s))
		}
		return ""
	}
	arrange := func(alphabet []byte, k int) (out [][]byte) {
		var rec func(p []byte)
		rec = func(p []byte) {
			if len(p) == k {
				out = append(out, clone(p))
				return
			}
			for _, a := range alphabet {
				if bytes.IndexByte(p, a) < 0 {
					rec(append(p, a))
				}
			}
		}
		rec(nil)
		return
	}
	five := arrange([]byte{1, 2, 3, 4, 5}, 5)
	families := []struct {
		name  string
		lists [][]byte
		f     func([]byte, int) string
		pairs bool
	}{
		{"Combine, triples of tags 1..6", arrange([]byte{1, 2, 3, 4, 5, 6}, 3), combine, true},
		{"Combine, pairs and triples of tags 0,1,2,4,128", append(arrange([]byte{0, 1, 2, 4, 128}, 2), arrange([]byte{0, 1, 2, 4, 128}, 3)...), combine, true},
		{"Combine, orders of five tags", five, combine, true},
		{"Combine, all pairs of tags", arrange(tagsFrom(1, 255), 2), combine, false},
		{"Regenerate, triples of tags 1..6", arrange([]byte{1, 2, 3, 4, 5, 6}, 3), regen, true},
		{"Regenerate, pairs and triples of tags 0,1,2,4,128", append(arrange([]byte{1, 2, 4, 128}, 2), arrange([]byte{1, 2, 4, 128}, 3)...), regen, true},
		{"krawczyk.Combine, every selection of 3 of 5", arrange([]byte{0, 1, 2, 3, 4}, 3), ssms, true},
		{"krawczyk.Combine, every order of 4 of 5", arrange([]byte{0, 1, 2, 3, 4}, 4), ssms, true},
	}
	for _, fam := range families {
		fam := fam
		if !fam.pairs {
			// one long run in several orders
			for _, stride := range []int{1, 255, 7919, 32003} {
				stride := stride
				c.Case(func() string { return fmt.Sprintf("%s, every %dth in turn", fam.name, stride) }, func() string {
					l := len(fam.lists)
					at := 0
					for i := 0; i < l; i++ {
						if m := fam.f(fam.lists[at], i); m != "" {
							return m
						}
						for at = (at + stride) % l; i+1 < l && at == 0; {
							at = 1 + i%(l-1)
						}
						c.Eval(1)
					}
					c.res.Trans += l
					c.Distinct(hash(fam.name, stride))
					return ""
				})
			}
			continue
		}
		for i := range fam.lists {
			i := i
			c.Case(func() string {
				return fmt.Sprintf("%s: %v, in turn with each of the %d", fam.name, fam.lists[i], len(fam.lists))
			}, func() string {
				for j := range fam.lists {
					for k, x := range [][]byte{fam.lists[i], fam.lists[j]} {
						if m := fam.f(x, 2*j+k); m != "" {
							if k == 1 {
								m += fmt.Sprintf(", after a call with %v", fam.lists[i])
							} else if j > 0 {
								m += fmt.Sprintf(", after a call with %v", fam.lists[j-1])
							}
							return m
						}
					}
					c.Eval(2)
					c.res.States++
					c.res.Trans += 2
					c.res.Scheds++
				}
				c.Distinct(hash(fam.name, i))
				return ""
			})
		}
	}
}

func tagsFrom(lo, hi int) []byte {
	var o []byte
	for i := lo; i <= hi; i++ {
		o = append(o, byte(i))
	}
	return o
}

// ---- C18 ----

// argument is one byte slice handed to the library, inside guarded memory.
type argument struct {
	name string
	mem  []byte
	keep []byte
	b    []byte
}

func newArg(name string, content []byte, spare int) *argument {
	a := &argument{name: name, mem: make([]byte, 16+len(content)+spare+16)}
	fillGuard(a.mem)
	a.b = a.mem[16 : 16+len(content) : 16+len(content)+spare]
	copy(a.b, content)
	a.keep = clone(a.mem)
	return a
}
func (a *argument) intact() string {
	if !bytes.Equal(a.mem, a.keep) {
		for i := range a.mem {
			if a.mem[i] != a.keep[i] {
				where := "inside it"
				if i < 16 || i >= 16+len(a.b) {
					where = "in the memory next to it"
				}
				return fmt.Sprintf("%s was modified (%s, offset %d)", a.name, where, i-16)
			}
		}
	}
	return ""
}
func (a *argument) scribble() {
	for i := range a.mem {
		a.mem[i] ^= 0x5a
	}
	a.keep = clone(a.mem)
}

// listArg is a list of shares handed to the library.
type listArg struct {
	args []*argument
	full [][]byte // with spare entries
	list [][]byte
	keep [][]byte
}

func newList(sh [][]byte, spare int) *listArg {
	l := &listArg{}
	for i, s := range sh {
		if s == nil {
			l.full = append(l.full, nil)
			continue
		}
		a := newArg(fmt.Sprintf("share %d", i), s, spare)
		l.args = append(l.args, a)
		l.full = append(l.full, a.b)
	}
	n := len(l.full)
	l.full = append(l.full, []byte("spare entry"), nil)
	l.list = l.full[:n]
	l.keep = append([][]byte(nil), l.full...)
	return l
}

// newAdjacent puts all shares next to each other in one block, each slice's
// capacity reaching over the following ones.
func newAdjacent(sh [][]byte) *listArg {
	l := &listArg{}
	var all []byte
	for _, s := range sh {
		all = append(all, s...)
	}
	a := newArg("the block of shares", all, 0)
	l.args = append(l.args, a)
	o := 0
	for _, s := range sh {
		if s == nil {
			l.full = append(l.full, nil)
			continue
		}
		l.full = append(l.full, a.b[o:o+len(s)])
		o += len(s)
	}
	l.list = l.full
	l.keep = append([][]byte(nil), l.full...)
	return l
}

func (l *listArg) intact() string {
	for i := range l.keep {
		x, y := l.full[i], l.keep[i]
		if len(x) != len(y) || (x == nil) != (y == nil) || len(x) > 0 && &x[0] != &y[0] || cap(x) != cap(y) {
			return fmt.Sprintf("entry %d of the list was replaced", i)
		}
	}
	for _, a := range l.args {
		if m := a.intact(); m != "" {
			return m
		}
	}
	return ""
}

// outCall is a call with its inputs in guarded memory; results are byte
// slices that the caller owns.
type outCall struct {
	name string
	prep func(spare int) (run func() ([][]byte, error), intact func() string, scribble func())
}

func c18Calls(c *Ctx) []outCall {
	var out []outCall
	sizes := []int{1, 2, 5, 16, 33, 100, 1500, 3, 4, 7, 8, 15, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 257, 1023, 1024, 1025, 2049, 4096}
	nts := [][2]int{{2, 2}, {3, 2}, {5, 3}, {4, 4}, {7, 2}, {20, 19}}
	if c.thorough {
		sizes = append(sizes, 8192, 8193, 32767, 32769, 65536, 65537)
		nts = append(nts, [2]int{40, 40}, [2]int{255, 3})
	}
	for _, N := range append(sizes, 4097, 16385, 33001, 70001, 300007, 1<<20+5) {
		for _, nt := range nts {
			N, n, t := N, nt[0], nt[1]
			if N > 4096 && nt != [2]int{3, 2} && nt != [2]int{4, 4} && !(c.thorough && N <= 70000) {
				continue
			}
			if N > 300000 && n != 3 {
				continue
			}
			for _, v := range allVariants {
				v := v
				out = append(out, outCall{fmt.Sprintf("%s(%d bytes, %d, %d)", v.name, N, n, t), func(spare int) (func() ([][]byte, error), func() string, func()) {
					a := newArg("the secret", secretOf(N, n), spare)
					g := newGen()
					return func() ([][]byte, error) { return v.f(a.b, n, t, g) }, a.intact, a.scribble
				}})
			}
			for _, alg := range []string{worker.AlgShamir, worker.AlgSSMS} {
				alg := alg
				out = append(out, outCall{fmt.Sprintf("Worker.Split %s(%d bytes, %d, %d)", alg, N, n, t), func(spare int) (func() ([][]byte, error), func() string, func()) {
					a := newArg("the secret", secretOf(N, n), spare)
					w := worker.NewWorker()
					return func() ([][]byte, error) { return w.Split(alg, a.b, n, t) }, a.intact, a.scribble
				}})
			}
			shares := func() [][]byte {
				var tags []byte
				for i := 0; i < n; i++ {
					tags = append(tags, byte(255-i))
				}
				return pointsOf(secretOf(N, n), tags, t)
			}
			ssms := func() [][]byte {
				var tags []byte
				for i := 0; i < n; i++ {
					tags = append(tags, byte(255-i))
				}
				return ref.SSMSEncode(secretOf(N, n), genKey[:16], tags, n, t, func(p, j int) byte { return byte(p*5 + j) })
			}
			one := func(b []byte, err error) ([][]byte, error) {
				if err != nil {
					return nil, err
				}
				return [][]byte{b}, nil
			}
			add := func(name string, mk func() [][]byte, f func(l [][]byte) ([][]byte, error)) {
				for _, adj := range []bool{false, true} {
					adj := adj
					nm := fmt.Sprintf("%s(%d bytes, %d, %d)", name, N, n, t)
					if adj {
						nm += " on adjacent shares"
					}
					out = append(out, outCall{nm, func(spare int) (func() ([][]byte, error), func() string, func()) {
						var l *listArg
						if adj {
							l = newAdjacent(mk())
						} else {
							l = newList(mk(), spare)
						}
						return func() ([][]byte, error) { return f(l.list) }, l.intact, func() {
							for _, a := range l.args {
								a.scribble()
							}
						}
					}})
				}
			}
			add("Combine", shares, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			low := func() [][]byte { // tags 0, 1, 2...: the point at zero among them
				tags := make([]byte, n)
				for i := range tags {
					tags[i] = byte(i)
				}
				return pointsOf(secretOf(N, n), tags, t)
			}
			add("Combine tags 0, 1, ... of", low, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			add("Combine tags ..., 1, 0 of", func() [][]byte { return pick(low(), reversed(upto(n))) }, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			add("Combine equal bodies", func() [][]byte {
				sh := low()
				for i := range sh {
					copy(sh[i], sh[0][:N])
				}
				return sh
			}, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			add("Combine zero bodies", func() [][]byte {
				sh := low()
				for i := range sh {
					copy(sh[i], make([]byte, N))
					sh[i][N]++
				}
				return sh
			}, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			add("Combine reversed", func() [][]byte { return pick(shares(), reversed(upto(n))) }, func(l [][]byte) ([][]byte, error) { return one(shamir.Combine(l)) })
			add("Regenerate 3 from", shares, func(l [][]byte) ([][]byte, error) { return shamir.Regenerate(l, minInt(3, 255-n)) })
			add("krawczyk.Combine", ssms, func(l [][]byte) ([][]byte, error) { return one(krawczyk.Combine(l, n, t)) })
			add("krawczyk.Combine of the last", func() [][]byte { return ssms()[n-t:] }, func(l [][]byte) ([][]byte, error) { return one(krawczyk.Combine(l, n, t)) })
			add("krawczyk.Combine reversed", func() [][]byte { return pick(ssms(), reversed(upto(n))) }, func(l [][]byte) ([][]byte, error) { return one(krawczyk.Combine(l, n, t)) })
			add("krawczyk.Combine with tags from 0", func() [][]byte {
				tags := make([]byte, n)
				for i := range tags {
					tags[i] = byte(i)
				}
				return ref.SSMSEncode(secretOf(N, n), genKey[:16], tags, n, t, func(p, j int) byte { return byte(p*5 + j) })
			}, func(l [][]byte) ([][]byte, error) { return one(krawczyk.Combine(l, n, t)) })
			add("Regenerate 0 from", shares, func(l [][]byte) ([][]byte, error) { return shamir.Regenerate(l, 0) })
			if n > t {
				add("krawczyk.Combine with a missing share", func() [][]byte { s := ssms(); s[0] = nil; return s }, func(l [][]byte) ([][]byte, error) {
					return one(krawczyk.Combine(l, n, t))
				})
			}
			add("Worker.Combine shamir", shares, func(l [][]byte) ([][]byte, error) {
				w := worker.NewWorker()
				return one(w.Combine(worker.AlgShamir, l, n, t))
			})
			add("Worker.Combine krawczyk", ssms, func(l [][]byte) ([][]byte, error) {
				w := worker.NewWorker()
				return one(w.Combine(worker.AlgSSMS, l, n, t))
			})
		}
	}
	for n := 0; n < 64; n++ {
		n := n
		out = append(out, outCall{fmt.Sprintf("Perm and GetUniqueBytes(%d)", n*4), func(spare int) (func() ([][]byte, error), func() string, func()) {
			a := newArg("the key", genKey, spare)
			g := csprng.NewCSPRNGWithKeyIV(a.b)
			r := randomizer.NewRandomizer()
			return func() ([][]byte, error) {
				b := make([]byte, 40)
				g.Read(b)
				return [][]byte{g.Perm(byte(n * 4)), g.GetUniqueBytes(byte(n * 4)), b[:40:40], r.Perm(byte(n * 4))}, nil
			}, a.intact, a.scribble
		}})
	}
	// calls that are refused must leave their inputs alone as well
	for _, v := range allVariants {
		v := v
		out = append(out, outCall{"refused " + v.name, func(spare int) (func() ([][]byte, error), func() string, func()) {
			a := newArg("the secret", secretOf(30, 3), spare)
			g := newGen()
			return func() ([][]byte, error) {
				if _, err := v.f(a.b, 2, 3, g); err == nil {
					return nil, fmt.Errorf("accepted")
				}
				return nil, nil
			}, a.intact, a.scribble
		}})
	}
	return out
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c18Inputs: the inputs are intact afterwards, and changing them then changes
// no result.
func c18Inputs(c *Ctx) {
	for _, k := range c18Calls(c) {
		for _, spare := range []int{0, 1, 40} {
			k, spare := k, spare
			c.Case(func() string { return fmt.Sprintf("%s, inputs with %d spare bytes", k.name, spare) }, func() string {
				run, intact, scribble := k.prep(spare)
				out, err := run()
				if err != nil {
					return err.Error()
				}
				if m := intact(); m != "" {
					return m
				}
				snap := cloneAll(out)
				scribble()
				if m := sameRows(out, snap); m != "" {
					return "changing the inputs afterwards changes an output: " + m
				}
				for _, o := range out {
					for i := range o[:cap(o)] {
						o[:cap(o)][i] ^= 0xc3
					}
				}
				if m := intact(); m != "" {
					return "writing to an output: " + m
				}
				c.Distinct(hash(k.name, spare))
				return ""
			})
		}
	}
}

// c18Outputs: every output is overwritten and appended to in turn.
func c18Outputs(c *Ctx) {
	for _, k := range c18Calls(c) {
		k := k
		c.Case(func() string { return k.name + ", writing to each output" }, func() string {
			run, _, _ := k.prep(3)
			out, err := run()
			if err != nil {
				return err.Error()
			}
			snap := cloneAll(out)
			others := func(i int, what string) string {
				for j := range out {
					if j != i && !bytes.Equal(out[j], snap[j]) {
						return fmt.Sprintf("%s output %d changes output %d", what, i, j)
					}
				}
				return ""
			}
			step := 1
			if len(out) > 60 && !c.thorough {
				step = 7
			}
			for i := 0; i < len(out); i += step {
				full := out[i][:cap(out[i])]
				keep := clone(full)
				for x := range full {
					full[x] ^= 0xff
				}
				if m := others(i, "overwriting"); m != "" {
					return m
				}
				copy(full, keep)
				grown := append(out[i], 1, 2, 3, 4, 5, 6, 7, 8, 9)
				_ = append(grown, make([]byte, 64)...)
				if m := others(i, "appending to"); m != "" {
					return m
				}
				copy(full, keep)
				c.Eval(2)
			}
			c.Distinct(hash(k.name))
			return ""
		})
	}
}

// c18Later: outputs survive later calls, and overwriting them does not affect
// later calls (nothing the library keeps aliases what it returned).
func c18Later(c *Ctx) {
	calls := c18Calls(c)
	later := []op{
		splitOp(byName("Split"), 40, 5, 3), splitOp(byName("SplitWithRandomizer"), 120, 3, 2), splitOp(byName("SplitWithRandomizerOld"), 9, 3, 3),
		splitOp(byName("SplitP"), 1500, 3, 2), splitOp(byName("SplitGeneric"), 33, 4, 2), splitOp(byName("krawczyk.Split"), 200, 4, 2),
		splitOp(byName("krawczyk.SplitWithRandomizer"), 60, 3, 3), combineOp(40, 3, false), regenOp(20, 3, 4), ssmsCombineOp(90, 5, 3, false),
	}
	for _, k := range calls {
		k := k
		c.Case(func() string { return k.name + ", then other calls" }, func() string {
			run, intact, _ := k.prep(3)
			out, err := run()
			if err != nil {
				return err.Error()
			}
			snap := cloneAll(out)
			for i, l := range later {
				if _, bad := l.f(i); bad != "" {
					return l.name + ": " + bad
				}
			}
			if m := sameRows(out, snap); m != "" {
				return "later calls change an output: " + m
			}
			if m := intact(); m != "" {
				return "later calls: " + m
			}
			for _, o := range out {
				for i := range o[:cap(o)] {
					o[:cap(o)][i] = 0xa7
				}
			}
			for i, l := range later {
				if _, bad := l.f(i); bad != "" {
					return "after the caller overwrote the outputs, " + l.name + ": " + bad
				}
			}
			for _, o := range out {
				for _, x := range o[:cap(o)] {
					if x != 0xa7 {
						return "later calls write into an output the caller has overwritten"
					}
				}
			}
			c.Eval(2 * len(later))
			c.Distinct(hash(k.name))
			return ""
		})
	}
}

// ---- C20 ----

// combineIsInterp combines points and compares with Lagrange's formula.
func combineIsInterp(tags []byte, rows [][]byte) string {
	sh := make([][]byte, len(tags))
	for i := range tags {
		sh[i] = append(append(make([]byte, 0, len(rows[i])+1), rows[i]...), tags[i])
	}
	got, err := shamir.Combine(sh)
	if err != nil {
		return fmt.Sprintf("tags %v: %v", tags, err)
	}
	want := ref.InterpAt(tags, rows, 0)
	if !bytes.Equal(got, want) {
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				var ys []byte
				for _, r := range rows {
					ys = append(ys, r[i])
				}
				return fmt.Sprintf("tags %v, bytes %v: %s", tags, ys, diffAt("Combine gives", got, want))
			}
		}
		return fmt.Sprintf("tags %v: %s", tags, diffAt("Combine gives", got, want))
	}
	return ""
}

func c20Pairs(c *Ctx) {
	// share bytes: each alone over all values, then both together
	var r0, r1 []byte
	for v := 0; v < 256; v++ {
		r0, r1 = append(r0, byte(v)), append(r1, 0)
		r0, r1 = append(r0, 0), append(r1, byte(v))
		r0, r1 = append(r0, byte(v)), append(r1, byte(v))
		r0, r1 = append(r0, byte(v)), append(r1, byte(v*7+3))
		r0, r1 = append(r0, byte(v)), append(r1, byte(255-v))
	}
	if c.thorough {
		r0, r1 = nil, nil
		for v := 0; v < 65536; v++ {
			r0, r1 = append(r0, byte(v>>8)), append(r1, byte(v))
		}
	}
	for x := 0; x < 256; x++ {
		x := byte(x)
		c.Case(func() string { return fmt.Sprintf("tag %d with every other tag, %d pairs of bytes", x, len(r0)) }, func() string {
			for y := 0; y < 256; y++ {
				if byte(y) == x {
					continue
				}
				if m := combineIsInterp([]byte{x, byte(y)}, [][]byte{r0, r1}); m != "" {
					return m
				}
				c.Eval(1)
				c.Distinct(hash("pair", x, y))
			}
			return ""
		})
	}
}

func c20Triples(c *Ctx) {
	// a basis of the share bytes, and bytes with several bits
	vals := []byte{1, 2, 0x80, 0xff}
	if c.thorough {
		vals = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255, 0x53, 0xca}
	}
	rows := make([][]byte, 3)
	for k := 0; k < 3; k++ {
		for _, v := range vals {
			for i := range rows {
				b := byte(0)
				if i == k {
					b = v
				}
				rows[i] = append(rows[i], b)
			}
		}
	}
	for i := range rows {
		rows[i] = append(rows[i], byte(0x1d*(i+1)), byte(0xf7-i*3))
	}
	for x := 0; x < 256; x++ {
		x := x
		c.Case(func() string { return fmt.Sprintf("tag %d with every two larger tags", x) }, func() string {
			n := 0
			for y := x + 1; y < 256; y++ {
				for z := y + 1; z < 256; z++ {
					tags := []byte{byte(x), byte(y), byte(z)}
					switch (x + y + z) % 3 {
					case 1:
						tags[0], tags[2] = tags[2], tags[0]
					case 2:
						tags[0], tags[1] = tags[1], tags[0]
					}
					if m := combineIsInterp(tags, rows); m != "" {
						return m
					}
					n++
				}
			}
			c.Eval(n)
			c.Distinct(hash("triple", x))
			c.Count("tag_triples", n)
			return ""
		})
	}
}

func c20Many(c *Ctx) {
	top := 256
	for k := 4; k <= top; k++ {
		for pat := 0; pat < 4; pat++ {
			k, pat := k, pat
			if k > 40 && k < 250 && !c.thorough && (k+pat)%9 != 0 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%d shares, tag pattern %d", k, pat) }, func() string {
				tags := make([]byte, k)
				for i := range tags {
					switch pat {
					case 0:
						tags[i] = byte(i + 1)
					case 1:
						tags[i] = byte(255 - i)
					case 2:
						tags[i] = byte(i*57 + 101)
					case 3:
						tags[i] = byte(i*3) ^ 0xa5
					}
				}
				rows := make([][]byte, k)
				cols := k
				if cols > 24 && !c.thorough {
					cols = 24
				}
				for i := range rows {
					for j := 0; j < cols; j++ {
						b := byte(0)
						if i == j*k/cols {
							b = byte(1 + j*5)
						}
						rows[i] = append(rows[i], b)
					}
					rows[i] = append(rows[i], byte(i*i+7), byte(0xff-i), 0xff, byte(i*91))
				}
				c.Distinct(hash("many", k, pat))
				return combineIsInterp(tags, rows)
			})
		}
	}
}

func c20Orders(c *Ctx) {
	max := 5
	if c.thorough {
		max = 7
	}
	sets := [][]byte{{1, 2, 3, 4, 5, 6, 7}, {255, 254, 128, 127, 1, 64, 33}, {0, 255, 17, 34, 51, 85, 170}, {9, 0x8e, 0x1d, 0x47, 2, 0xf0, 0x0f}}
	for si, set := range sets {
		for k := 2; k <= max; k++ {
			si, set, k := si, set, k
			c.Case(func() string { return fmt.Sprintf("every order of %v", set[:k]) }, func() string {
				bad := ""
				permutations(upto(k), func(p []int) bool {
					tags := make([]byte, k)
					rows := make([][]byte, k)
					for i, j := range p {
						tags[i] = set[j]
						rows[i] = secretOf(13, j+10*si)
					}
					bad = combineIsInterp(tags, rows)
					c.Eval(1)
					c.Distinct(hash("order", si, fmt.Sprint(p)))
					return bad == ""
				})
				return bad
			})
		}
	}
	// every length of the shares
	top := 300
	if c.thorough {
		top = 3000
	}
	for N := 1; N <= top; N++ {
		N := N
		c.Case(func() string { return fmt.Sprintf("shares of %d bytes", N) }, func() string {
			for _, tags := range [][]byte{{1, 2}, {200, 3, 77}, {5, 255, 254, 1, 128}} {
				rows := make([][]byte, len(tags))
				for i := range rows {
					rows[i] = secretOf(N, i+N)
				}
				if m := combineIsInterp(tags, rows); m != "" {
					return m
				}
			}
			c.Eval(3)
			c.Distinct(hash("len", N))
			return ""
		})
	}
}

// ---- C21 ----

func editsOf(s string) []string {
	set := map[string]bool{}
	chars := []string{"", " ", "a", "s", "S", "k", "0", "-", "\x00", "\u00e9"}
	for i := 0; i <= len(s); i++ {
		for _, ch := range chars {
			set[s[:i]+ch+s[i:]] = true
			if i < len(s) {
				set[s[:i]+ch+s[i+1:]] = true
			}
		}
		set[s[:i]] = true
		set[s[i:]] = true
		if i+1 < len(s) {
			set[s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:]] = true
		}
		if i < len(s) {
			set[s[:i]+string(bytes.ToUpper([]byte{s[i]}))+s[i+1:]] = true
		}
	}
	var o []string
	for k := range set {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func c21Names(c *Ctx) {
	set := map[string]bool{}
	var names []string
	for _, s := range append(append(editsOf(worker.AlgShamir), editsOf(worker.AlgSSMS)...),
		"", "SHAMIR", "Shamir", "KRAWCZYK", "Krawczyk", "ssms", "SSMS", "rs", "none", "default", "shamirkrawczyk", "shamir,krawczyk", "shamir shamir", "shamir\n", "*", "0", "1") {
		if !set[s] && s != worker.AlgShamir && s != worker.AlgSSMS {
			set[s] = true
			names = append(names, s)
		}
	}
	for _, nm := range names {
		nm := nm
		c.Case(func() string { return fmt.Sprintf("algorithm %q", nm) }, func() string {
			w := worker.NewWorker()
			for _, nt := range [][2]int{{3, 2}, {5, 5}, {0, 0}, {2, 3}} {
				sh, err := w.Split(nm, []byte("secret"), nt[0], nt[1])
				if err == nil || len(sh) > 0 {
					return fmt.Sprintf("Split with %d, %d is not refused", nt[0], nt[1])
				}
			}
			a := pointsOf([]byte("secret"), []byte{1, 2, 3}, 2)
			b := ref.SSMSEncode([]byte("secret"), genKey[:16], []byte{1, 2, 3}, 3, 2, func(p, j int) byte { return 9 })
			for _, l := range [][][]byte{a, b, nil, {}} {
				got, err := w.Combine(nm, l, 3, 2)
				if err == nil || len(got) > 0 {
					return "Combine is not refused"
				}
			}
			// the worker still works
			sh, err := w.Split(worker.AlgShamir, []byte("secret"), 3, 2)
			if err != nil {
				return err.Error()
			}
			c.Eval(8)
			c.Distinct(hash("name", nm))
			return combineIs(sh, []int{2, 0}, []byte("secret"))
		})
	}
}

func c21Arguments(c *Ctx) {
	ints := []int{-1 << 63, -255, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 17, 100, 254, 255, 256, 257, 300, 1 << 32, 1<<63 - 1}
	lens := []int{0, 1, 2, 5, 16, 33, 100, 1030}
	type pkg struct {
		alg   string
		split variant
	}
	for _, p := range []pkg{{worker.AlgShamir, byName("SplitWithRandomizer")}, {worker.AlgSSMS, byName("krawczyk.SplitWithRandomizer")}} {
		for _, N := range lens {
			for _, n := range ints {
				p, N, n := p, N, n
				c.Case(func() string { return fmt.Sprintf("Split %q, %d bytes, n=%d, every k", p.alg, N, n) }, func() string {
					for _, k := range ints {
						if n == 255 && k > 20 && N > 20 {
							continue
						}
						secret := secretOf(N, 7)
						w := worker.NewWorker()
						sh, err := w.Split(p.alg, secret, n, k)
						want, werr := p.split.f(secret, n, k, newGen())
						if (err != nil) != (werr != nil) {
							return fmt.Sprintf("k=%d: worker says %v, the package says %v", k, err, werr)
						}
						c.Eval(1)
						c.Distinct(hash(p.alg, N, n, k))
						if err != nil {
							if len(sh) != 0 {
								return fmt.Sprintf("k=%d: shares next to the error", k)
							}
							continue
						}
						if len(sh) != len(want) || len(sh[0]) != len(want[0]) {
							return fmt.Sprintf("k=%d: %d shares of %d bytes instead of %d of %d", k, len(sh), len(sh[0]), len(want), len(want[0]))
						}
						if p.alg == worker.AlgShamir {
							if m := ref.CheckSharing(secret, sh, n, k); m != "" {
								return fmt.Sprintf("k=%d: %s", k, m)
							}
						} else if m := ssmsIs(cloneAll(sh[n-k:]), "the last k", n, k, secret); m != "" {
							return fmt.Sprintf("k=%d: %s", k, m)
						}
						got, err := w.Combine(p.alg, cloneAll(sh[n-k:]), n, k)
						if err != nil || !bytes.Equal(got, secret) {
							return fmt.Sprintf("k=%d: the worker combines its own shares to %s, %v", k, short(got), err)
						}
					}
					return ""
				})
			}
		}
	}
}

// c21Combine: on every list of shares, genuine and malformed, the worker
// answers what the package answers.
func c21Combine(c *Ctx) {
	tape.Reset(c.seed)
	_, syms := shamirSymbols()
	kr := ref.SSMSEncode([]byte("an SSMS secret of 30 bytes...."), genKey[:16], []byte{9, 8, 7, 6}, 4, 2, func(p, j int) byte { return byte(p + j) })
	bad := clone(kr[1])
	bad[24] ^= 1
	syms = append(syms[:10], symbol{"k0", kr[0]}, symbol{"k1", kr[1]}, symbol{"k2", kr[2]}, symbol{"k3", kr[3]}, symbol{"k1 damaged", bad}, symbol{"k1 cut", kr[1][:30]})
	counts := [][2]int{{4, 2}, {4, 3}, {2, 4}, {0, 0}, {255, 2}, {-1, 2}}
	max := 3
	lists(c, syms, max, func(l []symbol) string {
		w := worker.NewWorker()
		for _, nk := range counts {
			got, err := w.Combine(worker.AlgShamir, raw(l), nk[0], nk[1])
			want, werr := shamir.Combine(raw(l))
			if (err != nil) != (werr != nil) || !bytes.Equal(got, want) {
				return fmt.Sprintf("worker shamir %v: %s, %v; package: %s, %v", nk, short(got), err, short(want), werr)
			}
			got, err = w.Combine(worker.AlgSSMS, raw(l), nk[0], nk[1])
			want, werr = krawczyk.Combine(raw(l), nk[0], nk[1])
			if (err != nil) != (werr != nil) || !bytes.Equal(got, want) {
				return fmt.Sprintf("worker krawczyk %v: %s, %v; package: %s, %v", nk, short(got), err, short(want), werr)
			}
			c.Eval(2)
		}
		return ""
	})
}

// c21Sequences: all sequences of requests to one worker; afterwards everything
// it produced is combined by another worker and by the packages.
func c21Sequences(c *Ctx) {
	type made struct {
		alg    string
		n, k   int
		secret []byte
		sh     [][]byte
	}
	type state struct {
		w    worker.Worker
		done []made
	}
	type req struct {
		name string
		f    func(s *state, i int) string
	}
	split := func(alg string, N, n, k int) req {
		return req{fmt.Sprintf("Split %s %d bytes %d,%d", alg, N, n, k), func(s *state, i int) string {
			secret := secretOf(N, i)
			sh, err := s.w.Split(alg, secret, n, k)
			if err != nil {
				return err.Error()
			}
			s.done = append(s.done, made{alg, n, k, secret, sh})
			return ""
		}}
	}
	refused := func(alg string, N, n, k int) req {
		return req{fmt.Sprintf("refused Split %q %d bytes %d,%d", alg, N, n, k), func(s *state, i int) string {
			if _, err := s.w.Split(alg, secretOf(N, i), n, k); err == nil {
				return "accepted"
			}
			return ""
		}}
	}
	reqs := []req{
		split(worker.AlgShamir, 9, 3, 2), split(worker.AlgShamir, 40, 25, 5), split(worker.AlgShamir, 9, 3, 3),
		split(worker.AlgSSMS, 9, 3, 2), split(worker.AlgSSMS, 300, 5, 4),
		refused(worker.AlgShamir, 0, 3, 2), refused(worker.AlgSSMS, 9, 2, 3), refused("sss", 9, 3, 2),
		{"combine the last", func(s *state, i int) string {
			if len(s.done) == 0 {
				return ""
			}
			m := s.done[len(s.done)-1]
			got, err := s.w.Combine(m.alg, cloneAll(m.sh[:m.k]), m.n, m.k)
			if err != nil || !bytes.Equal(got, m.secret) {
				return fmt.Sprintf("gives %s, %v", short(got), err)
			}
			return ""
		}},
		{"combine under the other name", func(s *state, i int) string {
			if len(s.done) == 0 {
				return ""
			}
			m := s.done[len(s.done)-1]
			other := worker.AlgShamir
			if m.alg == other {
				other = worker.AlgSSMS
			}
			got, err := s.w.Combine(other, cloneAll(m.sh[:m.k]), m.n, m.k)
			if err == nil && bytes.Equal(got, m.secret) {
				return "gives the secret"
			}
			return ""
		}},
		{"refused Combine", func(s *state, i int) string {
			if _, err := s.w.Combine(worker.AlgShamir, [][]byte{{1, 2}, {1, 2}}, 2, 2); err == nil {
				return "duplicates accepted"
			}
			if _, err := s.w.Combine("", nil, 2, 2); err == nil {
				return "empty name accepted"
			}
			return ""
		}},
	}
	depth := 4
	if c.thorough {
		depth = 5
	}
	for a := range reqs {
		for b := range reqs {
			a, b := a, b
			c.Case(func() string {
				return fmt.Sprintf("%s; %s; then every request to depth %d", reqs[a].name, reqs[b].name, depth)
			}, func() string {
				var rec func(q []int) string
				rec = func(q []int) string {
					if len(q) < depth {
						for k := range reqs {
							if m := rec(append(append([]int(nil), q...), k)); m != "" {
								return m
							}
						}
						return ""
					}
					c.fresh(c.seed)
					s := &state{w: worker.NewWorker()}
					var names []string
					for i, k := range q {
						names = append(names, reqs[k].name)
						if m := reqs[k].f(s, i); m != "" {
							return fmt.Sprintf("%v: %s", names, m)
						}
					}
					w2 := worker.NewWorker()
					var own [][]byte
					for _, m := range s.done {
						got, err := w2.Combine(m.alg, cloneAll(m.sh[m.n-m.k:]), m.n, m.k)
						if err != nil || !bytes.Equal(got, m.secret) {
							return fmt.Sprintf("%v: another worker combines the %s shares to %s, %v", names, m.alg, short(got), err)
						}
						if m.alg == worker.AlgShamir {
							if x := combineIs(m.sh, upto(m.k), m.secret); x != "" {
								return fmt.Sprintf("%v: %s", names, x)
							}
						} else if x := ssmsIs(cloneAll(m.sh[:m.k]), "first k", m.n, m.k, m.secret); x != "" {
							return fmt.Sprintf("%v: %s", names, x)
						}
						own = append(own, ownBytes(m.sh, m.n, m.k, m.alg == worker.AlgSSMS))
					}
					if m := repeated(own); m != "" {
						return fmt.Sprintf("%v: %s", names, m)
					}
					c.Eval(1)
					c.Distinct(hash(fmt.Sprint(q)))
					return ""
				}
				return rec([]int{a, b})
			})
		}
	}
}
