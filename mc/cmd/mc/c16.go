package main

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C16", "calls", c16Calls)
	reg("C16", "deep", c16Deep)
	reg("C16", "sharedgen", c16SharedGen)
	reg("C16", "parallel", c16Parallel)
	reg("C16", "three", c16Three)
	reg("C16", "races", c16Races)
	reg("C16", "crowd", c16Crowd)
	reg("C16", "large", c16Large)
	reg("C19", "sequences", c19Sequences)
	reg("C19", "capacity", c19Capacity)
	reg("C19", "schedules", c19Schedules)
}

// call is one concurrent call: run performs it, check judges its result after
// the execution, fresh returns the random bytes that must be its own.
type call struct {
	name string
	mk   func(env *callEnv, id int) (run func(), check func() string, fresh func() []byte)
}

// callEnv is shared by the calls of one execution.
type callEnv struct {
	g *csprng.CSPRNG
	w worker.Worker
}

func newEnv() *callEnv { return &callEnv{g: newGen(), w: worker.NewWorker()} }

func splitCall(v variant, N, n, t int) call {
	name := fmt.Sprintf("%s(%d bytes, %d, %d)", v.name, N, n, t)
	ssms := v.name[:2] == "kr"
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		secret := secretOf(N, 100+id)
		keep := clone(secret)
		var sh [][]byte
		var err error
		return func() { sh, err = v.f(secret, n, t, env.g) },
			func() string {
				if err != nil {
					return fmt.Sprintf("%s failed: %v", name, err)
				}
				if !bytes.Equal(secret, keep) {
					return name + " modified its secret"
				}
				if ssms {
					if len(sh) != n {
						return fmt.Sprintf("%s gives %d shares", name, len(sh))
					}
					for _, s := range someSubsets(n, t) {
						if m := ssmsIs(cloneAll(pick(sh, s)), s, n, t, secret); m != "" {
							return name + ": " + m
						}
					}
					return ""
				}
				if m := ref.CheckSharing(secret, sh, n, t); m != "" {
					return name + ": " + m
				}
				return ""
			},
			func() []byte { return ownBytes(sh, n, t, ssms) }
	}}
}

// ownBytes is the random material of a sharing: the coefficients, and the key
// of an SSMS sharing.
func ownBytes(sh [][]byte, n, t int, ssms bool) []byte {
	var o []byte
	if ssms {
		meta := make([][]byte, len(sh))
		for i := range sh {
			meta[i] = sh[i][:21]
		}
		key, _ := ref.SSMSMeta(sh)
		o = append(o, key...)
		sh = meta
	}
	cs := ref.Coefs(sh, t)
	for i := 1; i < len(cs); i++ {
		r := cs[i]
		o = append(o, r...)
	}
	return o
}

func combineCall(N, n, t int) call {
	name := fmt.Sprintf("Combine(%d bytes, %d shares)", N, t)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		secret := secretOf(N, 200+id)
		sh, err := shamir.Split(secret, n, t)
		if err != nil {
			panic(err)
		}
		in := sh[n-t:]
		keep := cloneAll(in)
		var got []byte
		return func() { got, err = shamir.Combine(in) },
			func() string {
				if err != nil {
					return fmt.Sprintf("%s failed: %v", name, err)
				}
				if !bytes.Equal(got, secret) {
					return fmt.Sprintf("%s gives %s instead of %s", name, short(got), short(secret))
				}
				for i := range in {
					if !bytes.Equal(in[i], keep[i]) {
						return name + " modified a share"
					}
				}
				return ""
			}, nil
	}}
}

func ssmsCombineCall(N, n, t int) call {
	name := fmt.Sprintf("krawczyk.Combine(%d bytes, %d shares)", N, t)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		secret := secretOf(N, 300+id)
		sh, err := krawczyk.Split(secret, n, t)
		if err != nil {
			panic(err)
		}
		in := sh[n-t:]
		var got []byte
		return func() { got, err = krawczyk.Combine(in, n, t) },
			func() string {
				if err != nil {
					return fmt.Sprintf("%s failed: %v", name, err)
				}
				if !bytes.Equal(got, secret) {
					return fmt.Sprintf("%s gives %s instead of %s", name, short(got), short(secret))
				}
				return ""
			}, nil
	}}
}

func regenerateCall(N, t, m int) call {
	name := fmt.Sprintf("Regenerate(%d bytes, %d shares, %d more)", N, t, m)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		secret := secretOf(N, 400+id)
		sh, err := shamir.Split(secret, t+1, t)
		if err != nil {
			panic(err)
		}
		var more [][]byte
		return func() { more, err = shamir.Regenerate(sh[:t], m) },
			func() string {
				if err != nil {
					return fmt.Sprintf("%s failed: %v", name, err)
				}
				if len(more) != m {
					return fmt.Sprintf("%s gives %d shares", name, len(more))
				}
				used := map[byte]bool{0: true}
				for _, x := range ref.Tags(sh[:t]) {
					used[x] = true
				}
				for _, s := range more {
					if len(s) != N+1 {
						return name + ": share of wrong length"
					}
					x := s[N]
					if used[x] {
						return fmt.Sprintf("%s uses the tag %d twice", name, x)
					}
					used[x] = true
					if !bytes.Equal(ref.InterpAt(ref.Tags(sh[:t]), ref.Bodies(sh[:t]), x), s[:N]) {
						return name + ": a new share is not on the polynomial"
					}
				}
				return ""
			}, nil
	}}
}

func workerCall(alg string, N, n, t int) call {
	name := fmt.Sprintf("Worker %s(%d bytes, %d, %d)", alg, N, n, t)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		secret := secretOf(N, 500+id)
		var sh [][]byte
		var got []byte
		var err error
		return func() {
				if sh, err = env.w.Split(alg, secret, n, t); err == nil {
					got, err = env.w.Combine(alg, cloneAll(sh[n-t:]), n, t)
				}
			},
			func() string {
				if err != nil {
					return fmt.Sprintf("%s failed: %v", name, err)
				}
				if !bytes.Equal(got, secret) {
					return fmt.Sprintf("%s gives %s back instead of %s", name, short(got), short(secret))
				}
				if alg == worker.AlgShamir {
					return ref.CheckSharing(secret, sh, n, t)
				}
				return ""
			},
			func() []byte { return ownBytes(sh, n, t, alg != worker.AlgShamir) }
	}}
}

func readCall(N, times int) call {
	name := fmt.Sprintf("%d Reads of %d bytes", times, N)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		var out []byte
		bad := ""
		return func() {
				for k := 0; k < times; k++ {
					b := bytes.Repeat([]byte{byte(id*16 + k)}, N)
					n, err := env.g.Read(b)
					if n != N || err != nil {
						bad = fmt.Sprintf("Read returns %d, %v", n, err)
					}
					out = append(out, b...)
				}
			}, func() string { return bad },
			func() []byte { return out }
	}}
}

func permCall(n int) call {
	name := fmt.Sprintf("Perm(%d)", n)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		var p []byte
		return func() { p = env.g.Perm(byte(n)) }, func() string { return checkPerm(permFns[0], n, p) }, nil
	}}
}

func uniqueCall(n int) call {
	name := fmt.Sprintf("GetUniqueBytes(%d)", n)
	return call{name, func(env *callEnv, id int) (func(), func() string, func() []byte) {
		var p []byte
		return func() { p = env.g.GetUniqueBytes(byte(n)) }, func() string { return checkPerm(permFns[2], n, p) }, nil
	}}
}

// repeated finds 6 consecutive bytes that occur twice in the given random
// material (the default tape never repeats 6 bytes within the lengths used).
func repeated(parts [][]byte) string {
	type at struct{ part, pos int }
	seen := map[uint64]at{}
	for p, b := range parts {
		for i := 0; i+6 <= len(b); i++ {
			k := uint64(b[i]) | uint64(b[i+1])<<8 | uint64(b[i+2])<<16 | uint64(b[i+3])<<24 | uint64(b[i+4])<<32 | uint64(b[i+5])<<40
			if o, ok := seen[k]; ok {
				return fmt.Sprintf("the random bytes %x were used twice: call %d position %d, call %d position %d", b[i:i+6], o.part, o.pos, p, i)
			}
			seen[k] = at{p, i}
		}
	}
	return ""
}

// warm fills the buffer pools with recycled, dirty buffers of several sizes.
func warm() {
	for _, N := range []int{40, 3, 12} {
		for _, v := range shamirVariants {
			sh, err := v.f(bytes.Repeat([]byte{0xee}, N), 3, 3, newGen())
			if err != nil {
				panic(err)
			}
			if _, err := shamir.Combine(sh); err != nil {
				panic(err)
			}
		}
	}
}

func concurrent(calls []call, warmed bool, bound, visitCap, seconds int) Scenario {
	name := ""
	for i, k := range calls {
		if i > 0 {
			name += " | "
		}
		name += k.name
	}
	if warmed {
		name += " (recycled buffers)"
	}
	return Scenario{Name: name, Bound: bound, VisitCap: visitCap, Seconds: seconds,
		Start: func() ([]func(), func() string) {
			if warmed {
				warm()
			}
			env := newEnv()
			var runs []func()
			var checks []func() string
			var fresh []func() []byte
			for i, k := range calls {
				r, ch, fr := k.mk(env, i)
				runs, checks, fresh = append(runs, r), append(checks, ch), append(fresh, fr)
			}
			return runs, func() string {
				for _, ch := range checks {
					if m := ch(); m != "" {
						return m
					}
				}
				var own [][]byte
				for _, f := range fresh {
					if f != nil {
						own = append(own, f())
					}
				}
				if m := repeated(own); m != "" {
					return m
				}
				return ""
			}
		}}
}

func (c *Ctx) secs(quick, thorough int) int {
	if c.thorough {
		return thorough
	}
	return quick
}

func byName(n string) variant {
	for _, v := range allVariants {
		if v.name == n {
			return v
		}
	}
	panic(n)
}

func c16Small() []call {
	return []call{
		splitCall(byName("Split"), 9, 3, 2),
		splitCall(byName("SplitWithRandomizer"), 9, 3, 2),
		splitCall(byName("SplitWithRandomizerOld"), 9, 3, 2),
		splitCall(byName("SplitGeneric"), 9, 3, 2),
		splitCall(byName("SplitP"), 9, 3, 2),
		splitCall(byName("krawczyk.Split"), 9, 3, 2),
		splitCall(byName("krawczyk.SplitWithRandomizer"), 9, 3, 2),
		combineCall(4, 3, 2),
		ssmsCombineCall(9, 3, 2),
		regenerateCall(3, 2, 1),
	}
}

// c16Races: the executions the other parts make, fewer preemptions, under the
// race detector: whatever order two calls run in, every access of one to
// memory the other writes must be ordered by synchronisation.
func c16Races(c *Ctx) {
	b, s := c.secs(0, 1), c.secs(10, 40)
	small := append(c16Small(), readCall(9, 2), permCall(5), uniqueCall(5), constructCall(),
		workerCall(worker.AlgShamir, 8, 3, 2), workerCall(worker.AlgSSMS, 8, 3, 2), fieldCall())
	for i := range small {
		for j := 0; j <= i; j++ {
			for _, w := range []bool{false, true} {
				c.Explore(concurrent([]call{small[i], small[j]}, w, 1, 1, s))
			}
		}
	}
	p := func(N, n, t int) call { return splitCall(byName("SplitP"), N, n, t) }
	c.Explore(concurrent([]call{p(1030, 2, 2)}, true, 1, 1, s))
	c.Explore(concurrent([]call{p(4100, 3, 2)}, false, b, 1, s))
	c.Explore(concurrent([]call{p(2049, 3, 2)}, true, b, 1, s))
	c.Explore(concurrent([]call{p(1030, 2, 2), p(1026, 2, 2)}, false, b, 1, s))
	for _, v := range []string{"Split", "SplitWithRandomizer", "SplitWithRandomizerOld", "SplitGeneric", "krawczyk.Split"} {
		c.Explore(concurrent([]call{splitCall(byName(v), 1500, 3, 2), splitCall(byName(v), 1100, 2, 2)}, true, b, 1, s))
		c.Explore(concurrent([]call{splitCall(byName(v), 70000, 3, 2), splitCall(byName(v), 66000, 2, 2)}, true, 0, 1, s))
	}
	c.Explore(concurrent([]call{combineCall(70000, 3, 2), combineCall(66000, 4, 3)}, true, b, 1, s))
	c.Explore(concurrent([]call{ssmsCombineCall(70000, 3, 2), ssmsCombineCall(66000, 4, 3)}, true, b, 1, s))
	c.Explore(concurrent([]call{regenerateCall(2000, 3, 2), regenerateCall(3000, 2, 2)}, true, b, 1, s))
	sp := splitCall(byName("Split"), 8, 2, 2)
	c.Explore(concurrent([]call{sp, sp, sp}, true, 1, 1, s))
	c.Explore(concurrent([]call{small[0], small[7], small[9]}, true, 1, 1, s))
}

// constructCall makes new generators, randomizers and workers.
func constructCall() call {
	return call{"constructors", func(env *callEnv, id int) (func(), func() string, func() []byte) {
		a, b := make([]byte, 16), make([]byte, 16)
		var p []byte
		return func() {
				csprng.NewCSPRNG().Read(a)
				r := randomizer.NewRandomizer()
				p = r.Perm(5)
				w := worker.NewWorker()
				_ = w
			}, func() string {
				return checkPerm(permFns[0], 5, p)
			}, func() []byte { return append(a, b[:0]...) }
	}}
}

// fieldCall uses the field operations.
func fieldCall() call {
	return call{"field operations", func(env *callEnv, id int) (func(), func() string, func() []byte) {
		v := secretOf(40, id)
		in := clone(v)
		var x, e, d byte
		var m []byte
		return func() {
				x, e, d = galois.GalMultiply(byte(id)+3, 77), galois.GalExp(5, 3), galois.GalDivide(200, byte(id)+7)
				m = galois.MulConstVector(byte(id)+2, in)
				galois.AddVector(v, m)
			}, func() string {
				if x != ref.Mul(byte(id)+3, 77) || d != ref.Mul(200, ref.Inv(byte(id)+7)) || e != ref.Mul(ref.Mul(5, 5), 5) {
					return "wrong field results"
				}
				for i := range v {
					if m[i] != ref.Mul(v[i], byte(id)+2)^v[i] {
						return "wrong vector result"
					}
				}
				return ""
			}, nil
	}}
}

// c16Calls: every pair of calls, from cold and from recycled buffers.
func c16Calls(c *Ctx) {
	small := c16Small()
	for i := range small {
		for j := 0; j <= i; j++ {
			for _, w := range []bool{false, true} {
				c.Explore(concurrent([]call{small[i], small[j]}, w, 1, 12, c.secs(20, 60)))
			}
		}
	}
	if !c.thorough {
		return
	}
	for i := range small {
		for j := 0; j <= i; j++ {
			for _, w := range []bool{false, true} {
				c.Explore(concurrent([]call{small[i], small[j]}, w, 2, 2, 60))
			}
		}
	}
}

// c16Deep: two preemptions for the calls that share the most state.
func c16Deep(c *Ctx) {
	pairs := [][2]call{
		{splitCall(byName("Split"), 8, 2, 2), splitCall(byName("Split"), 8, 2, 2)},
		{splitCall(byName("SplitWithRandomizer"), 8, 2, 2), splitCall(byName("SplitWithRandomizer"), 8, 2, 2)},
		{splitCall(byName("SplitWithRandomizer"), 8, 3, 3), splitCall(byName("Split"), 12, 2, 2)},
		{splitCall(byName("SplitWithRandomizerOld"), 8, 2, 2), splitCall(byName("SplitWithRandomizerOld"), 8, 2, 2)},
		{splitCall(byName("Split"), 8, 2, 2), combineCall(2, 2, 2)},
		{combineCall(2, 2, 2), combineCall(3, 2, 2)},
	}
	cp := c.secs(1, 3)
	for _, p := range pairs {
		for _, w := range []bool{false, true} {
			c.Explore(concurrent(p[:], w, 2, cp, c.secs(20, 90)))
		}
	}
}

// c16SharedGen: one generator or worker used from several goroutines.
func c16SharedGen(c *Ctx) {
	two := func(b int, a ...call) { c.Explore(concurrent(a, false, b, 6, c.secs(20, 90))) }
	d := c.secs(1, 2)
	two(3+d, readCall(8, 1), readCall(8, 1))
	two(2+d, readCall(8, 2), readCall(17, 2))
	two(2+d, readCall(8, 1), readCall(16, 1), readCall(7, 1))
	two(1+d, readCall(8, 1), permCall(4), readCall(9, 1))
	two(1+d, readCall(8, 1), uniqueCall(3), readCall(9, 1))
	two(1+d, permCall(5), permCall(21))
	two(1+d, uniqueCall(5), uniqueCall(20))
	two(1+d, splitCall(byName("SplitWithRandomizer"), 8, 3, 2), readCall(9, 2))
	two(1, splitCall(byName("SplitWithRandomizer"), 8, 3, 2), splitCall(byName("SplitWithRandomizerOld"), 8, 3, 2), readCall(9, 1))
	two(1+d, workerCall(worker.AlgShamir, 8, 3, 2), workerCall(worker.AlgShamir, 8, 3, 2))
	two(1, workerCall(worker.AlgSSMS, 8, 3, 2), workerCall(worker.AlgShamir, 8, 3, 2))
	two(1, workerCall(worker.AlgSSMS, 8, 3, 2), workerCall(worker.AlgSSMS, 8, 3, 2))
}

// c16Parallel: the internally parallel split, alone and next to others.
func c16Parallel(c *Ctx) {
	p := func(N, n, t int) call { return splitCall(byName("SplitP"), N, n, t) }
	s := c.secs(20, 90)
	b := c.secs(1, 2)
	c.Explore(concurrent([]call{p(1030, 2, 2)}, false, b, 2, s))
	c.Explore(concurrent([]call{p(1030, 2, 2)}, true, b, 2, s))
	c.Explore(concurrent([]call{p(2049, 3, 2)}, false, 1, 2, s))
	c.Explore(concurrent([]call{p(2050, 2, 2)}, true, 1, 2, s))
	c.Explore(concurrent([]call{p(3100, 2, 2)}, false, 1, 1, s))
	c.Explore(concurrent([]call{p(1030, 2, 2), splitCall(byName("Split"), 9, 2, 2)}, true, 1, 1, s))
	// two of them: every order in which the goroutines run to completion
	c.Explore(concurrent([]call{p(1030, 2, 2), p(1026, 2, 2)}, false, c.secs(0, 1), 1, c.secs(20, 180)))
	c.Explore(concurrent([]call{p(1024, 2, 2), p(1025, 2, 2)}, true, 1, 1, s))
	// enough text for several blocks of every other split
	for _, v := range []string{"Split", "SplitWithRandomizer", "SplitWithRandomizerOld", "SplitGeneric", "krawczyk.Split"} {
		c.Explore(concurrent([]call{splitCall(byName(v), 1500, 3, 2), splitCall(byName(v), 1100, 2, 2)}, true, 1, 1, s))
	}
}

// c16Crowd: more calls at once than there are processors, all of them stopped
// at every point together.
func c16Crowd(c *Ctx) {
	kinds := append(c16Small(), readCall(9, 2), permCall(5), uniqueCall(5), constructCall(),
		workerCall(worker.AlgShamir, 8, 3, 2), workerCall(worker.AlgSSMS, 8, 3, 2), splitCall(byName("SplitP"), 1030, 2, 2))
	crowd := func(calls []call, warmed bool, cp int) {
		sc := concurrent(calls, warmed, 0, cp, c.secs(20, 60))
		sc.Name = fmt.Sprintf("%d at once: %s", len(calls), sc.Name)
		sc.Crowd = true
		c.Explore(sc)
	}
	size := []int{4, 17}
	if c.thorough {
		size = []int{4, 9, 17, 33, 65}
	}
	for _, k := range kinds {
		for _, m := range size {
			calls := make([]call, m)
			for i := range calls {
				calls[i] = k
			}
			crowd(calls, m%2 == 1, 3)
		}
	}
	for _, m := range size {
		calls := make([]call, m)
		for i := range calls {
			calls[i] = kinds[i%len(kinds)]
		}
		crowd(calls, false, 3)
		crowd(calls, true, 3)
	}
}

// c16Large: calls on large data, interleaved where they synchronise.
func c16Large(c *Ctx) {
	run := func(calls []call, warmed bool, bound int, crowd bool) {
		sc := concurrent(calls, warmed, bound, -1, c.secs(30, 120))
		sc.Name = "at synchronisation: " + sc.Name
		sc.MaxSteps = 1 << 30
		sc.Crowd = crowd
		if crowd {
			sc.Name = fmt.Sprintf("%d at once %s", len(calls), sc.Name)
		}
		c.Explore(sc)
	}
	kinds := func(N int) (o []call) {
		for _, v := range allVariants {
			if v.name == "SplitP" {
				continue
			}
			o = append(o, splitCall(v, N, 3, 2))
		}
		return append(o, combineCall(N, 3, 2), ssmsCombineCall(N, 3, 2), regenerateCall(N, 2, 1), readCall(N, 2),
			workerCall(worker.AlgShamir, N, 3, 2), workerCall(worker.AlgSSMS, N, 3, 2))
	}
	lens := []int{9001, 33001, 131075}
	if c.thorough {
		lens = append(lens, 5000, 17000, 70001, 300007, 600011, 1<<20+3)
	}
	for _, N := range lens {
		ks := kinds(N)
		for i, k := range ks {
			bound := 1
			if c.thorough && N < 100000 {
				bound = 2
			}
			run([]call{k, k}, i%2 == 1, bound, false)
			if N < 100000 || c.thorough {
				run([]call{k, ks[(i+1)%len(ks)]}, i%2 == 0, 1, false)
			}
		}
	}
	for i, k := range kinds(9001) {
		m := 17
		calls := make([]call, m)
		for j := range calls {
			calls[j] = k
		}
		run(calls, i%2 == 0, 0, true)
	}
	for _, N := range []int{9001, 17000} {
		p := splitCall(byName("SplitP"), N, 2, 2)
		run([]call{p}, false, 0, true)
		run([]call{p, splitCall(byName("Split"), 9, 2, 2)}, true, 0, true)
	}
}

func c16Three(c *Ctx) {
	s := c.secs(20, 90)
	sp := splitCall(byName("Split"), 8, 2, 2)
	sw := splitCall(byName("SplitWithRandomizer"), 9, 2, 2)
	for _, w := range []bool{false, true} {
		c.Explore(concurrent([]call{sp, sp, sp}, w, 1, 3, s))
		c.Explore(concurrent([]call{sp, sw, sw}, w, 1, 3, s))
		c.Explore(concurrent([]call{sp, combineCall(2, 2, 2), sw}, w, 1, 3, s))
		c.Explore(concurrent([]call{sp, regenerateCall(2, 2, 1), splitCall(byName("krawczyk.Split"), 5, 2, 2)}, w, 1, 2, s))
		if c.thorough {
			c.Explore(concurrent([]call{sp, sp, sp}, w, 2, 1, s))
		}
	}
}

// ---- C19 ----

// poolRun drives the real pool next to the model: the set of buffers put back
// and not handed out since, and the set of buffers in somebody's hands.
type poolRun struct {
	p    *utils.BytesBufferPool
	held []*bytes.Buffer
	idle []*bytes.Buffer
	cap  int
}

func (r *poolRun) get() string {
	b := r.p.Get()
	if b == nil {
		return "Get returns nil"
	}
	for _, h := range r.held {
		if h == b {
			return "Get hands out a buffer that is still held"
		}
	}
	for i, x := range r.idle {
		if x == b {
			r.idle = append(append([]*bytes.Buffer{}, r.idle[:i]...), r.idle[i+1:]...)
			break
		}
	}
	r.held = append(r.held, b)
	return ""
}

func (r *poolRun) put(i int) {
	b := r.held[i]
	r.held = append(append([]*bytes.Buffer{}, r.held[:i]...), r.held[i+1:]...)
	r.p.Put(b)
	r.idle = append(r.idle, b)
}

// drain takes everything out: at most cap put-back buffers may come back, each
// once, and the rest are new ones.
func (r *poolRun) drain(n int) string {
	back := 0
	for k := 0; k < n; k++ {
		before := len(r.idle)
		if m := r.get(); m != "" {
			return m
		}
		if len(r.idle) < before {
			back++
		}
	}
	if back > r.cap {
		return fmt.Sprintf("%d idle buffers were kept, capacity %d", back, r.cap)
	}
	return ""
}

// c19Sequences: every sequence of Get and Put(i-th held buffer).
func c19Sequences(c *Ctx) {
	depth := 12
	if c.thorough {
		depth = 14
	}
	for _, size := range []int{1, 2, 3} {
		for first := 0; first < 2; first++ {
			for second := 0; second < 2; second++ {
				size, first, second := size, first, second
				c.Case(func() string {
					return fmt.Sprintf("capacity %d, %d and %d buffers out first, then every sequence to depth %d", size, first+1, second+1, depth)
				}, func() string {
					states := map[uint64]struct{}{}
					var rec func(ops []int) string
					// ops: -1 is Get, i >= 0 puts the i-th held buffer back
					run := func(ops []int) (*poolRun, string) {
						r := &poolRun{p: utils.NewBytesBufferPool(size), cap: size}
						for k, o := range ops {
							if o < 0 {
								if m := r.get(); m != "" {
									return nil, fmt.Sprintf("step %d of %v: %s", k, ops, m)
								}
							} else {
								r.put(o)
							}
						}
						c.res.Trans += len(ops)
						return r, ""
					}
					rec = func(ops []int) string {
						r, m := run(ops)
						if m != "" {
							return m
						}
						held, idle := len(r.held), len(r.idle)
						c.res.Scheds++
						states[hash(size, held, idle)] = struct{}{}
						c.Distinct(hash(size, fmt.Sprint(ops)))
						if m := r.drain(idle + 2); m != "" {
							return fmt.Sprintf("after %v: %s", ops, m)
						}
						if len(ops) == depth {
							return ""
						}
						if held < 4 {
							if m := rec(append(append([]int{}, ops...), -1)); m != "" {
								return m
							}
						}
						for i := 0; i < held; i++ {
							if m := rec(append(append([]int{}, ops...), i)); m != "" {
								return m
							}
						}
						return ""
					}
					pre := []int{-1}
					if first == 1 {
						pre = append(pre, -1)
					}
					pre = append(pre, 0, -1)
					if second == 1 {
						pre = append(pre, -1)
					}
					m := rec(pre)
					c.res.States += len(states)
					return m
				})
			}
		}
	}
}

// c19Capacity: what any constructor argument means.
func c19Capacity(c *Ctx) {
	for _, size := range []int{-1 << 62, -1000, -2, -1, 0, 1, 2, 3, 7, 64, 1000} {
		size := size
		c.Case(func() string { return fmt.Sprintf("NewBytesBufferPool(%d)", size) }, func() string {
			r := &poolRun{p: utils.NewBytesBufferPool(size), cap: size}
			if size <= 0 {
				r.cap = 1 << 30
			}
			n := 1
			if size > 0 {
				n = 2*size + 3
			}
			for k := 0; k < n; k++ {
				if m := r.get(); m != "" {
					return m
				}
			}
			for len(r.held) > 0 {
				r.put(len(r.held) - 1)
			}
			if size <= 0 {
				// the default capacity is positive: one buffer comes back
				b := r.idle[0]
				if r.p.Get() != b {
					return "nothing is kept under the default capacity"
				}
				c.Distinct(hash("default", size))
				return ""
			}
			c.res.Trans += 4 * n
			c.res.States += n
			c.res.Scheds++
			c.Distinct(hash("cap", size))
			return r.drain(n + 2)
		})
	}
}

// c19Schedules: goroutines that get, hold, and put buffers.
func c19Schedules(c *Ctx) {
	type script string // g: get, p: put the oldest, q: put the newest, P: put the oldest with a big capacity
	big := make([]byte, 3<<20)
	sets := [][]script{
		{"gp", "gp"}, {"gpgp", "gpgp"}, {"ggpp", "gpg"}, {"ggqq", "gqgq"}, {"ggpgp", "gpgqg"},
		{"gp", "gp", "gp"}, {"gpg", "ggpp", "gp"}, {"gpgp", "gpgp", "gpgp"}, {"ggpqg", "gpg", "gpgp"},
		{"gP", "gp"}, {"gPgP", "gPgp"}, {"ggPP", "gPg"}, {"gP", "gPgP", "gp"},
	}
	for _, size := range []int{1, 2} {
		for pre := 0; pre <= 2; pre++ {
			for _, set := range sets {
				size, pre, set := size, pre, set
				bound := c.secs(4, 6)
				if len(set) > 2 {
					bound = c.secs(3, 4)
				}
				c.Explore(Scenario{
					Name:  fmt.Sprintf("capacity %d, %d idle, goroutines %v", size, pre, set),
					Bound: bound, Seconds: c.secs(5, 60),
					Start: func() ([]func(), func() string) {
						p := utils.NewBytesBufferPool(size)
						owner := map[*bytes.Buffer]int{} // 0: not handed out
						puts := map[*bytes.Buffer]int{}  // times put back, minus times handed out again
						known := map[*bytes.Buffer]bool{}
						bad := ""
						fail := func(f string, a ...interface{}) {
							if bad == "" {
								bad = fmt.Sprintf(f, a...)
							}
						}
						took := func(id int, b *bytes.Buffer) {
							switch {
							case b == nil:
								fail("Get returns nil")
								return
							case owner[b] != 0:
								fail("a buffer held by goroutine %d is handed to goroutine %d", owner[b], id)
							case known[b] && puts[b] <= 0:
								fail("a buffer is handed out more often than it was put back")
							}
							if known[b] {
								puts[b]--
							}
							known[b] = true
							owner[b] = id
						}
						give := func(b *bytes.Buffer) {
							owner[b] = 0
							puts[b]++
							p.Put(b)
						}
						var first []*bytes.Buffer
						for k := 0; k < pre; k++ {
							b := p.Get()
							took(99, b)
							first = append(first, b)
						}
						for _, b := range first {
							give(b)
						}
						var bodies []func()
						for id, sc := range set {
							id, sc := id+1, sc
							bodies = append(bodies, func() {
								var mine []*bytes.Buffer
								for _, o := range sc {
									switch o {
									case 'g':
										b := p.Get()
										took(id, b)
										mine = append(mine, b)
									case 'p', 'P':
										b := mine[0]
										if o == 'P' {
											*b = *bytes.NewBuffer(big[:7:len(big)])
										}
										mine = mine[1:]
										give(b)
									case 'q':
										b := mine[len(mine)-1]
										mine = mine[:len(mine)-1]
										give(b)
									}
								}
							})
						}
						return bodies, func() string {
							if bad != "" {
								return bad
							}
							// the pool still obeys its capacity
							back := 0
							for k := 0; k < 12; k++ {
								b := p.Get()
								if known[b] {
									back++
								}
								took(100, b)
							}
							if bad != "" {
								return "afterwards: " + bad
							}
							if back > size {
								return fmt.Sprintf("afterwards %d idle buffers come out, capacity %d", back, size)
							}
							return ""
						}
					}})
			}
		}
	}
}
