package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C04", "far", c04Far)
	reg("C09", "large", c09Large)
	reg("C15", "entropy", c15Entropy)
	reg("C17", "objects", c17Objects)
	reg("C19", "sizes", c19Sizes)
	reg("C20", "long", c20Long)
	reg("C21", "large", c21Large)
	reg("C21", "longer", c21Longer)
}

// c15Entropy: n! orderings need log2(n!) random bits: the bytes of the stream
// that decide the permutation must be enough of them.
func c15Entropy(c *Ctx) {
	masks := []byte{0xff, 0x01, 0x02, 0x55, 0x2b, 0x80}
	for _, f := range permFns[:2] {
		for n := 2; n <= 255; n++ {
			f, n := f, n
			c.Case(func() string { return fmt.Sprintf("%s(%d): random bytes that decide the ordering", f.name, n) }, func() string {
				need, _ := math.Lgamma(float64(n + 1))
				need /= math.Ln2
				run := func(s uint64, stream byte, pos int, mask byte) []byte {
					tape.Reset(c.seed + s)
					tape.AES.Shared = true
					p := f.mk()
					hit := func(o int) byte {
						if o == pos {
							return mask
						}
						return 0
					}
					switch stream {
					case 'k':
						tape.AES.Flip = func(_, off uint64) byte { return hit(int(off)) }
					case 'c':
						tape.Crypto.Flip = hit
					case 'm':
						tape.Math.Flip = hit
					}
					return p(byte(n))
				}
				count := 0
				for _, stream := range []byte{'k', 'c', 'm'} {
					run(0, 0, 0, 0)
					top := used(stream)
					if top > 4096 {
						top = 4096
					}
					for pos := 0; pos < top; pos++ {
					tries:
						for s := uint64(0); s < 2; s++ {
							base := run(s, 0, 0, 0)
							for _, m := range masks {
								c.Eval(1)
								if !bytes.Equal(run(s, stream, pos, m), base) {
									count++
									break tries
								}
							}
						}
					}
				}
				c.Distinct(hash("entropy", f.name, n))
				if float64(8*count) < need {
					return fmt.Sprintf("%d random bytes decide the ordering: 2^%d of the %d! orderings at most", count, 8*count, n)
				}
				return ""
			})
		}
	}
}

// c19Sizes: buffers of many capacities, with and without contents, under full
// and empty pools.
func c19Sizes(c *Ctx) {
	var mem [8<<20 + 2]byte
	set := func(b *bytes.Buffer, size, fill int) {
		*b = *bytes.NewBuffer(mem[:fill:size])
	}
	sizes := []int{0, 1, 63, 64, 65}
	for k := uint(8); k <= 23; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, size := range []int{1, 2, 3, 5, 8, 40} {
		for i, a := range sizes {
			size, i, a := size, i, a
			c.Case(func() string {
				return fmt.Sprintf("capacity %d, buffers of %d bytes, alone and among others", size, a)
			}, func() string {
				for j := -1; j < len(sizes); j++ {
					for fill := 0; fill < 2; fill++ {
						r := &poolRun{p: utils.NewBytesBufferPool(size), cap: size}
						for round := 0; round < 2; round++ {
							n := size + 6
							for k := 0; k < n; k++ {
								if m := r.get(); m != "" {
									return m
								}
								s := a
								if j >= 0 && (k+i)%3 == 0 {
									s = sizes[j]
								}
								b := r.held[len(r.held)-1]
								set(b, s, fill*s/2)
							}
							for len(r.held) > 0 {
								r.put(0)
							}
							c.res.Trans += 2 * n
						}
						if m := r.drain(size + 8); m != "" {
							return m
						}
						c.res.Scheds++
						c.Eval(1)
					}
					c.Distinct(hash("sizes", size, a, j))
				}
				return ""
			})
		}
	}
	// every sequence of gets and puts, each put with one of three sizes
	depth := 7
	if c.thorough {
		depth = 9
	}
	for _, size := range []int{1, 2} {
		for _, third := range []int{1 << 12, 1 << 16, 1<<16 + 1, 1 << 20, 1<<20 + 1, 8 << 20} {
			size, third := size, third
			c.Case(func() string {
				return fmt.Sprintf("capacity %d, every sequence of gets and puts of 0, 64 and %d bytes to depth %d", size, third, depth)
			}, func() string {
				caps := []int{0, 64, third}
				var rec func(ops []int) string
				rec = func(ops []int) string {
					r := &poolRun{p: utils.NewBytesBufferPool(size), cap: size}
					for k := 0; k < size+1; k++ {
						if m := r.get(); m != "" {
							return m
						}
					}
					for k, o := range ops {
						if o < 0 {
							if m := r.get(); m != "" {
								return fmt.Sprintf("step %d of %v: %s", k, ops, m)
							}
						} else {
							i := o % 3 % len(r.held)
							set(r.held[i], caps[o/3], caps[o/3]/3)
							r.put(i)
						}
					}
					held := len(r.held)
					c.res.Trans += len(ops)
					c.res.Scheds++
					c.Distinct(hash("sizeseq", size, third, fmt.Sprint(ops)))
					if m := r.drain(size + 3); m != "" {
						return fmt.Sprintf("after %v: %s", ops, m)
					}
					if len(ops) == depth {
						return ""
					}
					next := append(append([]int{}, ops...), -1)
					if held < 4 {
						if m := rec(next); m != "" {
							return m
						}
					}
					for s := 0; s < 3; s++ {
						for i := 0; i < held && i < 2; i++ {
							next := append(append([]int{}, ops...), 3*s+i)
							if m := rec(next); m != "" {
								return m
							}
						}
					}
					return ""
				}
				m := rec(nil)
				c.Eval(1)
				return m
			})
		}
	}
}

// c20Long: long shares, where the columns repeat in several ways.
func c20Long(c *Ctx) {
	lens := []int{511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385,
		32767, 32768, 32769, 50000, 65535, 65536, 65537, 100000, 131071, 131072, 131073}
	if c.thorough {
		lens = append(lens, 1<<18-1, 1<<18+1, 1<<20, 1<<20+1, 1<<22+3)
	}
	sets := [][]byte{{1, 2}, {200, 3, 77}, {5, 255, 254, 1, 128}, {9, 8, 7, 6, 5, 4, 3, 2, 1}, {0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255}}
	contents := []struct {
		name string
		at   func(i, j, k, N int) byte // share i of k, position j of N
	}{
		{"varied", func(i, j, k, N int) byte { return byte((j*2654435761 + i*40503) >> 7) }},
		{"one share changes per position", func(i, j, k, N int) byte {
			if i == j%k {
				return byte(j/k*7 + 1)
			}
			return 0x5a
		}},
		{"only the last share changes", func(i, j, k, N int) byte {
			if i == k-1 {
				return byte(j>>8 ^ j*11)
			}
			return byte(i)
		}},
		{"only the first share changes", func(i, j, k, N int) byte {
			if i == 0 {
				return byte(j>>8 ^ j*13)
			}
			return byte(i)
		}},
		{"zero but for the ends", func(i, j, k, N int) byte {
			if j == 0 || j >= N-2 {
				return byte(i + j + 1)
			}
			return 0
		}},
		{"runs", func(i, j, k, N int) byte { return byte(j >> 6 * (i + 1)) }},
		{"period 32 with one exception in 997", func(i, j, k, N int) byte {
			if j%997 == 31 {
				return byte(j/997 + i)
			}
			return byte(j&31*5 + i)
		}},
		{"equal shares", func(i, j, k, N int) byte { return byte(j ^ j>>8) }},
	}
	for _, N := range lens {
		for _, tags := range sets {
			if len(tags) > 5 && N > 20000 && N&3 != 1 && !c.thorough {
				continue
			}
			for _, ct := range contents {
				N, tags, ct := N, tags, ct
				c.Case(func() string { return fmt.Sprintf("%d shares of %d bytes, %s", len(tags), N, ct.name) }, func() string {
					rows := make([][]byte, len(tags))
					for i := range rows {
						rows[i] = make([]byte, N)
						for j := range rows[i] {
							rows[i][j] = ct.at(i, j, len(tags), N)
						}
					}
					c.Distinct(hash("long", len(tags), N, ct.name))
					return combineIsInterp(tags, rows)
				})
			}
		}
	}
	// columns that resemble the ones before, or change their degree
	lens = []int{2, 60, 600, 1100, 2100}
	if c.thorough {
		lens = append(lens, 3, 7, 33, 257, 1025, 4100, 20000)
	}
	for _, tags := range likeTags {
		for _, N := range lens {
			for _, k := range likeColumns() {
				tags, N, k := tags, N, k
				c.Case(func() string { return fmt.Sprintf("%d shares of %d bytes: %s", len(tags), N, k.name) }, func() string {
					c.Distinct(hash("like", len(tags), N, k.name))
					return combineIsInterp(tags, k.rows(tags, N))
				})
			}
		}
	}
}

// c21Large: big requests through the worker.
func c21Large(c *Ctx) {
	lens := []int{2048, 4095, 4096, 4097, 10000, 16384, 16385, 32768, 65535, 65536, 65537, 100000, 131073, 200003, 300007, 600011, 1<<20 + 1, 1<<21 + 5, 1<<22 + 1}
	if c.thorough {
		lens = append(lens, 1<<23+1, 1<<24+1)
	}
	for _, p := range []struct {
		alg   string
		split variant
	}{{worker.AlgShamir, byName("SplitWithRandomizer")}, {worker.AlgSSMS, byName("krawczyk.SplitWithRandomizer")}} {
		for _, N := range lens {
			for _, g := range [][2]int{{2, 2}, {3, 2}, {5, 3}, {20, 7}, {1, 1}, {3, 4}, {256, 2}} {
				p, N, n, k := p, N, g[0], g[1]
				if (N > 1<<20 && n > 5 || N > 1<<21 && n == 5) && !c.thorough {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("Split %q, %d bytes, n=%d k=%d", p.alg, N, n, k) }, func() string {
					secret := secretOf(N, 7)
					w := worker.NewWorker()
					sh, err := w.Split(p.alg, clone(secret), n, k)
					want, werr := p.split.f(secret, n, k, newGen())
					c.Distinct(hash("large", p.alg, N, n, k))
					if (err != nil) != (werr != nil) {
						return fmt.Sprintf("worker says %v, the package says %v", err, werr)
					}
					if err != nil {
						return ""
					}
					if len(sh) != len(want) || len(sh[0]) != len(want[0]) {
						return fmt.Sprintf("%d shares of %d bytes instead of %d of %d", len(sh), len(sh[0]), len(want), len(want[0]))
					}
					if p.alg == worker.AlgShamir {
						if m := ref.CheckSharing(secret, sh, n, k); m != "" {
							return m
						}
						if got, err := shamir.Combine(cloneAll(sh[n-k:])); err != nil || !bytes.Equal(got, secret) {
							return fmt.Sprintf("the package combines the worker's shares to %s, %v", short(got), err)
						}
					} else if m := ssmsIs(cloneAll(sh[n-k:]), "the last k", n, k, secret); m != "" {
						return m
					}
					other := worker.NewWorker()
					for _, combine := range []func(string, [][]byte, int, int) ([]byte, error){w.Combine, other.Combine} {
						for _, list := range [][][]byte{sh[n-k:], sh, want[:k]} {
							got, err := combine(p.alg, cloneAll(list), n, k)
							if err != nil || !bytes.Equal(got, secret) {
								return fmt.Sprintf("a worker combines %d shares to %s, %v", len(list), short(got), err)
							}
						}
					}
					return ""
				})
			}
		}
	}
}

// c21Longer: lists of every length against counts of every size.
func c21Longer(c *Ctx) {
	counts := []int{-1 << 63, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 19, 20, 21, 40, 254, 255, 256, 257, 1000, 1<<63 - 1}
	for _, size := range [][2]int{{9, 3}, {20, 2}, {255, 4}} {
		for _, nn := range counts {
			size, nn := size, nn
			c.Case(func() string {
				return fmt.Sprintf("lists of up to %d shares (threshold %d), n=%d, every k", size[0], size[1], nn)
			}, func() string {
				secret := secretOf(37, 3)
				a, err := shamir.SplitWithRandomizer(secret, size[0], size[1], newGen())
				if err != nil {
					return err.Error()
				}
				b, err := krawczyk.SplitWithRandomizer(secret, size[0], size[1], newGen())
				if err != nil {
					return err.Error()
				}
				for m := 0; m <= size[0]; m++ {
					if m > 24 && m != 40 && m != 254 && m != 255 {
						continue
					}
					for _, k := range counts {
						w := worker.NewWorker()
						got, err := w.Combine(worker.AlgShamir, cloneAll(a[:m]), nn, k)
						want, werr := shamir.Combine(cloneAll(a[:m]))
						if (err != nil) != (werr != nil) || !bytes.Equal(got, want) {
							return fmt.Sprintf("%d shamir shares, k=%d: worker %s, %v; package %s, %v", m, k, short(got), err, short(want), werr)
						}
						got, err = w.Combine(worker.AlgSSMS, cloneAll(b[:m]), nn, k)
						want, werr = krawczyk.Combine(cloneAll(b[:m]), nn, k)
						if (err != nil) != (werr != nil) || !bytes.Equal(got, want) {
							return fmt.Sprintf("%d krawczyk shares, k=%d: worker %s, %v; package %s, %v", m, k, short(got), err, short(want), werr)
						}
						c.Eval(2)
						c.Distinct(hash("longer", size[0], nn, m, k))
					}
				}
				return ""
			})
		}
	}
}

// c09Large: every function takes secrets of every length that fits memory.
func c09Large(c *Ctx) {
	one := func(v variant, N, n, t int) string {
		c.Eval(1)
		c.Distinct(hash("large", v.name, N, n, t))
		secret := make([]byte, N)
		secret[0], secret[N-1] = 1, 2
		sh, err := v.f(secret, n, t, newGen())
		if err != nil {
			return fmt.Sprintf("%d bytes: %v", N, err)
		}
		if len(sh) != n {
			return fmt.Sprintf("%d bytes: %d shares", N, len(sh))
		}
		want := N + 1
		if v.name[0] == 'k' {
			want = 21 + (N+t-1)/t + 1
		}
		for _, s := range sh {
			if len(s) != want {
				return fmt.Sprintf("%d bytes: a share has %d bytes", N, len(s))
			}
		}
		return ""
	}
	for _, v := range allVariants {
		v := v
		small := 1100
		if c.thorough {
			small = 5000
		}
		for lo := 1; lo <= small; lo += 50 {
			lo := lo
			c.Case(func() string { return fmt.Sprintf("%s of %d..%d bytes", v.name, lo, lo+49) }, func() string {
				for N := lo; N < lo+50; N++ {
					for _, g := range [][2]int{{2, 2}, {3, 2}, {5, 5}, {7, 3}} {
						if m := one(v, N, g[0], g[1]); m != "" {
							return fmt.Sprintf("n=%d t=%d %s", g[0], g[1], m)
						}
					}
				}
				return ""
			})
		}
		top := uint(22)
		if c.thorough {
			top = 24
		}
		for k := uint(11); k <= top; k++ {
			k := k
			c.Case(func() string { return fmt.Sprintf("%s of about 2^%d bytes", v.name, k) }, func() string {
				for _, d := range []int{-1, 0, 1} {
					if m := one(v, 1<<k+d, 2, 2); m != "" {
						return "n=2 t=2 " + m
					}
				}
				if m := one(v, 1<<k+5, 4, 3); m != "" {
					return "n=4 t=3 " + m
				}
				return ""
			})
		}
		big := [][3]int{{1<<24 + 1, 2, 2}, {70000, 255, 255}, {1<<22 + 5, 6, 6}, {140000, 130, 129}}
		if c.thorough {
			big = append(big, [3]int{1<<25 + 1, 2, 2}, [3]int{1<<20 + 1, 255, 255}, [3]int{1<<23 + 1, 9, 9})
		}
		for _, g := range big {
			g := g
			if v.name[0] == 'k' && g[1] > 200 && !c.thorough {
				g[0] = 7000
			}
			c.Case(func() string { return fmt.Sprintf("%s of %d bytes n=%d t=%d", v.name, g[0], g[1], g[2]) }, func() string {
				return one(v, g[0], g[1], g[2])
			})
		}
	}
}

// c04Far: far into the stream of one generator, nothing that was delivered
// before comes again. Windows around many positions are kept and compared.
func c04Far(c *Ctx) {
	top := uint(33)
	if c.thorough {
		top = 35
	}
	for _, low := range []byte{0x11, 0xff} {
		low := low
		c.Case(func() string { return fmt.Sprintf("2^%d bytes from one generator, low IV bytes %#x", top, low) }, func() string {
			kv := clone(genKey)
			for i := 20; i < 32; i++ {
				kv[i] = low
			}
			g := csprng.NewCSPRNGWithKeyIV(kv)
			const W = 4096
			seen := map[uint64]int{}
			pos := 0
			buf := make([]byte, 1<<22)
			window := func() string {
				w := buf[:W]
				for i := range w {
					w[i] = 0
				}
				_, _ = g.Read(w)
				for i := 0; i+8 <= W; i++ {
					v := uint64(0)
					for j := 0; j < 8; j++ {
						v = v<<8 | uint64(w[i+j])
					}
					if at, dup := seen[v]; dup {
						return fmt.Sprintf("the bytes delivered at position %d were delivered at position %d before", pos+i, at)
					}
					seen[v] = pos + i
				}
				pos += W
				c.Eval(1)
				return ""
			}
			skip := func(to int) {
				for pos < to {
					n := to - pos
					if n > len(buf) {
						n = len(buf)
					}
					_, _ = g.Read(buf[:n])
					pos += n
				}
				beat()
			}
			if m := window(); m != "" {
				return m
			}
			if m := window(); m != "" {
				return m
			}
			for k := uint(14); k <= top; k++ {
				skip(1<<k - W)
				for r := 0; r < 3; r++ {
					if m := window(); m != "" {
						return m
					}
				}
				if k > 16 {
					skip(1<<k + 1<<(k-1) - W/2)
					if m := window(); m != "" {
						return m
					}
				}
			}
			c.Distinct(hash("far", low))
			return ""
		})
	}
}

// c17Objects: a generator, randomizer or worker made before a history gives,
// after it, what it gives without it.
func c17Objects(c *Ctx) {
	var g *csprng.CSPRNG
	var r *randomizer.Randomizer
	var wsplit func(string, []byte, int, int) ([][]byte, error)
	use := func(n int) [][]byte {
		b := make([]byte, n)
		_, _ = g.Read(b)
		u := g.GetUniqueBytes(byte(n))
		return [][]byte{b, g.Perm(byte(n)), u}
	}
	useW := func(alg string, n, salt int) ([][]byte, string) {
		sh, err := wsplit(alg, secretOf(n, salt), 4, 3)
		if err != nil {
			return nil, err.Error()
		}
		return sh, ""
	}
	setW := func() {
		w := worker.NewWorker()
		wsplit = w.Split
	}
	type object struct {
		name  string
		setup func()
		use   func(salt int) ([][]byte, string)
	}
	useG := func(int) ([][]byte, string) { return append(use(33), use(7)...), "" }
	useR := func(int) ([][]byte, string) {
		b := make([]byte, 40)
		_, _ = r.Read(b)
		return [][]byte{b, r.Perm(77)}, ""
	}
	useBoth := func(salt int) ([][]byte, string) {
		a, m := useW(worker.AlgShamir, 40, salt)
		if m != "" {
			return nil, m
		}
		b, m := useW(worker.AlgSSMS, 50, salt)
		return append(a, b...), m
	}
	objects := []object{
		{"a seeded generator", func() { g = newGen() }, useG},
		{"a used seeded generator", func() { g = newGen(); use(50) }, useG},
		{"a generator", func() { g = csprng.NewCSPRNG() }, useG},
		{"a used generator", func() { g = csprng.NewCSPRNG(); use(21) }, useG},
		{"a randomizer", func() { r = randomizer.NewRandomizer() }, useR},
		{"a used randomizer", func() { r = randomizer.NewRandomizer(); useR(0) }, useR},
		{"a worker", setW, useBoth},
		{"a used worker", func() { setW(); useBoth(3) }, useBoth},
		{"a generator that splits", func() { g = newGen() }, func(salt int) ([][]byte, string) {
			sh, err := shamir.SplitWithRandomizer(secretOf(60, salt), 4, 3, g)
			if err != nil {
				return nil, err.Error()
			}
			ks, err := krawczyk.SplitWithRandomizer(secretOf(60, salt), 4, 3, g)
			if err != nil {
				return nil, err.Error()
			}
			return append(sh, ks...), ""
		}},
	}
	quiet := func(f func()) func(int) ([][]byte, string) {
		return func(int) ([][]byte, string) { f(); return nil, "" }
	}
	ops := c17Ops()
	other := []byte("other key 012345other iv 6543210")
	ops = append(ops,
		op{"a generator is made", quiet(func() { csprng.NewCSPRNG() })},
		op{"a seeded generator is made", quiet(func() { csprng.NewCSPRNGWithKeyIV(clone(other)) })},
		op{"an equal generator is made and used", quiet(func() {
			h := newGen()
			h.Read(make([]byte, 100))
			h.Perm(30)
			h.GetUniqueBytes(12)
			h.GetUniqueBytes(44)
		})},
		op{"a generator is made and used", quiet(func() {
			h := csprng.NewCSPRNG()
			h.Read(make([]byte, 5000))
			h.Perm(255)
			h.GetUniqueBytes(3)
		})},
		op{"a randomizer is made and used", quiet(func() {
			h := randomizer.NewRandomizer()
			h.Read(make([]byte, 100))
			h.Perm(255)
		})},
		op{"a worker is made", quiet(func() { worker.NewWorker() })},
		op{"a worker is made and used", quiet(func() {
			w := worker.NewWorker()
			w.Split(worker.AlgShamir, secretOf(50, 1), 5, 2)
			w.Split(worker.AlgSSMS, secretOf(50, 1), 5, 2)
		})},
	)
	for _, o := range objects {
		o := o
		fr := &freshResult{}
		final := op{o.name + " made before is used", o.use}
		do := func(hist []op, names string) {
			c.Case(func() string { return fmt.Sprintf("%s, %s", o.name, names) }, func() string {
				c.Distinct(hash("objects", o.name, names))
				return c.afterHistoryOf(o.setup, hist, final, fr)
			})
		}
		for i, a := range ops {
			do([]op{a}, a.name)
			for j, b := range ops {
				if i < len(ops)-7 && j < len(ops)-7 && !c.thorough {
					continue
				}
				do([]op{a, b}, a.name+", "+b.name)
			}
		}
	}
}
