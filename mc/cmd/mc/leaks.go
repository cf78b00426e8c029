package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C22", "calls", c22Calls)
	reg("C22", "lengths", c22Lengths)
	reg("C22", "pairs", c22Pairs)
	reg("C23", "calls", c23Calls)
	reg("C23", "pairs", c23Pairs)
	reg("C23", "draws", c23Draws)
	reg("C23", "refused", c23Refused)
	reg("C23", "streams", c23Streams)
}

// world is what calls are made with: everything made from one secret.
type world struct {
	secret []byte
	gen    *csprng.CSPRNG
	w      worker.Worker
	rnd    *randomizer.Randomizer
	sh     [][]byte // shares of the secret, made by the reference
	ks     [][]byte // SSMS shares of the secret, made by the reference
}

// act is one call; it returns the error of the call. What the call returns
// besides is left in *out by those that care.
type act struct {
	name string
	f    func(w *world) error
}

func newWorld(secret []byte) *world {
	w := &world{secret: secret, gen: newGen(), w: worker.NewWorker(), rnd: randomizer.NewRandomizer()}
	if len(secret) <= 5000 && len(secret) > 0 {
		w.sh = pointsOf(secret, []byte{9, 200, 33, 255, 1}, 3)
		w.ks = refSSMS(secret)
	}
	return w
}

func refSSMS(secret []byte) [][]byte {
	sum := 7
	for i, b := range secret {
		sum += int(b) * (i + 1)
	}
	// the key differs with the secret; the length and its sharing do not
	return ref.SSMSEncode(secret, secretOf(16, sum), []byte{9, 200, 33, 255, 1}, 5, 3, func(p, j int) byte { return byte(p*5 + j) })
}

// shorter cuts a byte out of a share, but not of the header, the tag or the
// index of it: what stands there stays independent of the secret.
func shorter(s []byte) []byte {
	at := 0
	if len(s) > 22 {
		at = 21
	}
	return append(clone(s[:at]), s[at+1:]...)
}

// lengthXor changes a byte of the length SSMS shares stand for.
func lengthXor(sh [][]byte, at int, by byte) [][]byte {
	for i := range sh {
		if len(sh[i]) > 21 {
			sh[i][at] ^= by
		}
	}
	return sh
}

// acts are the calls of the library, good and bad.
func acts() []act {
	var out []act
	add := func(name string, f func(w *world) error) { out = append(out, act{name, f}) }
	for _, v := range allVariants {
		v := v
		for _, g := range [][2]int{{3, 2}, {5, 3}, {5, 6}, {256, 3}, {3, 1}, {0, 0}, {-1, 2}, {300, 300}} {
			g := g
			add(fmt.Sprintf("%s(%d, %d)", v.name, g[0], g[1]), func(w *world) error {
				_, err := v.f(w.secret, g[0], g[1], w.gen)
				return err
			})
		}
		add(v.name+" of nothing", func(w *world) error {
			_, err := v.f(w.secret[:0], 3, 2, w.gen)
			return err
		})
	}
	for _, alg := range []string{worker.AlgShamir, worker.AlgSSMS, "Shamir", ""} {
		alg := alg
		for _, g := range [][2]int{{3, 2}, {5, 6}, {256, 2}} {
			g := g
			add(fmt.Sprintf("Worker.Split(%q, %d, %d)", alg, g[0], g[1]), func(w *world) error {
				_, err := w.w.Split(alg, w.secret, g[0], g[1])
				return err
			})
		}
		add(fmt.Sprintf("Worker.Combine(%q)", alg), func(w *world) error {
			l := w.sh
			if alg == worker.AlgSSMS {
				l = w.ks
			}
			_, err := w.w.Combine(alg, cloneAll(l), 5, 3)
			return err
		})
		add(fmt.Sprintf("Worker.Combine(%q) of the first two", alg), func(w *world) error {
			l := w.sh
			if alg == worker.AlgSSMS {
				l = w.ks
			}
			_, err := w.w.Combine(alg, cloneAll(l[:2]), 5, 3)
			return err
		})
	}
	lists := map[string]func(sh [][]byte) [][]byte{
		"all":         func(sh [][]byte) [][]byte { return sh },
		"three":       func(sh [][]byte) [][]byte { return sh[2:] },
		"two":         func(sh [][]byte) [][]byte { return sh[:2] },
		"one":         func(sh [][]byte) [][]byte { return sh[:1] },
		"none":        func(sh [][]byte) [][]byte { return nil },
		"a duplicate": func(sh [][]byte) [][]byte { return append(sh, clone(sh[0])) },
		"a repeated tag": func(sh [][]byte) [][]byte {
			sh[1][len(sh[1])-1] = sh[0][len(sh[0])-1]
			return sh
		},
		"a longer one":           func(sh [][]byte) [][]byte { sh[2] = append(sh[2], 7); return sh },
		"a shorter one":          func(sh [][]byte) [][]byte { sh[0] = shorter(sh[0]); return sh },
		"an empty one":           func(sh [][]byte) [][]byte { sh[3] = []byte{}; return sh },
		"a nil":                  func(sh [][]byte) [][]byte { sh[1] = nil; return sh },
		"a longer length":        func(sh [][]byte) [][]byte { return lengthXor(sh, 19, 0x40) },
		"a longer length by one": func(sh [][]byte) [][]byte { return lengthXor(sh, 17, 0x80) },
		"an index past the end":  func(sh [][]byte) [][]byte { sh[3][len(sh[3])-1] = 250; return sh },
		"an index twice": func(sh [][]byte) [][]byte {
			for i := range sh {
				sh[i][len(sh[i])-1] = byte(i / 3)
			}
			return sh
		},
		"only tags": func(sh [][]byte) [][]byte {
			for i := range sh {
				sh[i] = sh[i][len(sh[i])-1:]
			}
			return sh
		},
	}
	var names []string
	for n := range lists {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l := lists[n]
		add("Combine of "+n, func(w *world) error {
			_, err := shamir.Combine(l(cloneAll(w.sh)))
			return err
		})
		for _, k := range []int{1, 0, -1, 252} {
			k := k
			add(fmt.Sprintf("Regenerate(%d) from %s", k, n), func(w *world) error {
				_, err := shamir.Regenerate(l(cloneAll(w.sh)), k)
				return err
			})
		}
		for _, g := range [][2]int{{5, 3}, {5, 4}, {3, 5}, {6, 2}, {0, 0}} {
			g := g
			add(fmt.Sprintf("krawczyk.Combine(%d, %d) of %s", g[0], g[1], n), func(w *world) error {
				_, err := krawczyk.Combine(l(cloneAll(w.ks)), g[0], g[1])
				return err
			})
		}
	}
	for _, v := range allVariants {
		v := v
		for _, g := range [][2]int{{4, 3}, {10, 9}, {20, 17}, {40, 34}} {
			g := g
			add(fmt.Sprintf("%s(%d, %d) and back", v.name, g[0], g[1]), func(w *world) error {
				secret := w.secret[:min(len(w.secret), 80)]
				sh, err := v.f(secret, g[0], g[1], w.gen)
				if err != nil {
					return err
				}
				if v.name[0] == 'k' {
					_, err = krawczyk.Combine(sh, g[0], g[1])
					return err
				}
				more, err := shamir.Regenerate(sh, 2)
				if err == nil {
					_, err = shamir.Combine(append(more, sh[2:]...))
				}
				return err
			})
		}
	}
	add("generator", func(w *world) error {
		b := make([]byte, 1+len(w.secret)%50)
		w.gen.Read(b)
		w.gen.Perm(20)
		w.gen.GetUniqueBytes(9)
		return nil
	})
	add("NewCSPRNG", func(w *world) error { csprng.NewCSPRNG().Read(make([]byte, 9)); return nil })
	add("NewCSPRNGWithKeyIV", func(w *world) error {
		key := make([]byte, 32)
		copy(key, w.secret)
		csprng.NewCSPRNGWithKeyIV(key).Read(make([]byte, 9))
		return nil
	})
	add("NewWorker", func(w *world) error { v := worker.NewWorker(); _, err := v.Split("shamir", w.secret, 2, 2); return err })
	add("randomizer", func(w *world) error {
		w.rnd.Read(make([]byte, 40))
		w.rnd.Perm(33)
		randomizer.NewRandomizer().Perm(9)
		return nil
	})
	add("vectors", func(w *world) error {
		a, b := clone(w.secret), clone(w.secret)
		galois.AddVector(a, b)
		galois.MulConstVector(77, b)
		return nil
	})
	add("buffer pool", func(w *world) error {
		p := utils.NewBytesBufferPool(2)
		for i := 0; i < 5; i++ {
			b := p.Get()
			b.Write(w.secret)
			p.Put(b)
		}
		return nil
	})
	return out
}

// ---- C22: finished calls leave nothing behind ----

type usage struct{ threads, files int }

func usageNow() usage {
	u := usage{threads: runtime.NumGoroutine()}
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.files = len(d)
	}
	return u
}

// settled waits for goroutines that are about to end.
func settled(most int) usage {
	u := usageNow()
	for wait := time.Millisecond; u.threads > most && wait < 5*time.Second; wait *= 2 {
		beat()
		time.Sleep(wait)
		u = usageNow()
	}
	return u
}

func heapNow() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc + m.StackInuse)
}

// keeps tells what grows with the number of runs of f: goroutines, files, or
// (if asked) memory. Growth must go on in every one of several blocks, so that
// pools, caches and lazily made helpers with a limit are no complaint.
func keeps(c *Ctx, f func(), memory bool) string {
	const B, blocks = 60, 4
	run := func(k int) {
		for i := 0; i < k; i++ {
			f()
		}
		beat()
	}
	run(10)
	u := settled(0 + usageNow().threads)
	run(B)
	v := settled(u.threads + 8)
	if v.threads >= u.threads+9 || v.files >= u.files+9 {
		grewT, grewF := true, true
		for b := 0; b < blocks; b++ {
			u = v
			run(B)
			v = settled(u.threads + 8)
			grewT = grewT && v.threads >= u.threads+9
			grewF = grewF && v.files >= u.files+9
		}
		c.Eval(B * blocks)
		if grewT {
			return fmt.Sprintf("the number of goroutines grows with the number of calls (%d after the last %d)", v.threads, B)
		}
		if grewF {
			return fmt.Sprintf("the number of open files grows with the number of calls (%d after the last %d)", v.files, B)
		}
	}
	c.Eval(B + 10)
	if !memory {
		return ""
	}
	h := heapNow()
	grew := true
	last, calls := 0, 0
	// 60, 120, ... calls, as long as every block adds to the memory in use
	for k := B; k <= 64*B*4 && grew; k *= 2 {
		run(k)
		n := heapNow()
		last, calls = n-h, k
		grew = n-h > 12*k+4096
		h = n
	}
	c.Eval(calls * 2)
	if grew {
		return fmt.Sprintf("memory in use grows with the number of calls (%d bytes in the last %d)", last, calls)
	}
	return ""
}

func c22Calls(c *Ctx) {
	for _, N := range []int{1, 40, 1500} {
		for _, a := range acts() {
			N, a := N, a
			c.Case(func() string { return fmt.Sprintf("%s over and over, %d bytes", a.name, N) }, func() string {
				w := newWorld(secretOf(N, 3))
				c.Distinct(hash("keeps", a.name, N))
				return keeps(c, func() { a.f(w) }, true)
			})
		}
	}
}

// c22Lengths: goroutines and files left behind at any length and shape.
func c22Lengths(c *Ctx) {
	var lens []int
	top := 300
	if c.thorough {
		top = 2100
	}
	for N := 1; N <= top; N++ {
		lens = append(lens, N)
	}
	for p := 512; p <= 1<<17; p *= 2 {
		lens = append(lens, p-1, p, p+1, p+p/3)
	}
	shapes := [][2]int{{2, 2}, {3, 2}, {5, 3}, {10, 10}, {40, 7}, {255, 2}, {255, 100}}
	for _, v := range allVariants {
		for _, g := range shapes {
			v, n, t := v, g[0], g[1]
			for k := 0; k < len(lens); k += 20 {
				part := lens[k:min(k+20, len(lens))]
				if n*t*part[len(part)-1] > 1<<22 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("%s(%d, %d) and back, lengths %v", v.name, n, t, part)
				}, func() string {
					gen := newGen()
					for _, N := range part {
						secret := secretOf(N, 1)
						f := func() {
							sh, err := v.f(secret, n, t, gen)
							if err != nil {
								return
							}
							if v.name[0] == 'k' {
								krawczyk.Combine(sh, n, t)
							} else {
								shamir.Combine(sh[:t])
								if n < 255 && N < 2000 {
									shamir.Regenerate(sh[:t], 1)
								}
							}
						}
						u := settled(usageNow().threads)
						for i := 0; i < 10; i++ {
							f()
						}
						if x := usageNow(); x.threads > u.threads+8 || x.files > u.files+8 {
							if m := keeps(c, f, false); m != "" {
								return fmt.Sprintf("length %d: %s", N, m)
							}
						}
						c.Distinct(hash("keeps", v.name, n, t, N))
					}
					c.Eval(10 * len(part))
					return ""
				})
			}
		}
	}
}

// c22Pairs: a call after another, over and over.
func c22Pairs(c *Ctx) {
	as := acts()
	for i, a := range as {
		a, i := a, i
		c.Case(func() string { return a.name + " and every other call in turn" }, func() string {
			w := newWorld(secretOf(33, i))
			big := newWorld(secretOf(1500, i))
			for j, b := range as {
				b := b
				f := func() { a.f(w); b.f(big) }
				u := usageNow()
				for k := 0; k < 10; k++ {
					f()
				}
				if x := usageNow(); x.threads > u.threads+8 || x.files > u.files+8 {
					if m := keeps(c, f, false); m != "" {
						return a.name + ", then " + b.name + ": " + m
					}
				}
				c.Distinct(hash("pairs", i, j))
			}
			c.Eval(20 * len(as))
			return ""
		})
	}
}

// ---- C23: nothing of a secret gets out but through the results ----

var scratch string

// watched runs f with standard output and error, logs and the working and
// temporary directories under watch, and returns all that was written.
func watched(f func()) string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "verif-c23-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	os.RemoveAll(scratch)
	work := filepath.Join(scratch, "work")
	if err := os.MkdirAll(work, 0o700); err != nil {
		panic(err)
	}
	home, _ := os.Getwd()
	sink, err := os.OpenFile(filepath.Join(scratch, "out"), os.O_CREATE|os.O_TRUNC|os.O_RDWR|os.O_APPEND, 0o600)
	if err != nil {
		panic(err)
	}
	defer sink.Close()
	keep := make([]int, 3)
	for fd := 1; fd <= 2; fd++ {
		k, err := syscall.Dup(fd)
		if err != nil {
			panic(err)
		}
		keep[fd] = k
		if err := syscall.Dup3(int(sink.Fd()), fd, 0); err != nil {
			panic(err)
		}
	}
	oldTmp := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", work)
	env := strings.Join(os.Environ(), "\n")
	var std bytes.Buffer
	oldLog, flags := log.Writer(), log.Flags()
	log.SetFlags(0)
	if oldLog != os.Stderr {
		log.SetOutput(&std)
	}
	os.Chdir(work)
	restore := func() {
		os.Chdir(home)
		for fd := 1; fd <= 2; fd++ {
			syscall.Dup3(keep[fd], fd, 0)
			syscall.Close(keep[fd])
		}
		if oldLog != os.Stderr {
			log.SetOutput(oldLog)
		}
		log.SetFlags(flags)
	}
	func() {
		defer restore()
		f()
	}()
	var s strings.Builder
	if e := strings.Join(os.Environ(), "\n"); e != env {
		s.WriteString("environment: " + e + "\n")
	}
	if oldTmp == "" {
		os.Unsetenv("TMPDIR")
	} else {
		os.Setenv("TMPDIR", oldTmp)
	}
	b, _ := os.ReadFile(sink.Name())
	if len(b)+std.Len() > 0 {
		fmt.Fprintf(&s, "output: %q%q\n", b, std.Bytes())
	}
	var files []string
	filepath.Walk(work, func(p string, i os.FileInfo, err error) error {
		if err == nil && p != work {
			b, _ := os.ReadFile(p)
			files = append(files, fmt.Sprintf("file %s: %q\n", digits.ReplaceAllString(strings.TrimPrefix(p, work), "*"), b))
		}
		return nil
	})
	sort.Strings(files)
	return s.String() + strings.Join(files, "")
}

var digits = regexp.MustCompile(`[0-9]+`)
var pointer = regexp.MustCompile(`0xc[0-9a-f]{9}`)

// told is everything an error value says.
func told(err error) string {
	if err == nil {
		return "no error"
	}
	s := fmt.Sprintf("%v | %+v | %q | %s", err, err, err, pointer.ReplaceAllString(fmt.Sprintf("%#v", err), "0x"))
	for k := 0; k < 5; k++ {
		if err = errors.Unwrap(err); err == nil {
			break
		}
		s += fmt.Sprintf(" <- %v %+v", err, err)
	}
	return s
}

// constant is the value the first 3000 bytes of every stream have, if not -1.
var constant = -1

// trail is what a sequence of calls leaves behind besides its results.
func trail(seed uint64, flip func(st byte, off int) byte, secret []byte, as []act) string {
	beat()
	tape.Reset(seed)
	tape.AES.Shared = true
	if constant >= 0 {
		v := byte(constant)
		for _, st := range []*tape.Stream{tape.Crypto, tape.Math} {
			st.Const, st.ConstLen = &v, 3000
		}
		tape.AES.Const, tape.AES.ConstLen = &v, 3000
	}
	if flip != nil {
		tape.Crypto.Flip = func(o int) byte { return flip('c', o) }
		tape.AES.Flip = func(_, o uint64) byte { return flip('k', int(o)) }
	}
	var errs string
	w := newWorld(secret)
	out := watched(func() {
		for _, a := range as {
			var err error
			msg := func() (m string) {
				defer func() {
					if r := recover(); r != nil {
						m = fmt.Sprintf("panic: %v", r)
					}
				}()
				err = a.f(w)
				return ""
			}()
			errs += a.name + ": " + told(err) + msg + "\n"
		}
	})
	return errs + out
}

// secretsOf: contents of one length that differ everywhere or in one place.
func secretsOf(N int) [][]byte {
	base := secretOf(N, 1)
	out := [][]byte{base}
	for i := 2; i < 5; i++ {
		out = append(out, secretOf(N, i))
	}
	for _, at := range []int{0, N / 2, N - 1} {
		b := clone(base)
		b[at] ^= 0x41
		out = append(out, b)
	}
	return append(out, make([]byte, N), bytes.Repeat([]byte{0xff}, N), bytes.Repeat([]byte("a1\n%"), N/4+1)[:N])
}

// sameTrail: the calls leave the same behind for every secret.
func sameTrail(c *Ctx, N int, as []act) string {
	base := trail(c.seed, nil, secretsOf(N)[0], as)
	for k := 0; k < 2; k++ {
		if again := trail(c.seed, nil, secretsOf(N)[0], as); again != base {
			// something that changes by itself (a time): only look for the
			// secret in what is left
			return spelled(secretsOf(N)[0], again)
		}
	}
	for _, s := range secretsOf(N)[1:] {
		if got := trail(c.seed, nil, s, as); got != base {
			return "what the call leaves behind depends on the secret: " + diff(base, got)
		}
		c.Eval(1)
	}
	return ""
}

// spelled finds a secret, as it is or as text, in what was written.
func spelled(secret []byte, in string) string {
	if len(secret) < 8 {
		return ""
	}
	s := secret[:8]
	for _, t := range []string{string(s), fmt.Sprintf("%x", s), fmt.Sprintf("%X", s), strings.Trim(fmt.Sprint(s), "[]"), strings.Trim(fmt.Sprintf("%q", s), `"`), strings.Trim(fmt.Sprintf("%q", fmt.Sprintf("%q", s)), `"\`)} {
		if strings.Contains(in, t) {
			return "the secret's bytes are written out: " + t
		}
	}
	return ""
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			q := ""
			if i < len(y) {
				q = y[i]
			}
			return cut(x[i]) + " / " + cut(q)
		}
	}
	return cut(b[len(a):])
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func c23Calls(c *Ctx) {
	defer func() { os.RemoveAll(scratch) }()
	lens := []int{1, 2, 16, 17, 40, 300, 1001, 1500, 4096}
	if c.thorough {
		for N := 3; N < 300; N += 7 {
			lens = append(lens, N)
		}
		lens = append(lens, 2049, 4999)
	}
	for _, N := range lens {
		for _, a := range acts() {
			N, a := N, a
			c.Case(func() string { return fmt.Sprintf("%s, %d bytes", a.name, N) }, func() string {
				c.Distinct(hash("trail", a.name, N))
				return sameTrail(c, N, []act{a, a})
			})
		}
	}
	for _, v := range allVariants {
		for _, N := range []int{5003, 8192, 40000, 70001} {
			v, N := v, N
			c.Case(func() string { return fmt.Sprintf("%s, %d bytes", v.name, N) }, func() string {
				c.Distinct(hash("trail", v.name, N))
				return sameTrail(c, N, []act{{v.name, func(w *world) error {
					sh, err := v.f(w.secret, 4, 3, w.gen)
					if err == nil {
						if v.name[0] == 'k' {
							_, err = krawczyk.Combine(sh[:3], 4, 3)
						} else {
							_, err = shamir.Combine(sh[:3])
						}
					}
					return err
				}}})
			})
		}
	}
}

// c23Streams: random streams with runs of one value, and long ones in which
// every rare combination of two random bytes occurs.
func c23Streams(c *Ctx) {
	defer func() { os.RemoveAll(scratch); constant = -1 }()
	long := []int{300007}
	if c.thorough {
		long = append(long, 2000003)
	}
	for _, v := range allVariants {
		for _, g := range [][2]int{{3, 2}, {4, 3}, {5, 5}} {
			v, n, t := v, g[0], g[1]
			split := []act{{v.name, func(w *world) error {
				_, err := v.f(w.secret, n, t, w.gen)
				return err
			}}}
			for _, k := range []int{0, 1, 0x80, 0xfe, 0xff} {
				for _, N := range []int{1, 40, 1100} {
					k, N := k, N
					c.Case(func() string { return fmt.Sprintf("%s(%d bytes, %d, %d), random bytes %d", v.name, N, n, t, k) }, func() string {
						constant = k
						defer func() { constant = -1 }()
						c.Distinct(hash("streams", v.name, N, n, t, k))
						return sameTrail(c, N, split)
					})
				}
			}
			for _, N := range long {
				if t == 5 {
					continue
				}
				N := N
				c.Case(func() string { return fmt.Sprintf("%s(%d bytes, %d, %d)", v.name, N, n, t) }, func() string {
					c.Distinct(hash("streams", v.name, N, n, t))
					s := [][]byte{secretOf(N, 1), secretOf(N, 2)}
					for _, seed := range []uint64{1, 2} {
						base := trail(seed, nil, s[0], split)
						if again := trail(seed, nil, s[0], split); again != base {
							if m := spelled(s[0], again); m != "" {
								return m
							}
							continue
						}
						if got := trail(seed, nil, s[1], split); got != base {
							return "what the call leaves behind depends on the secret: " + diff(base, got)
						}
					}
					c.Eval(6)
					return ""
				})
			}
		}
	}
}

// c23Pairs: a call after another one on the same secret.
func c23Pairs(c *Ctx) {
	defer func() { os.RemoveAll(scratch) }()
	as := acts()
	for i, a := range as {
		for j, b := range as {
			if !c.thorough && (i*7+j*3)%5 != 0 {
				continue
			}
			a, b := a, b
			c.Case(func() string { return a.name + ", then " + b.name }, func() string {
				c.Distinct(hash("trails", a.name, b.name))
				s := secretsOf(19)
				base := trail(c.seed, nil, s[0], []act{a, b})
				if trail(c.seed, nil, s[0], []act{a, b}) != base {
					return ""
				}
				for _, x := range s[1:3] {
					if got := trail(c.seed, nil, x, []act{a, b}); got != base {
						return "what the calls leave behind depends on the secret: " + diff(base, got)
					}
				}
				c.Eval(3)
				return ""
			})
		}
	}
}

// c23Draws: nothing is left behind that depends on a random byte, unless on one
// that decides tags.
func c23Draws(c *Ctx) {
	defer func() { os.RemoveAll(scratch) }()
	for _, v := range allVariants {
		for _, g := range [][3]int{{1, 3, 2}, {5, 4, 3}, {20, 3, 2}} {
			v, N, n, t := v, g[0], g[1], g[2]
			c.Case(func() string { return fmt.Sprintf("%s(%d bytes, %d, %d), every random byte", v.name, N, n, t) }, func() string {
				var tags []byte
				a := act{v.name, func(w *world) error {
					sh, err := v.f(w.secret, n, t, w.gen)
					tags = tags[:0]
					if v.name[0] == 'k' {
						for i := range sh {
							sh[i] = sh[i][:21]
						}
					}
					for _, s := range sh {
						tags = append(tags, s[len(s)-1])
					}
					return err
				}}
				run := func(flip func(st byte, o int) byte) (string, string) {
					s := trail(c.seed, flip, secretOf(N, 2), []act{a})
					return s, string(tags)
				}
				base, bt := run(nil)
				if again, _ := run(nil); again != base {
					return ""
				}
				nc, nk := tape.Crypto.Pos, int(tape.AES.MaxOff)
				if nc > 700 {
					nc = 700
				}
				for _, st := range []byte{'c', 'k'} {
					top := map[byte]int{'c': nc, 'k': min(nk, 700)}[st]
					for off := 0; off < top; off++ {
						got, gt := run(func(s byte, o int) byte {
							if s == st && o == off {
								return 0x36
							}
							return 0
						})
						if gt == bt && got != base {
							return fmt.Sprintf("what the call leaves behind depends on random byte %c%d: %s", st, off, diff(base, got))
						}
					}
				}
				c.Eval(nc + nk)
				c.Distinct(hash("draws", v.name, N, n, t))
				return ""
			})
		}
	}
}

// c23Refused: the errors of refused calls say nothing about contents.
func c23Refused(c *Ctx) {
	defer func() { os.RemoveAll(scratch) }()
	grid := []int{-1, 0, 1, 2, 3, 7, 254, 255, 256, 257, 1000, 1 << 31}
	for _, v := range allVariants {
		for _, n := range grid {
			v, n := v, n
			c.Case(func() string { return fmt.Sprintf("%s with n=%d and all thresholds of the list", v.name, n) }, func() string {
				var as []act
				for _, t := range grid {
					t := t
					if n <= 255 && t <= n && t >= 2 {
						continue
					}
					as = append(as, act{fmt.Sprint(t), func(w *world) error {
						_, err := v.f(w.secret, n, t, w.gen)
						return err
					}})
				}
				c.Distinct(hash("refused", v.name, n))
				return sameTrail(c, 24, as)
			})
		}
	}
	// every position of every share replaced, cut or lengthened
	for _, N := range []int{3, 20} {
		N := N
		c.Case(func() string { return fmt.Sprintf("combining from broken lists, %d bytes", N) }, func() string {
			var as []act
			for i := 0; i < 5; i++ {
				for j := 0; j < 5; j++ {
					i, j := i, j
					as = append(as, act{fmt.Sprint("the tag of ", i, " on ", j), func(w *world) error {
						sh := cloneAll(w.sh)
						sh[j][len(sh[j])-1] = sh[i][len(sh[i])-1]
						_, err := shamir.Combine(sh)
						if _, e := shamir.Regenerate(sh, 2); err == nil {
							err = e
						}
						return err
					}}, act{fmt.Sprint(i, " cut and ", j, " lengthened"), func(w *world) error {
						sh := cloneAll(w.sh)
						sh[i] = shorter(sh[i])
						sh[j] = append([]byte{1}, sh[j]...)
						_, err := shamir.Combine(sh)
						_, e := shamir.Regenerate(sh, 2)
						return fmt.Errorf("%v %v", err, e)
					}}, act{fmt.Sprint("SSMS ", i, " cut and ", j, " left out"), func(w *world) error {
						sh := cloneAll(w.ks)
						sh[i] = shorter(sh[i])
						sh[j] = nil
						_, err := krawczyk.Combine(sh, 5, 3)
						return err
					}})
				}
			}
			c.Distinct(hash("broken", N))
			return sameTrail(c, N, as)
		})
	}
}
