package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"

	"github.com/fadhilkurnia/shamir/aaverif/fake/cryptorand"
	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/worker"
)

func init() {
	reg("C05", "faults", c05Faults)
	reg("C24", "sequences", c24Sequences)
	reg("C24", "anywhere", c05Faults)
	reg("C24", "parallel", c24Parallel)
}

// c05Faults: every place at which a read of the OS source can fail or come up
// short. A call that returns a result all the same must have drawn every
// protecting byte from the source; ending in an error or (as crypto/rand.Read
// does) ending the process is fine.
func c05Faults(c *Ctx) {
	type call struct {
		name  string
		f     func() ([]byte, string) // protecting bytes, or why there are none
		large bool
	}
	var calls []call
	for _, v := range append(append([]variant{}, shamirVariants...), ssmsVariants...) {
		if v.gen || v.name == "SplitP" { // its goroutines end the process
			continue
		}
		for _, g := range [][3]int{{3, 2, 5}, {4, 3, 40}, {5, 5, 300}, {3, 2, 40000}} {
			v, n, t, N := v, g[0], g[1], g[2]
			calls = append(calls, call{fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N), func() ([]byte, string) {
				sh, err := v.f(secretOf(N, 3), n, t, nil)
				if err != nil {
					if len(sh) != 0 {
						return nil, fmt.Sprintf("shares next to the error %v", err)
					}
					return nil, ""
				}
				d := secretValues(v, sh, n, t)
				if d.msg != "" {
					return nil, d.msg
				}
				return d.vals, ""
			}, N > 10000})
		}
	}
	read := func(r interface{ Read([]byte) (int, error) }) []byte {
		b := make([]byte, 40)
		r.Read(b)
		return b
	}
	keyed := keystreamControlled()
	if keyed {
		calls = append(calls,
			call{"NewCSPRNG", func() ([]byte, string) { return read(csprng.NewCSPRNG()), "" }, false},
			call{"NewRandomizer", func() ([]byte, string) { return read(randomizer.NewRandomizer()), "" }, false},
			call{"NewWorker", func() ([]byte, string) {
				w := worker.NewWorker()
				sh, err := w.Split("shamir", make([]byte, 40), 2, 2)
				if err != nil {
					return nil, ""
				}
				return ref.Coefs(sh, 2)[1], ""
			}, false})
	}
	fail := errors.New("injected failure")
	type fault struct {
		name      string
		first     int // the read it starts with
		last      int
		delivered func(n int) int
		err       error
	}
	none := func(int) int { return 0 }
	half := func(n int) int { return n / 2 }
	one := func(n int) int {
		if n > 1 {
			return 1
		}
		return n
	}
	var faults []fault
	for at := 0; at < 12; at++ {
		faults = append(faults,
			fault{"every read fails from", at, 1 << 30, none, fail},
			fault{"every read fails half way from", at, 1 << 30, half, fail},
			fault{"one failure at", at, at, none, fail},
			fault{"one failure half way at", at, at, half, fail},
			fault{"one short read at", at, at, half, nil},
			fault{"short reads from", at, 1 << 30, half, nil},
			fault{"single bytes from", at, 1 << 30, one, nil},
			fault{"all but the last byte at", at, at, func(n int) int { return n - 1 }, nil},
			fault{"all but the last byte and a failure at", at, at, func(n int) int { return n - 1 }, fail},
			fault{"everything and a failure at", at, at, func(n int) int { return n }, fail},
			fault{"at most 256 bytes from", at, 1 << 30, func(n int) int { return min(n, 256) }, nil},
			fault{"at most 7 bytes from", at, 1 << 30, func(n int) int { return min(n, 7) }, nil},
		)
		for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.ENOSYS, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission} {
			faults = append(faults,
				fault{fmt.Sprintf("%q from", e), at, 1 << 30, none, e},
				fault{fmt.Sprintf("%q half way from", e), at, 1 << 30, half, e},
				fault{fmt.Sprintf("%q at", e), at, at, none, e},
				fault{fmt.Sprintf("%q half way at", e), at, at, half, e},
			)
		}
	}
	for _, cl := range calls {
		for _, ft := range faults {
			cl, ft := cl, ft
			if cl.large && ft.first != 0 && ft.first != 1 && ft.first != 9 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s, OS source: %s read %d", cl.name, ft.name, ft.first) }, func() (msg string) {
				run := func(mask byte) (vals []byte, m string) {
					beat()
					c.fresh(c.seed)
					if mask != 0 {
						tape.Crypto.Flip = func(int) byte { return mask }
					}
					k := 0
					zeros := 0
					cryptorand.Ended = false
					cryptorand.Fault = func(n int) (int, error) {
						k++
						if k-1 < ft.first || k-1 > ft.last {
							return n, nil
						}
						if zeros++; zeros > 1000 {
							return n, nil // a caller that keeps trying is served in the end
						}
						d := ft.delivered(n)
						if d == 0 && ft.err == nil {
							d = n
						}
						return d, ft.err
					}
					defer func() {
						cryptorand.Fault = nil
						if recover() != nil || cryptorand.Ended { // no result
							vals, m = nil, ""
						}
					}()
					return cl.f()
				}
				base, m := run(0)
				c.Eval(1)
				c.Distinct(hash(cl.name, ft.name, ft.first))
				if m != "" || base == nil {
					return m
				}
				c.Count("faults_survived", 1)
				moved := make([]bool, len(base))
				for _, mask := range []byte{0xff, 0x80, 0x41, 0x06} {
					d, m := run(mask)
					if m != "" {
						return m
					}
					for i := range d {
						moved[i] = moved[i] || i < len(base) && d[i] != base[i]
					}
				}
				for i := range moved {
					if !moved[i] {
						return fmt.Sprintf("the call succeeds, with protecting byte %d of %d not from the OS source", i, len(base))
					}
				}
				return ""
			})
		}
	}
}

// ---- C24: sequences of faults ----

// outcomes of one read of n bytes: how many are delivered, with what error.
var outcomes = []struct {
	name string
	f    func(n int) (int, error)
}{
	{"ok", func(n int) (int, error) { return n, nil }},
	{"fails", func(n int) (int, error) { return 0, errInjected }},
	{"fails half way", func(n int) (int, error) { return n / 2, errInjected }},
	{"half", func(n int) (int, error) { return n - n/2, nil }},
	{"one byte", func(n int) (int, error) { return min(n, 1), nil }},
	{"nothing", func(n int) (int, error) { return 0, nil }},
	{"EOF half way", func(n int) (int, error) { return n / 2, io.EOF }},
	{"interrupted", func(n int) (int, error) { return 0, syscall.EINTR }},
}

var errInjected = errors.New("injected failure")

// pattern is the outcome of each of the first reads, and of all later ones.
type pattern struct {
	first []int
	rest  int
}

func (p pattern) String() string {
	s := ""
	for _, o := range p.first {
		s += outcomes[o].name + ", "
	}
	return s + "then " + outcomes[p.rest].name
}

func (p pattern) install() {
	k, bad := 0, 0
	cryptorand.Ended = false
	cryptorand.Fault = func(n int) (int, error) {
		o := p.rest
		if k < len(p.first) {
			o = p.first[k]
		}
		k++
		if o != 0 {
			if bad++; bad > 1000 {
				return n, nil // a caller that keeps trying is served in the end
			}
		}
		return outcomes[o].f(n)
	}
}

// survives runs f under a pattern of faults for several contents of the OS
// source: what it returns must be made from those contents alone.
func (c *Ctx) survives(p pattern, f func() ([]byte, string)) string {
	run := func(mask byte) (vals []byte, m string) {
		beat()
		c.fresh(c.seed)
		if mask != 0 {
			tape.Crypto.Flip = func(int) byte { return mask }
		}
		p.install()
		defer func() {
			cryptorand.Fault = nil
			if recover() != nil || cryptorand.Ended { // no result
				vals, m = nil, ""
			}
		}()
		return f()
	}
	return c.moves(run)
}

// moves: every byte of the result changes with the contents of the OS source.
func (c *Ctx) moves(run func(mask byte) ([]byte, string)) string {
	base, m := run(0)
	c.Eval(1)
	if m != "" || base == nil {
		return m
	}
	c.Count("faults_survived", 1)
	moved := make([]bool, len(base))
	for _, mask := range []byte{0xff, 0x80, 0x41, 0x06} {
		d, m := run(mask)
		if m != "" {
			return m
		}
		for i := range d {
			moved[i] = moved[i] || i < len(base) && d[i] != base[i]
		}
	}
	for i := range moved {
		if !moved[i] {
			return fmt.Sprintf("the call succeeds, with protecting byte %d of %d not from the OS source", i, len(base))
		}
	}
	return ""
}

func patterns24(thorough bool) []pattern {
	depth := 3
	if thorough {
		depth = 4
	}
	var out []pattern
	var rec func(f []int)
	rec = func(f []int) {
		if len(f) == depth {
			for _, rest := range []int{0, 1, 3} {
				out = append(out, pattern{append([]int(nil), f...), rest})
			}
			return
		}
		for o := range outcomes {
			rec(append(f, o))
		}
	}
	rec(nil)
	return out
}

// c24Sequences: every sequence of outcomes of the first reads.
func c24Sequences(c *Ctx) {
	type call struct {
		name string
		f    func() ([]byte, string)
	}
	var calls []call
	values := func(v variant, sh [][]byte, err error, n, t int) ([]byte, string) {
		if err != nil {
			if len(sh) != 0 {
				return nil, fmt.Sprintf("shares next to the error %v", err)
			}
			return nil, ""
		}
		d := secretValues(v, sh, n, t)
		return d.vals, d.msg
	}
	for _, v := range allVariants {
		if v.gen || v.name == "SplitP" {
			continue
		}
		for _, g := range [][3]int{{2, 2, 1}, {3, 2, 20}, {5, 4, 700}, {12, 9, 33}} {
			v, n, t, N := v, g[0], g[1], g[2]
			calls = append(calls, call{fmt.Sprintf("%s(%d bytes, %d, %d)", v.name, N, n, t), func() ([]byte, string) {
				sh, err := v.f(secretOf(N, 3), n, t, nil)
				return values(v, sh, err, n, t)
			}}, call{fmt.Sprintf("%s(%d bytes, %d, %d) after one that failed", v.name, N, n, t), func() ([]byte, string) {
				func() {
					defer func() { recover() }()
					v.f(secretOf(N, 3), n, t, nil)
				}()
				sh, err := v.f(secretOf(N, 4), n, t, nil)
				return values(v, sh, err, n, t)
			}})
		}
	}
	if keystreamControlled() {
		for _, v := range allVariants {
			if !v.gen {
				continue
			}
			v := v
			calls = append(calls, call{v.name + " with a new generator", func() ([]byte, string) {
				sh, err := v.f(secretOf(24, 3), 3, 2, csprng.NewCSPRNG())
				return values(v, sh, err, 3, 2)
			}})
		}
		calls = append(calls, call{"a new randomizer", func() ([]byte, string) {
			b := make([]byte, 48)
			randomizer.NewRandomizer().Read(b)
			return b, ""
		}})
		for _, alg := range []string{worker.AlgShamir, worker.AlgSSMS} {
			alg := alg
			calls = append(calls, call{"a new worker, " + alg, func() ([]byte, string) {
				w := worker.NewWorker()
				v := byName("SplitWithRandomizer")
				if alg == worker.AlgSSMS {
					v = byName("krawczyk.SplitWithRandomizer")
				}
				sh, err := w.Split(alg, secretOf(24, 3), 3, 2)
				return values(v, sh, err, 3, 2)
			}})
		}
	}
	ps := patterns24(c.thorough)
	for _, cl := range calls {
		for k := 0; k < len(ps); k += 54 {
			cl, part := cl, ps[k:min(k+54, len(ps))]
			c.Case(func() string { return fmt.Sprintf("%s, OS source: %v and %d more", cl.name, part[0], len(part)-1) }, func() string {
				for _, p := range part {
					if m := c.survives(p, cl.f); m != "" {
						return fmt.Sprintf("%v: %s", p, m)
					}
					c.Distinct(hash(cl.name, p.String()))
				}
				return ""
			})
		}
	}
}

// c24Parallel: the parallel split, each in a process of its own, which it may
// end.
func c24Parallel(c *Ctx) {
	ps := patterns24(c.thorough)
	for k := range ps {
		for si := range parallelShapes {
			if si > 0 && !c.thorough && k%9 != 4 {
				continue
			}
			k, si := k, si
			g := parallelShapes[si]
			c.Case(func() string { return fmt.Sprintf("SplitP(%d bytes, %d, %d), OS source: %v", g[2], g[0], g[1], ps[k]) }, func() string {
				c.Distinct(hash("parallel", k, si))
				return c.moves(func(mask byte) ([]byte, string) {
					beat()
					cmd := exec.Command(os.Args[0])
					cmd.Env = append(os.Environ(), fmt.Sprintf("MC_FAULT=%d/%d/%d/%d/%v", c.seed, mask, si, k, c.thorough))
					cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
					b, _ := cmd.Output()
					i, j := bytes.Index(b, []byte("FAULT-VALS ")), bytes.Index(b, []byte(" FAULT-END"))
					if i < 0 || j < i {
						if i = bytes.Index(b, []byte("FAULT-BAD ")); i >= 0 {
							return nil, string(b[i+10:])
						}
						return nil, "" // an error, or the end of the process
					}
					v, _ := hex.DecodeString(string(b[i+11 : j]))
					return v, ""
				})
			})
		}
	}
}

var parallelShapes = [][3]int{{3, 2, 5}, {4, 3, 300}}

func faultChild(spec string) {
	var seed uint64
	var mask byte
	var si, k int
	var thorough bool
	fmt.Sscanf(strings.ReplaceAll(spec, "/", " "), "%d %d %d %d %t", &seed, &mask, &si, &k, &thorough)
	g := parallelShapes[si]
	tape.Reset(seed)
	if mask != 0 {
		tape.Crypto.Flip = func(int) byte { return mask }
	}
	patterns24(thorough)[k].install()
	cryptorand.Ends = true
	sh, err := byName("SplitP").f(secretOf(g[2], 3), g[0], g[1], nil)
	if err != nil {
		if len(sh) != 0 {
			fmt.Println("FAULT-BAD shares next to the error", err)
		}
		os.Exit(0)
	}
	d := secretValues(byName("SplitP"), sh, g[0], g[1])
	if d.msg != "" {
		fmt.Println("FAULT-BAD", d.msg)
		os.Exit(0)
	}
	fmt.Printf("FAULT-VALS %x FAULT-END\n", d.vals)
	os.Exit(0)
}
