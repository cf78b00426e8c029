package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/fadhilkurnia/shamir/aaverif/fake/cryptorand"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/randomizer"
)

func init() {
	reg("C04", "randomizer", c04Randomizer)
	reg("C17", "faults", c17Faults)
}

// ---- C04: one randomizer across its calls ----

type rndOp struct {
	read int // bytes to read, or
	perm int // length of a permutation
	kind int // what the buffer holds before the read
}

func (o rndOp) String() string {
	if o.read > 0 {
		return fmt.Sprintf("Read(%d bytes, contents %d)", o.read, o.kind)
	}
	return fmt.Sprintf("Perm(%d)", o.perm)
}

// runRnd performs the requests.
func runRnd(ops []rndOp) (outs [][]byte, isPerm []bool, msg string) {
	r := randomizer.NewRandomizer()
	for _, o := range ops {
		if o.read == 0 {
			outs = append(outs, clone(r.Perm(byte(o.perm))))
			isPerm = append(isPerm, true)
			continue
		}
		b := make([]byte, o.read)
		for i := range b {
			switch o.kind {
			case 1:
				b[i] = 0xff
			case 2:
				b[i] = byte(i * 7)
			}
		}
		n, err := r.Read(b)
		if n != len(b) || err != nil {
			return nil, nil, fmt.Sprintf("%v returned %d, %v", o, n, err)
		}
		outs = append(outs, b)
		isPerm = append(isPerm, false)
	}
	return outs, isPerm, ""
}

// rndStream is the tape a randomizer's bytes come from.
func rndStream() byte {
	tape.Reset(3)
	tape.AES.Shared = true
	r := randomizer.NewRandomizer()
	b := make([]byte, 64)
	at := tape.Crypto.Pos
	r.Read(b)
	switch {
	case tape.AES.MaxOff > 0:
		return 'k'
	case tape.Crypto.Pos >= at+64:
		return 'c'
	}
	return 0
}

func c04Randomizer(c *Ctx) {
	st := rndStream()
	if st == 0 {
		c.Partial("the randomizer does not draw through an interface the harness replaces: skipped")
		return
	}
	drawn := func(ops []rndOp) drawing {
		outs, isPerm, m := runRnd(ops)
		d := drawing{msg: m}
		for i, o := range outs {
			if isPerm[i] {
				d.tags = append(d.tags, o...)
			} else {
				d.vals = append(d.vals, o...)
			}
		}
		return d
	}
	check := func(ops []rndOp) {
		c.Case(func() string { return fmt.Sprintf("randomizer: %v", ops) }, func() string {
			c.Distinct(hash("rnd", fmt.Sprint(ops)))
			// one random byte, one request
			base, _, m := runFlipped(st, c.seed, ops, -1, 0)
			if m != "" {
				return m
			}
			n := used(st)
			if n <= 400 {
				for off := 0; off < n; off++ {
					hits := make([]int, len(ops))
					masks := []byte{1, 2, 4, 8, 16, 32, 64, 128}
					for _, k := range masks {
						outs, _, m := runFlipped(st, c.seed, ops, off, k)
						if m != "" {
							return m
						}
						for i := range outs {
							if !bytesEq(outs[i], base[i]) {
								hits[i]++
							}
						}
					}
					c.Eval(len(masks))
					first := -1
					for i, h := range hits {
						if h < 7 {
							continue
						}
						if first >= 0 {
							return fmt.Sprintf("random byte %d decides the output of request %d (%v) and of request %d (%v)", off, first, ops[first], i, ops[i])
						}
						first = i
					}
				}
			}
			t := &tracer{c: c, seed: c.seed, run: func() drawing { return drawn(ops) }}
			if m := t.distinctSources(st, "the randomizer's stream", "requests"); m != "" {
				return m
			}
			c.Eval(t.runs)
			return ""
		})
	}
	reads := []int{1, 2, 15, 16, 17, 33, 100}
	var alpha []rndOp
	for i, n := range reads {
		alpha = append(alpha, rndOp{read: n, kind: i % 3})
	}
	for _, n := range []int{2, 5, 40} {
		alpha = append(alpha, rndOp{perm: n})
	}
	for i, a := range alpha {
		for j, b := range alpha {
			check([]rndOp{a, b})
			for k, d := range alpha {
				if c.thorough || (i+2*j+3*k)%5 == 0 {
					check([]rndOp{a, b, d})
				}
			}
		}
	}
	long := [][]rndOp{
		{{read: 4096}, {read: 4096}}, {{read: 5000}, {perm: 200}, {read: 700}}, {{read: 70001}, {read: 10}, {read: 70001}},
		{{perm: 255}, {read: 1000}, {perm: 255}, {read: 1000}},
	}
	var many []rndOp
	for i := 0; i < 60; i++ {
		many = append(many, rndOp{read: 1 + i*7%40, kind: i % 3})
	}
	for _, l := range append(long, many) {
		check(l)
	}
	// runs of equal requests, and large ones: nothing delivered twice
	for _, n := range []int{1, 7, 8, 16, 31, 64, 1000, 4096, 4097, 65536, 1 << 20, 1<<22 + 3} {
		for _, kind := range []int{0, 2} {
			n, kind := n, kind
			c.Case(func() string { return fmt.Sprintf("randomizer: reads of %d bytes over and over, contents %d", n, kind) }, func() string {
				r := randomizer.NewRandomizer()
				R := 1<<17/n + 3
				var all []byte
				b := make([]byte, n)
				for i := 0; i < R; i++ {
					for k := range b {
						b[k] = byte(kind * k)
					}
					r.Read(b)
					for k := range b {
						b[k] ^= byte(kind * k)
					}
					all = append(all, b...)
					if i%9 == 4 {
						r.Perm(byte(i))
					}
				}
				c.Distinct(hash("rndruns", n, kind))
				return windowTwice([][]byte{all})
			})
		}
	}
}

func runFlipped(st byte, seed uint64, ops []rndOp, off int, mask byte) ([][]byte, []bool, string) {
	tape.Reset(seed)
	tape.AES.Shared = true
	if off >= 0 {
		if st == 'k' {
			tape.AES.Flip = func(_, o uint64) byte {
				if int(o) == off {
					return mask
				}
				return 0
			}
		} else {
			tape.Crypto.Flip = func(o int) byte {
				if o == off {
					return mask
				}
				return 0
			}
		}
	}
	beat()
	return runRnd(ops)
}

// ---- C17: after calls during which the OS random source failed ----

// faulted is the operation with the OS source failing from the at-th read on
// (half way through it, or for once).
func faulted(o op, at, how int) op {
	return op{fmt.Sprintf("%s with the OS source failing at read %d (%s)", o.name, at, []string{"for good", "for good, half way", "once"}[how]), func(salt int) (out [][]byte, bad string) {
		k := 0
		fail := errors.New("injected failure")
		cryptorand.Fault = func(n int) (int, error) {
			k++
			if k-1 < at || how == 2 && k-1 > at || k > 1000 {
				return n, nil
			}
			if how == 1 {
				return n / 2, fail
			}
			return 0, fail
		}
		defer func() {
			cryptorand.Fault = nil
			recover() // in the real process this would be the end
		}()
		o.f(salt)
		return nil, ""
	}}
}

func c17Faults(c *Ctx) {
	ops := c17Ops()
	fr := make([]freshResult, len(ops))
	for i, o := range ops {
		if strings.HasPrefix(o.name, "SplitP") { // its goroutines end the process
			continue
		}
		for at := 0; at < 4; at++ {
			for how := 0; how < 3; how++ {
				i, o, at, how := i, o, at, how
				c.Case(func() string { return faulted(o, at, how).name + ", twice, then every operation" }, func() string {
					f := faulted(o, at, how)
					c.res.States++
					for k := range ops {
						if m := c.afterHistory([]op{f, f}, ops[k], &fr[k]); m != "" {
							return m
						}
						c.Distinct(hash("faults", i, at, how, k))
					}
					return ""
				})
			}
		}
	}
}
