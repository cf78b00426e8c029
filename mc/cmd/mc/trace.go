package main

import (
	"bytes"
	"fmt"
	"math/bits"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/aaverif/vsched"
)

// Group tracing: which random byte stands behind each value of a long output.
// Every byte of a source gets its position as a code word; for each bit of the
// code word the scenario is run once with all the bytes changed whose position
// has that bit, and once with all the others changed. A value that depends on
// one byte changes in exactly one run of each pair and so spells the position.

// drawing is what one run of a scenario delivered: values that must come each
// from a random byte of its own, and public choices (tags).
type drawing struct {
	vals, tags []byte
	msg        string
}

type tracer struct {
	c    *Ctx
	seed uint64
	run  func() drawing
	runs int
}

// source: the positions behind the values; -1 none found, -2 several.
type source struct {
	at    []int
	n     int // bytes of the source consumed
	tags  int // of which decide tags
	mixed int
	none  int
}

func (t *tracer) exec(stream byte, flip func(off int) byte) drawing {
	beat()
	tape.Reset(t.seed)
	tape.AES.Shared = true
	if flip != nil {
		switch stream {
		case 'c':
			tape.Crypto.Flip = flip
		case 'm':
			tape.Math.Flip = flip
		case 'k':
			tape.AES.Flip = func(_, off uint64) byte { return flip(int(off)) }
		}
	}
	t.runs++
	if t.c.variant != "sched" {
		return t.run()
	}
	// goroutines of the call run one after another
	var d drawing
	x := vsched.Do(func() {
		vsched.ResetGlobals() // background goroutines belong to this execution
		d = t.run()
	})
	if x.Panic != "" {
		d.msg = "panic: " + x.Panic
	}
	return d
}

// alone: changing one byte of the stream changes both values, every time.
func (t *tracer) alone(stream byte, p, i, j int) bool {
	for r := 0; r < 3; r++ {
		b := t.exec(stream, nil)
		d := t.exec(stream, func(o int) byte {
			if o == p {
				return 1
			}
			return 0
		})
		if b.msg != "" || d.msg != "" || len(b.vals) != len(d.vals) || b.vals[i] == d.vals[i] || b.vals[j] == d.vals[j] {
			return false
		}
		k := 0
		for x := range b.vals {
			if b.vals[x] != d.vals[x] {
				k++
			}
		}
		if k > 1000 && k > len(b.vals)/2 {
			return false
		}
	}
	return true
}

func used(stream byte) int {
	switch stream {
	case 'c':
		return tape.Crypto.Pos
	case 'm':
		return tape.Math.Pos
	}
	return int(tape.AES.MaxOff)
}

// trace finds the source positions in one stream.
func (t *tracer) trace(stream byte) (*source, string) {
	base := t.exec(stream, nil)
	if base.msg != "" {
		return nil, base.msg
	}
	n := used(stream)
	for r := 0; r < 2; r++ {
		if d := t.exec(stream, nil); !bytes.Equal(d.vals, base.vals) || !bytes.Equal(d.tags, base.tags) {
			return nil, ""
		}
	}
	src := &source{at: make([]int, len(base.vals)), n: n}
	for i := range src.at {
		src.at[i] = -1
	}
	if n == 0 {
		src.none = len(src.at)
		return src, ""
	}
	// positions that decide tags, by bisection
	excluded := make([]bool, n)
	masks := []byte{0x01, 0xff, 0x5a}
	touches := func(lo, hi int) (bool, string) {
		for _, m := range masks {
			d := t.exec(stream, func(o int) byte {
				if o >= lo && o < hi && !excluded[o] {
					return m
				}
				return 0
			})
			if d.msg != "" {
				return false, d.msg
			}
			if !bytes.Equal(d.tags, base.tags) || len(d.vals) != len(base.vals) {
				return true, ""
			}
		}
		return false, ""
	}
	var split func(lo, hi int) string
	split = func(lo, hi int) string {
		hit, m := touches(lo, hi)
		if m != "" {
			return m
		}
		if !hit {
			return ""
		}
		if hi-lo == 1 {
			excluded[lo] = true
			src.tags++
			return ""
		}
		mid := (lo + hi) / 2
		if hi-lo > 1024 {
			mid = lo + 256 // tags are drawn first, if at all
		}
		if m := split(lo, mid); m != "" {
			return m
		}
		return split(mid, hi)
	}
	for round := 0; ; round++ {
		hit, m := touches(0, n)
		if m != "" {
			return nil, m
		}
		if !hit {
			break
		}
		if round == 4 {
			return nil, ""
		}
		if m := split(0, n); m != "" {
			return nil, m
		}
	}
	all := func(mask byte, sel func(o int) bool) ([]bool, string) {
		d := t.exec(stream, func(o int) byte {
			if o < n && !excluded[o] && sel(o) {
				return mask
			}
			return 0
		})
		if d.msg != "" {
			return nil, d.msg
		}
		if !bytes.Equal(d.tags, base.tags) || len(d.vals) != len(base.vals) {
			return nil, fmt.Sprintf("the tags depend on a combination of %d bytes that decide coefficients", n)
		}
		ch := make([]bool, len(d.vals))
		for i := range ch {
			ch[i] = d.vals[i] != base.vals[i]
		}
		return ch, ""
	}
	hit := make([]bool, len(src.at))
	for _, m := range masks {
		ch, e := all(m, func(int) bool { return true })
		if e != "" {
			return nil, e
		}
		for i := range ch {
			hit[i] = hit[i] || ch[i]
		}
	}
	code := make([]int, len(src.at))
	multi := make([]bool, len(src.at))
	miss := make([]bool, len(src.at))
	for b := uint(0); b < uint(bits.Len(uint(n-1))); b++ {
		one, e := all(masks[0], func(o int) bool { return o>>b&1 == 1 })
		if e != "" {
			return nil, e
		}
		zero, e := all(masks[0], func(o int) bool { return o>>b&1 == 0 })
		if e != "" {
			return nil, e
		}
		for i := range code {
			switch {
			case one[i] && zero[i]:
				multi[i] = true
			case one[i]:
				code[i] |= 1 << b
			case !zero[i]:
				miss[i] = true
			}
		}
	}
	for i := range src.at {
		switch {
		case !hit[i]:
			src.none++
		case multi[i] || miss[i] || code[i] >= n || excluded[code[i]]:
			src.at[i] = -2
			src.mixed++
		default:
			src.at[i] = code[i]
		}
	}
	return src, ""
}

// distinctSources decides that no two values come from the same random byte
// of the stream; with `from` set, that every value comes from one.
func (t *tracer) distinctSources(stream byte, from, what string) string {
	src, m := t.trace(stream)
	if m != "" {
		return m
	}
	if src == nil {
		t.c.Note("%s: not traced (the draws are not made in a fixed order)", what)
		return ""
	}
	t.c.Max("traced_values", len(src.at))
	seen := map[int]int{}
	for i, p := range src.at {
		if p == -1 && from != "" {
			return fmt.Sprintf("%s: value %d of %d does not depend on %s", what, i, len(src.at), from)
		}
		if p < 0 {
			continue
		}
		if j, dup := seen[p]; dup && t.alone(stream, p, i, j) {
			return fmt.Sprintf("%s: values %d and %d both come from random byte %d", what, j, i, p)
		}
		seen[p] = i
	}
	if from != "" && src.n-src.tags < len(src.at) {
		return fmt.Sprintf("%s: %d values are made from %d bytes of %s", what, len(src.at), src.n-src.tags, from)
	}
	if src.mixed > 0 {
		t.c.Note("%s: %d values depend on several random bytes each; only their number was compared", what, src.mixed)
	}
	return ""
}

func join(rows [][]byte) []byte {
	var o []byte
	for _, r := range rows {
		o = append(o, r...)
	}
	return o
}
