package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

// Information-theoretic probing. A scenario is run on a controlled random
// tape; which tape bytes influence which outputs is measured by changing each
// byte. Outputs are of two kinds: tags (public choices such as share tags and
// permutations) and rows (values that must be uniform: share bodies, keys,
// delivered random bytes).

type trace struct {
	tags [][]byte // per operation
	rows [][]byte
	op   []int // operation of each row
}

func (t *trace) tag(b ...byte) { t.tags[len(t.tags)-1] = append(t.tags[len(t.tags)-1], b...) }
func (t *trace) next()         { t.tags = append(t.tags, []byte{}) }
func (t *trace) row(b []byte) {
	t.rows = append(t.rows, clone(b))
	t.op = append(t.op, len(t.tags)-1)
}

type scenario struct {
	run func(t *trace) string // "" or an error
	// selections of rows that must be jointly uniform
	sel [][]int
	// sources that count
	streams string // of c (OS), k (keystream), m (seedable PRNG)
}

type pos struct {
	stream byte
	off    int
}

func (p pos) String() string {
	return fmt.Sprintf("%s byte %d", map[byte]string{'c': "OS-random", 'k': "keystream", 'm': "PRNG"}[p.stream], p.off)
}

type prober struct {
	c    *Ctx
	s    *scenario
	seed uint64
	base map[pos]byte // deliberate base values
	runs int
	over map[pos]byte
}

func (p *prober) byteAt(q pos) byte {
	if v, ok := p.base[q]; ok {
		return v
	}
	switch q.stream {
	case 'c':
		return tape.Crypto.ByteAt(q.off)
	case 'm':
		return tape.Math.ByteAt(q.off)
	}
	return tape.AES.ByteAt(uint64(q.off))
}

// exec runs the scenario with the given bytes changed.
func (p *prober) exec(ch map[pos]byte) (*trace, string) {
	beat()
	tape.Reset(p.seed)
	tape.AES.Shared = true
	set := func(q pos, v byte) {
		switch q.stream {
		case 'c':
			if tape.Crypto.Prefix == nil {
				tape.Crypto.Prefix = map[int]byte{}
			}
			tape.Crypto.Prefix[q.off] = v
		case 'm':
			if tape.Math.Prefix == nil {
				tape.Math.Prefix = map[int]byte{}
			}
			tape.Math.Prefix[q.off] = v
		case 'k':
			if tape.AES.Override == nil {
				tape.AES.Override = map[uint64]byte{}
			}
			tape.AES.Override[uint64(q.off)] = v
		}
	}
	for q, v := range p.base {
		set(q, v)
	}
	for q, v := range ch {
		set(q, v)
	}
	p.runs++
	t := &trace{}
	t.next()
	if m := p.s.run(t); m != "" {
		return nil, m
	}
	return t, ""
}

func sameTags(a, b *trace) bool {
	if len(a.tags) != len(b.tags) {
		return false
	}
	for i := range a.tags {
		if !bytes.Equal(a.tags[i], b.tags[i]) {
			return false
		}
	}
	return true
}

func flat(t *trace, sel []int) []byte {
	var o []byte
	for _, i := range sel {
		o = append(o, t.rows[i]...)
	}
	return o
}

// shape is what probing found at the base.
type shape struct {
	base *trace
	body []pos             // bytes that influence rows and never tags
	out  map[pos][8]*trace // single-bit changes
}

// discover classifies every consumed byte of the streams.
func (p *prober) discover(streams string) (*shape, string) {
	b, m := p.exec(nil)
	if m != "" {
		return nil, m
	}
	var all []pos
	for _, s := range streams {
		n := 0
		switch byte(s) {
		case 'c':
			n = tape.Crypto.Pos
		case 'm':
			n = tape.Math.Pos
		case 'k':
			n = int(tape.AES.MaxOff)
		}
		for i := 0; i < n; i++ {
			all = append(all, pos{byte(s), i})
		}
	}
	sh := &shape{base: b, out: map[pos][8]*trace{}}
	for _, q := range all {
		v := p.byteAt(q)
		var outs [8]*trace
		tags, rows := false, false
		for k := uint(0); k < 8; k++ {
			t, m := p.exec(map[pos]byte{q: v ^ 1<<k})
			if m != "" {
				return nil, fmt.Sprintf("with %v changed: %s", q, m)
			}
			if !sameTags(t, b) {
				tags = true
				break
			}
			for i := range t.rows {
				if i >= len(b.rows) || !bytes.Equal(t.rows[i], b.rows[i]) {
					rows = true
				}
			}
			outs[k] = t
		}
		if rows && !tags {
			sh.body = append(sh.body, q)
			sh.out[q] = outs
		}
	}
	return sh, ""
}

// rank of the single-bit differences, restricted to a selection; computed per
// connected component of (input byte, output byte).
func (sh *shape) rank(sel []int) int {
	b := flat(sh.base, sel)
	type col struct {
		p pos
		d [8][]byte
	}
	parent := make([]int, len(b))
	for i := range parent {
		parent[i] = i
	}
	var find func(int) int
	find = func(x int) int {
		for parent[x] != x {
			parent[x] = parent[parent[x]]
			x = parent[x]
		}
		return x
	}
	var diffs []map[int][8]byte // per input byte: output byte -> deltas
	for _, q := range sh.body {
		d := map[int][8]byte{}
		for k := 0; k < 8; k++ {
			o := flat(sh.out[q][k], sel)
			for i := range b {
				if i < len(o) && o[i] != b[i] {
					e := d[i]
					e[k] = o[i] ^ b[i]
					d[i] = e
				}
			}
		}
		first := -1
		for i := range d {
			if first < 0 {
				first = i
			} else {
				parent[find(i)] = find(first)
			}
		}
		diffs = append(diffs, d)
	}
	comp := map[int][]int{} // root -> output bytes
	for i := range b {
		comp[find(i)] = append(comp[find(i)], i)
	}
	rows := map[int][][]uint64{}
	for _, d := range diffs {
		root := -1
		for i := range d {
			root = find(i)
			break
		}
		if root < 0 {
			continue
		}
		cols := comp[root]
		for k := 0; k < 8; k++ {
			v := make([]byte, len(cols))
			for j, i := range cols {
				v[j] = d[i][k]
			}
			rows[root] = append(rows[root], ref.Pack(v))
		}
	}
	total := 0
	for _, r := range rows {
		total += ref.Rank(r)
	}
	return total
}

// affine spot-checks f(a^b) = f(a)^f(b)^f(0) on neighbouring and distant pairs.
func (p *prober) affine(sh *shape, sel []int) (bool, string) {
	b := flat(sh.base, sel)
	n := len(sh.body)
	for i := 0; i < n; i++ {
		for _, j := range []int{i + 1, i + n/2, i} {
			j %= n
			q, r := sh.body[i], sh.body[j]
			k1, k2 := uint(i)%8, uint(3*i+5)%8
			if q == r && k1 == k2 {
				continue
			}
			ch := map[pos]byte{q: p.byteAt(q) ^ 1<<k1}
			if q == r {
				ch[q] ^= 1 << k2
			} else {
				ch[r] = p.byteAt(r) ^ 1<<k2
			}
			t, m := p.exec(ch)
			if m != "" {
				return false, m
			}
			o := flat(t, sel)
			x, y := flat(sh.out[q][k1], sel), flat(sh.out[r][k2], sel)
			for z := range b {
				if z >= len(o) || o[z] != x[z]^y[z]^b[z] {
					return false, ""
				}
			}
		}
		if n > 64 && i > 48 {
			i += n / 64
		}
	}
	return true, ""
}

// uniform decides that every selection of rows is uniform given the tags.
func (p *prober) uniform(what string) string {
	streams := p.s.streams
	sh, m := p.discover(streams)
	if m != "" {
		return m
	}
	if len(p.s.sel) == 0 {
		return "harness: no selection"
	}
	if m := p.judge(sh, what); m != "" {
		return m
	}
	// the same with all those bytes zero, and all 0xff
	for _, v := range []byte{0, 0xff} {
		q := &prober{c: p.c, s: p.s, seed: p.seed, base: map[pos]byte{}}
		for _, x := range sh.body {
			q.base[x] = v
		}
		b2, m := q.exec(nil)
		if m != "" {
			return m
		}
		// same tags: the classification carries over
		if !sameTags(b2, sh.base) {
			continue
		}
		sh2 := &shape{base: b2, body: sh.body, out: map[pos][8]*trace{}}
		for _, x := range sh.body {
			var outs [8]*trace
			for k := uint(0); k < 8; k++ {
				t, m := q.exec(map[pos]byte{x: v ^ 1<<k})
				if m != "" {
					return m
				}
				outs[k] = t
			}
			sh2.out[x] = outs
		}
		if m := q.judge(sh2, fmt.Sprintf("%s (all coefficient bytes %#02x)", what, v)); m != "" {
			return m
		}
		p.runs += q.runs
	}
	return ""
}

func (p *prober) judge(sh *shape, what string) string {
	lossy := false
	for _, sel := range p.s.sel {
		want := 8 * len(flat(sh.base, sel))
		if 8*len(sh.body) < want {
			return fmt.Sprintf("%s: only %d random bytes stand behind %d output bytes of rows %v", what, len(sh.body), want/8, sel)
		}
		p.c.Count("rank_checks", 1)
		if r := sh.rank(sel); r < want {
			ok, m := p.affine(sh, sel)
			if m != "" {
				return m
			}
			if !ok {
				lossy = true
				continue
			}
			return fmt.Sprintf("%s: rows %v carry %d bits of randomness instead of %d", what, sel, r, want)
		}
	}
	// one-to-one in each byte when there is no slack
	for si, sel := range p.s.sel {
		if len(flat(sh.base, sel)) != len(sh.body) || si > 3 {
			continue
		}
		for bi, q := range sh.body {
			if len(sh.body) > 48 && bi%(len(sh.body)/40+1) != 0 {
				continue
			}
			seen := map[string]byte{}
			for v := 0; v < 256; v++ {
				t, m := p.exec(map[pos]byte{q: byte(v)})
				if m != "" {
					return m
				}
				if !sameTags(t, sh.base) {
					continue
				}
				k := string(flat(t, sel))
				if w, dup := seen[k]; dup {
					return fmt.Sprintf("%s: rows %v are not uniform: %v = %#02x and %#02x give the same output", what, sel, q, w, v)
				}
				seen[k] = byte(v)
			}
		}
		p.c.Count("byte_sweeps", 1)
	}
	if lossy {
		p.c.Note("%s: the output is not affine in the random bytes; only the per-byte sweeps and the exhaustive small cases apply", what)
	}
	return ""
}

// exhaustive enumerates the random bytes completely (at most two of them) and
// requires every selection to be exactly uniform.
func (p *prober) exhaustive(what string) (msg string, done bool) {
	sh, m := p.discover(p.s.streams)
	if m != "" {
		return m, true
	}
	need := 0
	for _, sel := range p.s.sel {
		if n := len(flat(sh.base, sel)); n > need {
			need = n
		}
	}
	if len(sh.body) < need {
		return fmt.Sprintf("%s: only %d random bytes stand behind %d output bytes", what, len(sh.body), need), true
	}
	if len(sh.body) > 2 {
		return "", false
	}
	counts := make([]map[string]int, len(p.s.sel))
	for i := range counts {
		counts[i] = map[string]int{}
	}
	total := 1
	for range sh.body {
		total *= 256
	}
	for v := 0; v < total; v++ {
		ch := map[pos]byte{sh.body[0]: byte(v)}
		if len(sh.body) == 2 {
			ch[sh.body[1]] = byte(v >> 8)
		}
		t, m := p.exec(ch)
		if m != "" {
			return m, true
		}
		if !sameTags(t, sh.base) {
			return fmt.Sprintf("%s: the tags depend on the coefficients (random bytes %v)", what, sh.body), true
		}
		for i, sel := range p.s.sel {
			counts[i][string(flat(t, sel))]++
		}
	}
	for i, sel := range p.s.sel {
		space := 1
		for range flat(sh.base, sel) {
			space *= 256
		}
		if len(counts[i]) != space {
			return fmt.Sprintf("%s: rows %v take only %d of %d values", what, sel, len(counts[i]), space), true
		}
		for k, n := range counts[i] {
			if n != total/space {
				return fmt.Sprintf("%s: rows %v take the value %x for %d of %d random draws instead of %d", what, sel, k, n, total, total/space), true
			}
		}
	}
	p.c.Count("exhaustive_distributions", len(p.s.sel))
	return "", true
}

// shareRows adds a sharing's tags and bodies to the trace.
func shareRows(t *trace, sh [][]byte) {
	for _, s := range sh {
		t.tag(s[len(s)-1])
	}
	for _, s := range sh {
		t.row(s[:len(s)-1])
	}
}

// ssmsRows adds tags, the key and the metadata share bodies (rows: key, then
// one per share).
func ssmsRows(t *trace, sh [][]byte, k int) {
	for _, s := range sh {
		t.tag(s[20])
	}
	key, _ := ref.SSMSMeta(sh[:k])
	t.row(key)
	for _, s := range sh {
		t.row(s[:20])
	}
}

// chooseK lists the k-subsets of 0..n-1, or some of them when there are many.
func chooseK(n, k int) [][]int {
	if n <= 7 {
		out := subsets(n, k, k)
		return out
	}
	var out [][]int
	for _, st := range []int{0, n / 2, n - k} {
		var s []int
		for i := 0; i < k; i++ {
			s = append(s, (st+i)%n)
		}
		sort.Ints(s)
		out = append(out, s)
	}
	return out
}
