package main

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

// Sweeps over every (threshold, length) with a bounded number of coefficients.
//
// The secret-protecting streams are made constant beyond the bytes the tags
// come from. Then every position of the secret has the same coefficients, so
// that share and secret differ by the same byte at every position: one pass
// over the shares sees whether any coefficient of any position came from
// elsewhere (was left over, left out, or drawn from another source). Two
// constants, one after the other, also tell left-overs of the run before.
// Whatever looks odd is then judged by the property's own exact procedure.

func init() {
	reg("C02", "sweep", func(c *Ctx) { sweep(c, shamirVariants) })
	reg("C03", "sweep", func(c *Ctx) { sweep(c, shamirVariants) })
	reg("C05", "sweep", func(c *Ctx) { sweep(c, allVariants) })
	reg("C07", "sweep", func(c *Ctx) { sweep(c, ssmsVariants) })
	reg("C03", "columns", c03Columns)
}

// sweepShapes: every length for a threshold, as far as the number of
// coefficients stays below the bound; then the products next to powers of two.
func sweepShapes(t, bound, top int) []int {
	var out []int
	for N := 1; N*t <= bound || N*(t-1) <= bound; N++ {
		out = append(out, N)
	}
	seen := map[int]bool{}
	for p := bound; p <= top; p *= 2 {
		for d := -3; d <= 3; d++ {
			for _, k := range []int{t, t - 1} {
				if N := (p + d) / k; N*k == p+d && N > out[len(out)-1] && !seen[N] {
					seen[N] = true
					out = append(out, N)
				}
			}
		}
	}
	return out
}

func sweep(c *Ctx, vs []variant) {
	ks := c.needKeystream()
	for _, v := range vs {
		if v.gen && (!ks || c.prop == "C05") {
			continue
		}
		ssms := v.name[0] == 'k'
		for t := 2; t <= 255; t++ {
			v, t := v, t
			bound, top := 2048, 1<<17
			if c.thorough {
				bound, top = 16384, 1<<20
			}
			if ssms && t > 2 {
				bound, top = 256, 512
				if t <= 8 || c.thorough && t <= 40 {
					bound, top = 1024, 1<<16
				}
			}
			if v.name == "SplitP" || v.name == "SplitGeneric" {
				bound /= 2
			}
			if !ssms && (t <= 3 || t == 5 || t == 16 || t == 255) {
				top <<= 5 // 4M
			}
			n := t
			if v.gen && n < 20 {
				n = 20 // distinct tags from a constant stream
			}
			c.Case(func() string {
				return fmt.Sprintf("%s n=%d t=%d: every length with at most %d coefficients, and next to powers of two, on constant streams", v.name, n, t, bound)
			}, func() string {
				confirmed := 0
				for i, N := range sweepShapes(t, bound, top) {
					c.Eval(2)
					c.Distinct(hash(v.name, n, t, N))
					secret := secretOf(N, i+t)
					odd := ""
					var prev []byte
					for _, k := range []byte{0x3c, 0xd1} {
						constStreams(k, (len(secret)+36)*t)
						sh, err := v.f(secret, n, t, newGen())
						if err != nil || len(sh) != n {
							odd = fmt.Sprintf("%d shares, %v", len(sh), err)
							break
						}
						var o string
						if o, prev = constShares(sh, secret, t, ssms, prev); o != "" {
							odd = o
							break
						}
					}
					if odd == "" {
						continue
					}
					// code that uses its random bytes in another way is odd
					// everywhere; a few shapes of each kind are enough then
					if confirmed++; confirmed > 6 && (N*t > 1<<17 || confirmed > 40 && i&(i-1) != 0) {
						continue
					}
					c.Count("confirmed_exactly", 1)
					if m := c.sweepConfirm(v, secret, n, t); m != "" {
						return fmt.Sprintf("len=%d: %s (%s)", N, m, odd)
					}
				}
				tape.Reset(c.seed)
				return ""
			})
		}
	}
}

// constStreams: constant for longer than any sharing of the shape needs, but
// not for ever (code that draws until it likes what it gets goes on then).
func constStreams(k byte, values int) {
	tape.Reset(1)
	tape.Crypto.Const, tape.Crypto.ConstLen = &k, 2*values+8192
	tape.AES.Const, tape.AES.ConstLen = &k, uint64(2*values+8192)
}

// constShares tells whether all positions have the same coefficients, none of
// which are those of the run before.
func constShares(sh [][]byte, secret []byte, t int, ssms bool, prev []byte) (string, []byte) {
	var key []byte
	first := make([][]byte, t)
	for i := 0; i < t; i++ {
		s := sh[i]
		if ssms {
			if len(s) < 22 {
				return "malformed share", nil
			}
			for j := 1; j < 16; j++ {
				if s[j] != s[0] {
					return fmt.Sprintf("key position %d", j), nil
				}
			}
			for j := 17; j < 20; j++ {
				if s[j]^s[16] != byte(len(secret)>>(8*(j-16)))^byte(len(secret)) {
					return fmt.Sprintf("length position %d", j), nil
				}
			}
			first[i] = []byte{s[0], s[20]}
			continue
		}
		if len(s) != len(secret)+1 {
			return "malformed share", nil
		}
		d := s[0] ^ secret[0]
		for j := range secret {
			if s[j]^secret[j] != d {
				return fmt.Sprintf("position %d of share %d", j, i), nil
			}
		}
		first[i] = []byte{s[0], s[len(s)-1]}
	}
	co := ref.Coefs(first, t)
	vals := make([]byte, 0, t)
	for _, r := range co[1:] {
		vals = append(vals, r[0])
	}
	if ssms {
		key = bytes.Repeat(co[0][:1], 16)
		vals = append(vals, key[0])
		per := (len(secret) + t - 1) / t
		ct := ref.OFB(key, secret)
		for i := 0; i < t; i++ {
			lo, hi := i*per, (i+1)*per
			if lo > len(ct) {
				lo = len(ct)
			}
			if hi > len(ct) {
				hi = len(ct)
			}
			if len(sh[i]) != 21+per+1 || !bytes.Equal(sh[i][21:21+hi-lo], ct[lo:hi]) {
				return fmt.Sprintf("ciphertext of share %d", i), nil
			}
		}
	} else if co[0][0] != secret[0] {
		return "intercept", nil
	}
	for i := range prev {
		if i < len(vals) && vals[i] == prev[i] {
			return fmt.Sprintf("value %d is the same for both constants", i), nil
		}
	}
	return "", vals
}

// sweepConfirm decides the property for one shape without the short cut.
func (c *Ctx) sweepConfirm(v variant, secret []byte, n, t int) string {
	tape.Reset(c.seed)
	if c.prop == "C02" {
		// on the constant streams, where it was seen, and on the usual one
		for _, k := range []byte{0x3c, 0xd1, 0} {
			if k == 0 {
				tape.Reset(c.seed)
			} else {
				constStreams(k, (len(secret)+36)*t)
			}
			sh, err := v.f(secret, n, t, newGen())
			if err != nil {
				return err.Error()
			}
			if m := ref.CheckSharing(secret, sh, n, t); m != "" {
				return m
			}
		}
		return ""
	}
	if v.name != "SplitP" || len(secret) <= 1000 {
		tr := c.traceSplit(v, len(secret), n, t)
		what := "keys and coefficients"
		if v.gen {
			return tr.distinctSources('k', "the generator's keystream", what)
		}
		m := tr.distinctSources('c', "the operating system's randomness", what)
		if m != "" && c.prop != "C05" {
			// values from the seedable source are C05's business
			if m2 := tr.distinctSources('m', "randomness", what); m2 == "" {
				m = ""
			}
		}
		return m
	}
	split := func(s uint64, mask byte) drawing {
		tape.Reset(c.seed*100 + s)
		if mask != 0 {
			tape.Crypto.Flip = func(int) byte { return mask }
		}
		sh, err := v.f(secret, n, t, newGen())
		if err != nil {
			return drawing{msg: err.Error()}
		}
		return secretValues(v, sh, n, t)
	}
	if c.prop != "C05" {
		return columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
			d := split(s, 0)
			return [][]byte{d.vals}, d.tags, d.msg
		}, 8)
	}
	base := split(0, 0)
	if base.msg != "" {
		return base.msg
	}
	moved := make([]bool, len(base.vals))
	for _, mask := range []byte{0xff, 0x80, 0x41, 0x06, 0x19} {
		d := split(0, mask)
		if d.msg != "" {
			return d.msg
		}
		for i := range moved {
			moved[i] = moved[i] || i < len(d.vals) && d.vals[i] != base.vals[i]
		}
	}
	for i, m := range moved {
		if !m {
			return fmt.Sprintf("protecting byte %d of %d does not depend on the operating system's randomness", i, len(base.vals))
		}
	}
	return ""
}

// c03Columns: for every threshold and every length with few coefficients, no
// coefficient is constant or a copy of another over 8 streams.
func c03Columns(c *Ctx) {
	bound := 1024
	if c.thorough {
		bound = 6000
	}
	for _, v := range shamirVariants {
		for t := 2; t <= 255; t++ {
			v, t := v, t
			c.Case(func() string {
				return fmt.Sprintf("%s n=t=%d: every length with at most %d coefficients over 8 streams", v.name, t, bound)
			}, func() string {
				for N := 1; N*t <= bound; N++ {
					c.Eval(8)
					c.Distinct(hash("columns", v.name, t, N))
					secret := secretOf(N, 1)
					m := columnsDistinct(func(s uint64) ([][]byte, []byte, string) {
						tape.Reset(c.seed*100 + s)
						sh, err := v.f(secret, t, t, newGen())
						if err != nil {
							return nil, nil, err.Error()
						}
						if len(sh) != t {
							return nil, nil, "wrong number of shares"
						}
						return ref.Coefs(sh, t)[1:], ref.Tags(sh), ""
					}, 8)
					if m != "" {
						return fmt.Sprintf("len=%d: %s", N, m)
					}
				}
				return ""
			})
		}
	}
}
