// Package ref holds the reference models: GF(2^8) by shift-and-xor, Lagrange
// and Newton interpolation, AES-OFB from the block cipher, systematic
// Reed-Solomon as interpolation. Nothing here comes from the code under test.
package ref

import (
	"crypto/aes"
	"encoding/binary"
	"fmt"
)

// Mul multiplies in GF(2^8) modulo x^8+x^4+x^3+x^2+1 (0x11d).
func Mul(a, b byte) byte { return mulT[a][b] }

// SlowMul is the definition.
func SlowMul(a, b byte) byte {
	x, y, r := uint(a), uint(b), uint(0)
	for i := uint(0); i < 8; i++ {
		if y>>i&1 == 1 {
			r ^= x << i
		}
	}
	for i := 15; i >= 8; i-- {
		if r>>uint(i)&1 == 1 {
			r ^= 0x11d << uint(i-8)
		}
	}
	return byte(r)
}

var mulT [256][256]byte
var invT [256]byte

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			mulT[a][b] = SlowMul(byte(a), byte(b))
			if mulT[a][b] == 1 {
				invT[a] = byte(b)
			}
		}
	}
}

// Inv is the multiplicative inverse (0 for 0).
func Inv(a byte) byte { return invT[a] }

// Eval evaluates the polynomial with the given coefficients.
func Eval(c []byte, x byte) byte {
	var r byte
	for i := len(c) - 1; i >= 0; i-- {
		r = mulT[r][x] ^ c[i]
	}
	return r
}

// Weights returns the Lagrange weights of the points xs for evaluation at x.
func Weights(xs []byte, x byte) []byte {
	w := make([]byte, len(xs))
	for i := range xs {
		num, den := byte(1), byte(1)
		for j := range xs {
			if i != j {
				num = mulT[num][x^xs[j]]
				den = mulT[den][xs[i]^xs[j]]
			}
		}
		w[i] = mulT[num][invT[den]]
	}
	return w
}

// Dot is the inner product.
func Dot(w, y []byte) byte {
	var r byte
	for i := range w {
		r ^= mulT[w[i]][y[i]]
	}
	return r
}

// InterpAt interpolates byte-wise: rows are equal-length data at points xs.
func InterpAt(xs []byte, rows [][]byte, x byte) []byte {
	w := Weights(xs, x)
	out := make([]byte, len(rows[0]))
	for i, r := range rows {
		m := &mulT[w[i]]
		for k, v := range r {
			out[k] ^= m[v]
		}
	}
	return out
}

// Tags returns the tags (last bytes) of shares.
func Tags(sh [][]byte) []byte {
	t := make([]byte, len(sh))
	for i, s := range sh {
		t[i] = s[len(s)-1]
	}
	return t
}

// Bodies returns the share bytes without the tag.
func Bodies(sh [][]byte) [][]byte {
	b := make([][]byte, len(sh))
	for i, s := range sh {
		b[i] = s[:len(s)-1]
	}
	return b
}

// CheckSharing decides that shares are n points, with distinct nonzero tags,
// of polynomials of degree < t whose values at zero are the secret.
func CheckSharing(secret []byte, sh [][]byte, n, t int) string {
	if len(sh) != n {
		return fmt.Sprintf("%d shares instead of %d", len(sh), n)
	}
	var seen [256]bool
	for i, s := range sh {
		if len(s) != len(secret)+1 {
			return fmt.Sprintf("share %d is %d bytes long, secret %d", i, len(s), len(secret))
		}
		x := s[len(s)-1]
		if x == 0 {
			return fmt.Sprintf("share %d has tag 0: it is the plaintext secret", i)
		}
		if seen[x] {
			return fmt.Sprintf("tag %d is used twice (share %d)", x, i)
		}
		seen[x] = true
	}
	if t > n {
		t = n
	}
	xs := Tags(sh)
	// Newton divided differences, all byte positions at once
	N := len(secret)
	c := make([][]byte, n)
	for i := range sh {
		c[i] = append([]byte(nil), sh[i][:N]...)
	}
	for lvl := 1; lvl < n; lvl++ {
		for i := n - 1; i >= lvl; i-- {
			m := &mulT[invT[xs[i]^xs[i-lvl]]]
			a, b := c[i], c[i-1]
			for k := range a {
				a[k] = m[a[k]^b[k]]
			}
		}
		if lvl >= t {
			for k := range c[lvl] {
				if c[lvl][k] != 0 {
					return fmt.Sprintf("byte %d: the shares do not lie on a polynomial of degree < %d", k, t)
				}
			}
			break // order-t differences of consecutive points: check the others below
		}
	}
	if t < n {
		// all order-t divided differences vanish <=> degree < t
		for i := t; i < n; i++ {
			for k := range c[i] {
				if c[i][k] != 0 {
					return fmt.Sprintf("byte %d: share %d is off the polynomial of degree < %d through the others", k, i, t)
				}
			}
		}
	}
	// value at zero by Newton form over the first t points: c[j] for j<t
	for k := 0; k < N; k++ {
		var v byte
		for j := t - 1; j >= 0; j-- {
			v = mulT[v][xs[j]] ^ c[j][k]
		}
		if v != secret[k] {
			return fmt.Sprintf("byte %d: the polynomial's value at zero is %#02x, the secret byte %#02x", k, v, secret[k])
		}
	}
	return ""
}

// Coefs recovers the coefficient rows (row j = coefficient j of every byte
// position) of the polynomials of degree < t through the first t shares.
func Coefs(sh [][]byte, t int) [][]byte {
	xs := Tags(sh[:t])
	N := len(sh[0]) - 1
	out := make([][]byte, t)
	for j := range out {
		out[j] = make([]byte, N)
	}
	for i := 0; i < t; i++ {
		// basis polynomial of point i
		b := []byte{1}
		den := byte(1)
		for j := 0; j < t; j++ {
			if j == i {
				continue
			}
			nb := make([]byte, len(b)+1)
			for k, v := range b {
				nb[k] ^= mulT[v][xs[j]]
				nb[k+1] ^= v
			}
			b = nb
			den = mulT[den][xs[i]^xs[j]]
		}
		iv := invT[den]
		for j := range b {
			f := &mulT[mulT[b[j]][iv]]
			for k := 0; k < N; k++ {
				out[j][k] ^= f[sh[i][k]]
			}
		}
	}
	return out
}

// OFB is AES-128-OFB with a zero IV.
func OFB(key, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	var s [16]byte
	for i := range data {
		if i%16 == 0 {
			b.Encrypt(s[:], s[:])
		}
		out[i] = data[i] ^ s[i%16]
	}
	return out
}

// SSMSEncode builds the shares of the documented layout.
func SSMSEncode(secret, key, tags []byte, n, t int, coef func(pos, j int) byte) [][]byte {
	ct := OFB(key, secret)
	per := (len(ct) + t - 1) / t
	pad := make([]byte, per*t)
	copy(pad, ct)
	rows := make([][]byte, t)
	xs := make([]byte, t)
	for i := range rows {
		rows[i] = pad[i*per : (i+1)*per]
		xs[i] = byte(i)
	}
	meta := make([]byte, 20)
	copy(meta, key)
	binary.LittleEndian.PutUint32(meta[16:], uint32(len(secret)))
	out := make([][]byte, n)
	for i := 0; i < n; i++ {
		var s []byte
		for p, v := range meta {
			c := make([]byte, t)
			c[0] = v
			for j := 1; j < t; j++ {
				c[j] = coef(p, j)
			}
			s = append(s, Eval(c, tags[i]))
		}
		s = append(s, tags[i])
		if i < t {
			s = append(s, rows[i]...)
		} else {
			s = append(s, InterpAt(xs, rows, byte(i))...)
		}
		out[i] = append(s, byte(i))
	}
	return out
}

// SSMSMeta recovers (key, length) from at least t genuine shares.
func SSMSMeta(sh [][]byte) (key []byte, length int) {
	xs := make([]byte, len(sh))
	rows := make([][]byte, len(sh))
	for i, s := range sh {
		xs[i] = s[20]
		rows[i] = s[:20]
	}
	m := InterpAt(xs, rows, 0)
	return m[:16], int(binary.LittleEndian.Uint32(m[16:]))
}

// SSMSDecode decodes exactly t genuine shares.
func SSMSDecode(sh [][]byte, t int) ([]byte, error) {
	key, length := SSMSMeta(sh[:t])
	xs := make([]byte, t)
	rows := make([][]byte, t)
	per := -1
	for i := 0; i < t; i++ {
		s := sh[i]
		xs[i] = s[len(s)-1]
		rows[i] = s[21 : len(s)-1]
		if per >= 0 && len(rows[i]) != per {
			return nil, fmt.Errorf("ragged shards")
		}
		per = len(rows[i])
	}
	if length > per*t {
		return nil, fmt.Errorf("length field %d exceeds the data (%d)", length, per*t)
	}
	var ct []byte
	for i := 0; i < t; i++ {
		ct = append(ct, InterpAt(xs, rows, byte(i))...)
	}
	return OFB(key, ct[:length]), nil
}

// Rank is the rank over GF(2) of the given bit vectors (packed in uint64s).
func Rank(rows [][]uint64) int {
	r := 0
	if len(rows) == 0 {
		return 0
	}
	w := len(rows[0])
	m := make([][]uint64, len(rows))
	for i := range rows {
		m[i] = append([]uint64(nil), rows[i]...)
	}
	for col := 0; col < w*64 && r < len(m); col++ {
		p := -1
		for i := r; i < len(m); i++ {
			if m[i][col/64]>>(uint(col)%64)&1 == 1 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[r], m[p] = m[p], m[r]
		for i := 0; i < len(m); i++ {
			if i != r && m[i][col/64]>>(uint(col)%64)&1 == 1 {
				for k := range m[i] {
					m[i][k] ^= m[r][k]
				}
			}
		}
		r++
	}
	return r
}

// Pack packs bytes into words for Rank.
func Pack(b []byte) []uint64 {
	out := make([]uint64, (len(b)+7)/8)
	for i, v := range b {
		out[i/8] |= uint64(v) << (8 * (uint(i) % 8))
	}
	return out
}
