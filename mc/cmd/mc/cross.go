package main

import (
	"bytes"
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

func init() {
	reg("C01", "cross", func(c *Ctx) { crossShamir(c, roundtripWindows) })
	reg("C01", "contents", func(c *Ctx) { contentsShamir(c, roundtrip) })
	reg("C02", "cross", func(c *Ctx) { crossShamir(c, wellFormed) })
	reg("C02", "contents", func(c *Ctx) { contentsShamir(c, wellFormed) })
	reg("C06", "cross", func(c *Ctx) { crossSSMS(c, false) })
	reg("C06", "contents", func(c *Ctx) { contentsSSMS(c, false) })
	reg("C08", "cross", func(c *Ctx) { crossSSMS(c, true) })
	reg("C08", "contents", func(c *Ctx) { contentsSSMS(c, true) })
}

var crossN = []int{2, 3, 5, 9, 16, 17, 33, 64, 100, 128, 129, 200, 255}
var crossT = []int{2, 3, 4, 8, 9, 16, 17, 32, 64, 100, 128, 129, 200, 255}
var crossLen = []int{1, 2, 8, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 384,
	511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 16384, 16400, 32768, 65535, 65536, 65537, 131073}

// crossShamir: the product of share counts, thresholds and lengths, so that
// limits on products of them (buffer sizes, table sizes) are passed too.
func crossShamir(c *Ctx, j judge) {
	limit := 6 << 20
	if c.thorough {
		limit = 200 << 20
	}
	for _, v := range shamirVariants {
		for _, n := range crossN {
			for _, t := range crossT {
				if t > n {
					continue
				}
				cost := n*t + t*t
				slow := 1
				if v.name == "SplitGeneric" || v.name == "SplitP" {
					slow = 3
				}
				for _, N := range crossLen {
					if cost*N*slow > limit {
						break
					}
					v, n, t, N := v, n, t, N
					c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
						secret := secretOf(N, N*255+n)
						sh, m := splitOK(v, secret, n, t)
						if m != "" {
							return m
						}
						c.Distinct(hash(v.name, n, t, N))
						return j(secret, sh, n, t)
					})
				}
			}
		}
	}
}

// roundtripWindows is roundtrip for shares too many or long to be combined as a
// whole: the reference combines all of them, Combine the first and last bytes.
func roundtripWindows(secret []byte, sh [][]byte, n, t int) string {
	if len(sh) < t {
		return fmt.Sprintf("%d shares, threshold %d", len(sh), t)
	}
	N := len(secret)
	subs := someSubsets(len(sh), t)
	if t*t*N <= 200000 {
		for _, s := range subs[:2] {
			if m := combineIs(sh, s, secret); m != "" {
				return m
			}
		}
		return ""
	}
	for _, s := range subs[:2] {
		some := pick(sh, s)
		for _, x := range some {
			if len(x) != N+1 {
				return fmt.Sprintf("a share of %d bytes for a secret of %d", len(x), N)
			}
		}
		if got := ref.InterpAt(ref.Tags(some), ref.Bodies(some), 0); !bytes.Equal(got, secret) {
			return fmt.Sprintf("shares %v stand for %s instead of %s", s, short(got), short(secret))
		}
	}
	some := pick(sh, subs[1])
	k := 1 + 60000/(t*t)
	if k > N {
		k = N
	}
	for _, at := range []int{0, N - k} {
		win := make([][]byte, t)
		for i, x := range some {
			win[i] = append(clone(x[at:at+k]), x[N])
		}
		if m := combineIs(win, upto(t), secret[at:at+k]); m != "" {
			return fmt.Sprintf("bytes %d..%d: %s", at, at+k, m)
		}
	}
	return ""
}

// patterns: contents a shortcut might treat specially.
func patterns(N int) [][]byte {
	var out [][]byte
	fill := func(v byte) []byte { return bytes.Repeat([]byte{v}, N) }
	for _, v := range []byte{0, 1, 2, 0x1d, 0x80, 0xfe, 0xff} {
		out = append(out, fill(v))
	}
	base := func() []byte {
		b := secretOf(N, N)
		for i := range b {
			if b[i] == 0 {
				b[i] = 7
			}
		}
		return b
	}
	cuts := []int{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, N / 2, N - 1}
	for _, v := range []byte{0, 0xff, ' ', '\n'} {
		seen := map[int]bool{}
		for _, k := range cuts {
			if k <= 0 || k >= N || seen[k] {
				continue
			}
			seen[k] = true
			b := base()
			copy(b, bytes.Repeat([]byte{v}, k))
			out = append(out, b)
			b = base()
			copy(b[N-k:], bytes.Repeat([]byte{v}, k))
			out = append(out, b)
			b = fill(v) // all but one byte
			b[k] ^= 0x55
			out = append(out, b)
		}
	}
	seq, half, pad := fill(0), base(), base()
	for i := range seq {
		seq[i] = byte(i)
	}
	copy(half[N/2:], half[:N/2]) // two equal halves
	if N > 16 {
		for i := N - 16; i < N; i++ { // block padding
			pad[i] = 16
		}
	}
	const phrase = "the quick brown fox \x00 {\"k\":1}\r\n"
	text := fill('a')
	for i := range text {
		text[i] = phrase[i%len(phrase)]
	}
	if N > 4 { // its own length in front and behind
		a := base()
		a[0], a[1], a[2], a[3] = byte(N), byte(N>>8), 0, 0
		b := base()
		b[N-4], b[N-3], b[N-2], b[N-1] = byte(N), byte(N>>8), 0, 0
		out = append(out, a, b)
	}
	return append(out, seq, half, pad, text)
}

var contentLens = []int{1, 2, 3, 5, 16, 17, 20, 21, 32, 40, 64, 128, 130, 257, 1025}

func contentsShamir(c *Ctx, j judge) {
	shapes := [][2]int{{2, 2}, {3, 2}, {5, 3}, {21, 4}}
	for _, v := range shamirVariants {
		for _, g := range shapes {
			for _, N := range contentLens {
				v, n, t, N := v, g[0], g[1], N
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d, all contents of the list", v.name, n, t, N) }, func() string {
					for k, secret := range patterns(N) {
						tape.Reset(c.seed + uint64(k))
						sh, m := splitOK(v, clone(secret), n, t)
						if m == "" {
							m = j(secret, sh, n, t)
						}
						if m != "" {
							return fmt.Sprintf("secret %s: %s", short(secret), m)
						}
						c.Eval(1)
					}
					c.Distinct(hash("contents", v.name, n, t, N))
					return ""
				})
			}
		}
	}
}

func crossSSMS(c *Ctx, layout bool) {
	limit := 6 << 20
	if c.thorough {
		limit = 100 << 20
	}
	for _, v := range ssmsVariants {
		for _, n := range crossN {
			for _, t := range crossT {
				if t > n || n > 64 && !c.thorough && t != 2 && t != 17 && t != n && t != 128 {
					continue
				}
				for _, N := range crossLen {
					if (n*21*t+t*t*21)*3+N*(n-t+1)*2 > limit || N > 300 && n > 64 && !c.thorough && N%1024 != 0 {
						continue
					}
					v, n, t, N := v, n, t, N
					c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
						secret := secretOf(N, N+n)
						sh, m := ssmsSplit(v, secret, n, t)
						if m != "" {
							return m
						}
						c.Distinct(hash("cross", v.name, n, t, N))
						return ssmsJudge(sh, secret, n, t, layout)
					})
				}
			}
		}
	}
}

func ssmsJudge(sh [][]byte, secret []byte, n, t int, layout bool) string {
	if layout {
		if m := ssmsData(sh, secret, n, t); m != "" {
			return m
		}
		s := someSubsets(n, t)[1][:t]
		got, err := ref.SSMSDecode(pick(sh, s), t)
		if err != nil || !bytes.Equal(got, secret) {
			return fmt.Sprintf("the reference decoder gives %s, %v from shares %v", short(got), err, s)
		}
		return ""
	}
	subs := someSubsets(n, t)
	for _, s := range [][]int{subs[1], subs[2]} {
		if m := ssmsIs(pick(sh, s), s, n, t, secret); m != "" {
			return m
		}
		if m := ssmsIs(holes(sh, s), fmt.Sprint(s, " with nil for the others"), n, t, secret); m != "" {
			return m
		}
	}
	return ""
}

// contentsSSMS: secrets of special contents, and secrets whose ciphertext has
// special contents (the key of the run is read off its shares first).
func contentsSSMS(c *Ctx, layout bool) {
	shapes := [][2]int{{2, 2}, {3, 2}, {5, 3}, {7, 5}}
	for _, v := range ssmsVariants {
		for _, g := range shapes {
			for _, N := range contentLens {
				v, n, t, N := v, g[0], g[1], N
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d, all contents of the list", v.name, n, t, N) }, func() string {
					for k, pat := range patterns(N) {
						for _, onCipher := range []bool{false, true} {
							secret := clone(pat)
							if onCipher {
								tape.Reset(c.seed + uint64(k))
								sh, m := ssmsSplit(v, make([]byte, N), n, t)
								if m != "" {
									return m
								}
								meta := make([][]byte, t)
								for i := range meta {
									meta[i] = sh[i][:21]
								}
								key := ref.Coefs(meta, t)[0][:16]
								for i, s := range ref.OFB(key, make([]byte, N)) {
									secret[i] ^= s
								}
							}
							tape.Reset(c.seed + uint64(k))
							sh, m := ssmsSplit(v, clone(secret), n, t)
							if m == "" {
								m = ssmsJudge(sh, secret, n, t, layout)
							}
							if m != "" {
								return fmt.Sprintf("secret %s (pattern in the ciphertext: %v): %s", short(secret), onCipher, m)
							}
							c.Eval(1)
						}
					}
					c.Distinct(hash("contents", v.name, n, t, N))
					return ""
				})
			}
		}
	}
}
