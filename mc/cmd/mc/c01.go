package main

import (
	"fmt"

	"github.com/fadhilkurnia/shamir/aaverif/ref"
	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

func init() {
	reg("C01", "grid", func(c *Ctx) { gridShamir(c, roundtrip) })
	reg("C01", "subsets", c01Subsets)
	reg("C01", "lengths", func(c *Ctx) { lengthsShamir(c, roundtrip) })
	reg("C01", "values", func(c *Ctx) { valuesShamir(c, roundtrip) })
	reg("C01", "huge", func(c *Ctx) { hugeShamir(c, roundtrip) })
	reg("C01", "draws", func(c *Ctx) { drawsShamir(c, roundtrip) })
	reg("C02", "grid", func(c *Ctx) { gridShamir(c, wellFormed) })
	reg("C02", "lengths", func(c *Ctx) { lengthsShamir(c, wellFormed) })
	reg("C02", "values", func(c *Ctx) { valuesShamir(c, wellFormed) })
	reg("C02", "huge", func(c *Ctx) { hugeShamir(c, wellFormed) })
	reg("C02", "draws", func(c *Ctx) { drawsShamir(c, wellFormed) })
}

type judge func(secret []byte, sh [][]byte, n, t int) string

func roundtrip(secret []byte, sh [][]byte, n, t int) string {
	if len(sh) < t {
		return fmt.Sprintf("%d shares, threshold %d", len(sh), t)
	}
	subs := someSubsets(len(sh), t)
	if len(secret)*t > 1<<16 {
		subs = subs[:2]
	}
	for _, s := range subs {
		if m := combineIs(sh, s, secret); m != "" {
			return m
		}
	}
	return ""
}

func wellFormed(secret []byte, sh [][]byte, n, t int) string {
	return ref.CheckSharing(secret, sh, n, t)
}

func splitOK(v variant, secret []byte, n, t int) ([][]byte, string) {
	sh, err := v.f(secret, n, t, newGen())
	if err != nil {
		return nil, "split failed: " + err.Error()
	}
	return sh, ""
}

func gridShamir(c *Ctx, j judge) {
	grid := ntGrid(c.thorough, 40)
	if c.variant == "noasm" || c.cpuLow() {
		grid = ntGrid(false, 20)
	}
	for _, v := range shamirVariants {
		for _, g := range grid {
			v, n, t := v, g[0], g[1]
			N := 1 + (n*7+t)%5
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				secret := secretOf(N, n*256+t)
				sh, m := splitOK(v, secret, n, t)
				if m != "" {
					return m
				}
				c.Distinct(hash(v.name, n, t, N))
				return j(secret, sh, n, t)
			})
		}
	}
}

func c01Subsets(c *Ctx) {
	max := 7
	if c.thorough {
		max = 9
	}
	for _, v := range shamirVariants {
		for n := 2; n <= max; n++ {
			for t := 2; t <= n; t++ {
				v, n, t := v, n, t
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d: every subset of >= t shares", v.name, n, t) }, func() string {
					secret := secretOf(4, n*16+t)
					sh, m := splitOK(v, secret, n, t)
					if m != "" {
						return m
					}
					msg := ""
					for _, s := range subsets(n, t, n) {
						if len(s) <= 5 && n <= 7 || len(s) <= 4 {
							permutations(s, func(p []int) bool {
								c.Eval(1)
								c.Distinct(hash(v.name, n, t, fmt.Sprint(p)))
								msg = combineIs(sh, p, secret)
								return msg == ""
							})
						} else {
							rot := append(append([]int{}, s[len(s)/2:]...), s[:len(s)/2]...)
							for _, p := range [][]int{s, reversed(s), rot} {
								c.Eval(1)
								c.Distinct(hash(v.name, n, t, fmt.Sprint(p)))
								if msg == "" {
									msg = combineIs(sh, p, secret)
								}
							}
						}
						if msg != "" {
							return msg
						}
					}
					return ""
				})
			}
		}
	}
}

// lengthList: every length to lim, then around powers of two and chunk sizes.
func lengthList(lim, top int) []int {
	var out []int
	for n := 1; n <= lim; n++ {
		out = append(out, n)
	}
	for _, b := range []int{2048, 3072, 4096, 5120, 8192, 10240, 16384, 32768, 65536, 131072, 262144, 524288, 1 << 20} {
		for d := -1; d <= 1; d++ {
			if b+d > lim && b+d <= top {
				out = append(out, b+d)
			}
		}
		if b+33 > lim && b+33 <= top {
			out = append(out, b+33)
		}
	}
	return out
}

func (c *Ctx) cpuLow() bool { return cpuLevel() != "" }

func lengthsShamir(c *Ctx, j judge) {
	lim, top := 1300, 140000
	if c.thorough {
		lim, top = 4200, 1<<20+40
	}
	if c.variant == "noasm" || c.cpuLow() {
		lim, top = 700, 70000
	}
	for _, g := range [][2]int{{3, 2}, {5, 4}, {4, 3}} {
		for _, v := range shamirVariants {
			for _, N := range lengthList(lim, top) {
				if g[0] == 4 && !(c.thorough && N < 2100 || N%5 == 0 && N < 2100) {
					continue
				}
				v, n, t, N := v, g[0], g[1], N
				c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
					secret := secretOf(N, N)
					sh, m := splitOK(v, secret, n, t)
					if m != "" {
						return m
					}
					c.Distinct(hash(v.name, n, t, N))
					return j(secret, sh, n, t)
				})
			}
		}
	}
}

// hugeShamir: secrets past every size limit that is likely in buffers and
// random sources.
func hugeShamir(c *Ctx, j judge) {
	lens := []int{1<<20 + 1, 1<<21 + 9, 1<<22 - 5}
	if c.thorough {
		lens = append(lens, 1<<22+3, 1<<23+1, 1<<24+3, 1<<25+31)
	}
	for _, v := range shamirVariants {
		for _, N := range lens {
			v, N := v, N
			c.Case(func() string { return fmt.Sprintf("%s n=2 t=2 len=%d", v.name, N) }, func() string {
				secret := secretOf(N, N)
				sh, m := splitOK(v, secret, 2, 2)
				if m != "" {
					return m
				}
				c.Distinct(hash(v.name, "huge", N))
				beat()
				return j(secret, sh, 2, 2)
			})
		}
		for _, g := range [][3]int{{300007, 3, 3}, {200003, 9, 8}, {70001, 33, 3}, {600011, 3, 2}} {
			v, N, n, t := v, g[0], g[1], g[2]
			c.Case(func() string { return fmt.Sprintf("%s n=%d t=%d len=%d", v.name, n, t, N) }, func() string {
				secret := secretOf(N, N)
				sh, m := splitOK(v, secret, n, t)
				if m != "" {
					return m
				}
				c.Distinct(hash(v.name, "huge", N, n, t))
				beat()
				return j(secret, sh, n, t)
			})
		}
	}
}

// valuesShamir: every (secret byte, coefficient, tag) combination that 255
// shares of 64K-byte secrets under several random streams produce; how many
// of the combinations occurred is measured and reported.
func valuesShamir(c *Ctx, j judge) {
	reps := 1
	if c.thorough {
		reps = 4
	}
	for _, v := range shamirVariants {
		for rep := 0; rep < reps; rep++ {
			for t := 2; t <= 3; t++ {
				v, rep, t := v, rep, t
				c.Case(func() string { return fmt.Sprintf("%s n=255 t=%d len=65536 stream %d", v.name, t, rep) }, func() string {
					tape.Reset(c.seed + 1000*uint64(rep))
					secret := make([]byte, 65536)
					for i := range secret {
						secret[i] = byte(i)
					}
					sh, m := splitOK(v, secret, 255, t)
					if m != "" {
						return m
					}
					if len(sh) != 255 {
						return fmt.Sprintf("%d shares", len(sh))
					}
					co := ref.Coefs(sh, t)
					var seen [256][256]bool
					k := 0
					for i := range secret {
						a, b := co[0][i], co[1][i]
						if !seen[a][b] {
							seen[a][b] = true
							k++
						}
					}
					c.Count("secret_byte_x_coefficient_pairs", k)
					c.Count("share_bytes_checked", 255*65536)
					c.Distinct(hash(v.name, t, rep))
					// 255 points: judge whole set structurally and sampled pairs by Combine
					if m := j(secret, sh[:20], 20, t); m != "" {
						return m
					}
					return ref.CheckSharing(secret, sh, 255, t)
				})
			}
		}
	}
}

// drawsShamir: the leading random bytes take every value.
func drawsShamir(c *Ctx, j judge) {
	apply := func(stream string, prefix map[int]byte) {
		switch stream {
		case "OS":
			tape.Crypto.Prefix = prefix
		case "PRNG":
			tape.Math.Prefix = prefix
		case "key":
			tape.AES.Override = map[uint64]byte{}
			for k, b := range prefix {
				tape.AES.Override[uint64(k)] = b
			}
		}
	}
	one := func(v variant, stream string, prefix map[int]byte, N, n, t int) string {
		tape.Reset(c.seed)
		apply(stream, prefix)
		secret := secretOf(N, 5)
		sh, m := splitOK(v, secret, n, t)
		if m != "" {
			return m
		}
		return j(secret, sh, n, t)
	}
	for _, v := range shamirVariants {
		streams := []string{"OS", "PRNG"}
		if v.gen {
			streams = []string{"key"}
		}
		for _, st := range streams {
			v, st := v, st
			// pairs of leading bytes
			step := 1
			if !v.gen && !c.thorough {
				step = 5
			}
			for hi := 0; hi < 256; hi++ {
				hi := hi
				c.Case(func() string {
					return fmt.Sprintf("%s n=3 t=2 len=2, %s bytes 0,1 = (%d, every value)", v.name, st, hi)
				}, func() string {
					for lo := hi % step; lo < 256; lo += step {
						c.Eval(1)
						if m := one(v, st, map[int]byte{0: byte(hi), 1: byte(lo)}, 2, 3, 2); m != "" {
							return fmt.Sprintf("second byte %d: %s", lo, m)
						}
					}
					c.Distinct(hash(v.name, st, hi))
					return ""
				})
			}
			// runs of one value, for several shapes
			for _, sh := range [][3]int{{2, 2, 1}, {5, 3, 4}, {19, 4, 3}, {20, 2, 3}, {40, 3, 2}, {255, 2, 2}} {
				sh := sh
				c.Case(func() string {
					return fmt.Sprintf("%s n=%d t=%d len=%d, runs of a constant in the %s stream", v.name, sh[0], sh[1], sh[2], st)
				}, func() string {
					for val := 0; val < 256; val++ {
						for _, run := range []int{1, 2, sh[0], 64, 300} {
							if sh[0] == 255 && run < 64 && val%16 != 0 {
								continue
							}
							if st == "PRNG" && val%8 != 7 && val%8 != 0 {
								continue
							}
							p := map[int]byte{}
							for i := 0; i < run; i++ {
								p[i] = byte(val)
							}
							c.Eval(1)
							if m := one(v, st, p, sh[2], sh[0], sh[1]); m != "" {
								return fmt.Sprintf("%d bytes of value %d: %s", run, val, m)
							}
						}
					}
					c.Distinct(hash(v.name, st, "run", sh[0]))
					return ""
				})
			}
			// one deviating byte at each position
			shapes := [][3]int{{4, 3, 3}}
			if v.gen {
				shapes = append(shapes, [3]int{21, 2, 2})
			}
			for _, sh := range shapes {
				for pos := 0; pos < 40; pos++ {
					sh, pos := sh, pos
					if !v.gen && pos >= 12 {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("%s n=%d t=%d len=%d, every value of %s byte %d", v.name, sh[0], sh[1], sh[2], st, pos)
					}, func() string {
						for val := 0; val < 256; val++ {
							c.Eval(1)
							if m := one(v, st, map[int]byte{pos: byte(val)}, sh[2], sh[0], sh[1]); m != "" {
								return fmt.Sprintf("value %d: %s", val, m)
							}
						}
						c.Distinct(hash(v.name, st, "pos", pos, sh[0]))
						return ""
					})
				}
			}
		}
	}
}
