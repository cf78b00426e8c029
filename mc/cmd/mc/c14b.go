package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/fadhilkurnia/shamir/csprng"
)

func init() {
	reg("C14", "wraps", c14Wraps)
}

// c14Wraps: every product of how many blocks come before a carry, which bit
// of the counter it leaves, what lies above it, and how it is read.
func c14Wraps(c *Ctx) {
	dists := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537}
	if c.thorough {
		dists = append(dists, 1<<18, 1<<20-1, 1<<20, 1<<20+1, 1<<22)
	}
	steps := []int{0, 1<<16 - 1, 1 << 16, 4096, 1000, 16, 5}
	for _, w := range []int{8, 16, 24, 31, 32, 33, 48, 63, 64, 65, 72, 96, 127, 128} {
		for _, d := range dists {
			for hi := 0; hi < 3; hi++ {
				w, d, hi := w, d, hi
				if w < 24 && d>>uint(w) > 0 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("%d blocks before the carry out of bit %d, pattern %d above", d, w, hi)
				}, func() string {
					top := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(int64(d)))
					switch hi {
					case 1:
						top.Add(top, new(big.Int).Lsh(new(big.Int).SetBytes(genKey[16:]), uint(w)))
					case 2: // the bit above is set as well
						top.Add(top, new(big.Int).Lsh(big.NewInt(3), uint(w)))
					}
					if d == 0 {
						top.Sub(top, big.NewInt(1)) // wraps at the first step
					}
					top.And(top, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
					kv := clone(genKey)
					for i := 16; i < 32; i++ {
						kv[i] = 0
					}
					ib := top.Bytes()
					copy(kv[32-len(ib):], ib)
					total := d*16 + 3000
					want := stdCTR(kv, total)
					buf := make([]byte, total)
					for _, st := range steps {
						if st > 0 && (st >= total || st < 1000 && total > 1<<17) {
							continue
						}
						if st == 0 {
							st = total
						}
						g := csprng.NewCSPRNGWithKeyIV(clone(kv))
						for off := 0; off < total; off += st {
							e := off + st
							if e > total {
								e = total
							}
							if n, err := g.Read(buf[off:e]); n != e-off || err != nil {
								return fmt.Sprintf("a read of %d bytes returns %d, %v", e-off, n, err)
							}
						}
						if !bytes.Equal(buf, want) {
							return diffAt(fmt.Sprintf("reads of %d bytes deliver", st), buf, want)
						}
						c.Eval(1)
					}
					c.Distinct(hash("wrap", w, d, hi))
					return ""
				})
			}
		}
	}
}
