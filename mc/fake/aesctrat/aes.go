// Package aesctrat stands in for github.com/starius/aesctrat: same interface,
// keystream bytes taken from the tape as a function of (key, iv, offset).
package aesctrat

import (
	"fmt"
	"unsafe"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

const BlockSize = 16

type AesCtr struct{ key []byte }

func NewAesCtr(key []byte) *AesCtr {
	switch len(key) {
	case 16, 24, 32:
	default:
		panic(fmt.Sprintf("bad key length: %d", len(key)))
	}
	tape.NoteKey(key)
	return &AesCtr{key: append([]byte(nil), key...)}
}

func (c *AesCtr) XORKeyStreamAt(dst, src, iv []byte, offset uint64) {
	if len(iv) != BlockSize {
		panic(fmt.Sprintf("bad IV length: %d", len(iv)))
	}
	if len(dst) != len(src) {
		panic("len(dst) != len(src)")
	}
	if len(dst) > 0 && &dst[0] != &src[0] {
		d, s := uintptr(unsafe.Pointer(&dst[0])), uintptr(unsafe.Pointer(&src[0]))
		n := uintptr(len(dst))
		if d < s+n && s < d+n {
			panic("invalid buffer overlap")
		}
	}
	tape.AES.XOR(tape.ID(c.key, iv), dst, src, offset)
}
