// Package cipher stands in for crypto/cipher: NewCTR yields the tape's
// keystream, everything else is the real thing.
package cipher

import (
	real "crypto/cipher"
	"io"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
	"github.com/fadhilkurnia/shamir/aaverif/vsched"
)

type (
	AEAD         = real.AEAD
	Block        = real.Block
	BlockMode    = real.BlockMode
	Stream       = real.Stream
	StreamReader = real.StreamReader
	StreamWriter = real.StreamWriter
)

var (
	_ io.Reader

	NewCBCDecrypter     = real.NewCBCDecrypter
	NewCBCEncrypter     = real.NewCBCEncrypter
	NewCFBDecrypter     = real.NewCFBDecrypter
	NewCFBEncrypter     = real.NewCFBEncrypter
	NewGCM              = real.NewGCM
	NewGCMWithNonceSize = real.NewGCMWithNonceSize
	NewGCMWithTagSize   = real.NewGCMWithTagSize
	NewOFB              = real.NewOFB
)

type ctr struct {
	id  uint64
	pos uint64
}

func (c *ctr) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	p := c.pos
	tape.AES.XOR(c.id, dst[:len(src)], src, p)
	vsched.P(-31) // a stream has no lock of its own
	c.pos = p + uint64(len(src))
}

func NewCTR(b Block, iv []byte) Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	// identify the key by the encryption of the zero block
	k := make([]byte, b.BlockSize())
	b.Encrypt(k, k)
	tape.NoteKey(k)
	return &ctr{id: tape.ID(k, iv)}
}
