// Package cryptorand stands in for crypto/rand.
package cryptorand

import (
	real "crypto/rand"
	"io"
	"math/big"
	"os"
	"sync"

	"github.com/fadhilkurnia/shamir/aaverif/tape"
)

type reader struct{}

var mu sync.Mutex

// Fault, when set, decides how a read of n bytes ends: how many are delivered
// and with what error.
var Fault func(n int) (int, error)

// Ended tells that crypto/rand has ended the process: Read does so when its
// source fails. With Ends set it really ends it; else the caller goes on, and
// nothing that follows counts.
var Ended, Ends bool

func (reader) Read(b []byte) (int, error) {
	if Fault != nil {
		mu.Lock()
		n, err := Fault(len(b))
		mu.Unlock()
		tape.Crypto.Fill(b[:n])
		return n, err
	}
	tape.Crypto.Fill(b)
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) {
	n, err := io.ReadFull(Reader, b)
	if err != nil {
		if Ends {
			os.Exit(2)
		}
		mu.Lock()
		Ended = true
		mu.Unlock()
		tape.Crypto.Fill(b[n:])
	}
	return len(b), nil
}
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return real.Prime(r, bits) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
