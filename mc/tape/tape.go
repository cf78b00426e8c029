// Package tape is the harness-controlled source of every random value: three
// independent sources (OS CSPRNG, seedable PRNG, AES keystream), each an
// explicit list of bytes followed by a deterministic default generator.
package tape

import (
	"fmt"
	"sync"
)

var mu sync.Mutex

// Stream is a byte source: Prefix, Const, then a default generator.
type Stream struct {
	Name     string
	Prefix   map[int]byte // by position
	Const    *byte        // the first ConstLen bytes, unless in Prefix
	ConstLen int
	Pos      int
	Limit    int
	// Flip, when set, changes the delivered byte at a position.
	Flip       func(off int) byte
	base, word uint64
}

// Exhausted is the panic value raised when a call draws absurdly many bytes.
type Exhausted struct{ Stream string }

func (e Exhausted) Error() string {
	return fmt.Sprintf("no result after drawing the whole budget of %s bytes (livelock)", e.Stream)
}

var (
	Crypto = &Stream{Name: "OS random"}
	Math   = &Stream{Name: "seedable PRNG"}
	AES    = &KeyStream{}
	seed   uint64
	// Keys lists (a fingerprint of) every key given to a keystream.
	Keys []uint64
	// MathSeeds counts calls of Seed/NewSource on the seedable PRNG.
	MathSeeds int
)

// KeyStream models AES-CTR: a function of (key, iv, offset).
type KeyStream struct {
	Override map[uint64]byte // by offset, for every key
	Const    *byte           // bytes at offsets below ConstLen (unless overridden)
	ConstLen uint64
	Prefix   []byte // bytes at offsets 0.. (unless overridden)
	Shared   bool   // the default bytes do not depend on the key
	// Flip, when set, changes the delivered byte of a (key, iv) at an offset.
	Flip   func(id, off uint64) byte
	LastID uint64
	MaxOff uint64 // highest offset delivered + 1
	Total  int
	Limit  int
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Reset rewinds all sources to default generators derived from seed.
//
//go:norace
func Reset(sd uint64) {
	lock()
	defer unlock()
	seed = sd
	for k, s := range []*Stream{Crypto, Math} {
		*s = Stream{Name: s.Name, Limit: 1 << 31, base: mix(sd*2 + uint64(k) + 1)}
	}
	*AES = KeyStream{Limit: 1 << 31}
	Keys = Keys[:0]
}

func init() { Reset(1) }

// Fill delivers the next len(b) bytes.
//
//go:norace
func (s *Stream) Fill(b []byte) {
	touch(b, true)
	lock()
	defer unlock()
	if s.Limit -= len(b); s.Limit < 0 {
		panic(Exhausted{s.Name})
	}
	if len(s.Prefix) == 0 && s.Const == nil && s.Flip == nil {
		p := uint64(s.Pos)
		for i := range b {
			if i == 0 || p&7 == 0 {
				s.word = mix(s.base + p>>3)
			}
			b[i] = byte(s.word >> (8 * (p & 7)))
			p++
		}
		s.Pos = int(p)
		return
	}
	for i := range b {
		if v, ok := s.Prefix[s.Pos]; ok {
			b[i] = v
		} else if s.Const != nil && s.Pos < s.ConstLen {
			b[i] = *s.Const
		} else {
			b[i] = byte(mix(s.base+uint64(s.Pos)>>3) >> (8 * (uint(s.Pos) & 7)))
		}
		if s.Flip != nil {
			b[i] ^= s.Flip(s.Pos)
		}
		s.Pos++
	}
}

// ByteAt is the default byte at a position.
func (s *Stream) ByteAt(i int) byte {
	return byte(mix(s.base+uint64(i)>>3) >> (8 * (uint(i) & 7)))
}

// ByteAt is the default byte at an offset of a Shared keystream.
func (k *KeyStream) ByteAt(o uint64) byte {
	return byte(mix(mix(seed)+o>>3) >> (8 * (o & 7)))
}

// XOR xors the keystream for (key, iv) at offset onto src into dst.
//
//go:norace
func (k *KeyStream) XOR(id uint64, dst, src []byte, offset uint64) {
	touch(src, false)
	touch(dst[:len(src)], true)
	lock()
	defer unlock()
	if k.Limit -= len(src); k.Limit < 0 {
		panic(Exhausted{"keystream"})
	}
	base := mix(id ^ mix(seed))
	if k.Shared {
		base = mix(seed)
	}
	k.Total += len(src)
	k.LastID = id
	if len(k.Override) == 0 && k.Const == nil && len(k.Prefix) == 0 && k.Flip == nil {
		var w uint64
		for i := range src {
			o := offset + uint64(i)
			if i == 0 || o&7 == 0 {
				w = mix(base + o>>3)
			}
			dst[i] = src[i] ^ byte(w>>(8*(o&7)))
		}
	} else {
		for i := range src {
			o := offset + uint64(i)
			var v byte
			if w, ok := k.Override[o]; ok {
				v = w
			} else if o < uint64(len(k.Prefix)) {
				v = k.Prefix[o]
			} else if k.Const != nil && o < k.ConstLen {
				v = *k.Const
			} else {
				v = byte(mix(base+o>>3) >> (8 * (o & 7)))
			}
			if k.Flip != nil {
				v ^= k.Flip(id, o)
			}
			dst[i] = src[i] ^ v
		}
	}
	if e := offset + uint64(len(src)); e > k.MaxOff {
		k.MaxOff = e
	}
}

// NoteKey records a key.
//
//go:norace
func NoteKey(key []byte) {
	id := ID(key, nil)
	lock()
	Keys = append(Keys, id)
	unlock()
}

// NoteSeed records a seeding of the seedable PRNG.
//
//go:norace
func NoteSeed() { MathSeeds++ }

// ID identifies a (key, iv) pair.
func ID(key, iv []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range [][]byte{key, iv} {
		for _, c := range p {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = mix(h)
	}
	return h
}
