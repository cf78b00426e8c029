// Package emu executes the machine code of the arm64 assembly routines, so
// that the arm64 build's vector code can be explored on another machine. It
// knows the instructions such routines are made of; code with any other
// instruction is not run at all (Check).
package emu

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"unsafe"
)

var routines = map[string][]uint32{}

// Register is called by the generated stand-ins of the assembly routines.
func Register(name string, code []uint32) bool {
	for len(code) > 0 && code[len(code)-1] == 0 { // padding
		code = code[:len(code)-1]
	}
	routines[name] = code
	return true
}

// Check says which routine cannot be executed.
func Check() error {
	var names []string
	for n := range routines {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for pc, w := range routines[n] {
			if decode(w) == nil {
				return fmt.Errorf("%s: instruction %08x at %#x is not known to the emulator", n, w, pc*4)
			}
		}
	}
	return nil
}

// Routines counts what was registered.
func Routines() int { return len(routines) }

type vreg [16]byte

type machine struct {
	r          [32]uint64 // 31: the stack pointer
	v          [32]vreg
	n, z, c, o bool
	pc         int
	done       bool
}

type op func(m *machine)

// Arg is a parameter of a routine, laid out as the stack calling convention
// wants it.
type Arg struct {
	words []uint64
	size  int
	keep  interface{}
}

func Bytes(b []byte) Arg {
	var p uint64
	if cap(b) > 0 {
		p = uint64(uintptr(unsafe.Pointer(&b[:1][0])))
	}
	return Arg{[]uint64{p, uint64(len(b)), uint64(cap(b))}, 24, b}
}
func Word(x uint64) Arg { return Arg{[]uint64{x}, 8, nil} }
func Byte(x byte) Arg   { return Arg{[]uint64{uint64(x)}, 1, nil} }

// sink keeps the arguments on the heap.
var sink interface{}

// Call runs a routine.
func Call(name string, args ...Arg) {
	code := cache[name]
	if code == nil {
		code = prepare(name)
	}
	stack := make([]uint64, 160)
	mem := unsafe.Slice((*byte)(unsafe.Pointer(&stack[64])), 96*8)
	at := 8
	for _, a := range args {
		if a.size > 1 {
			at = (at + 7) &^ 7
			for i, w := range a.words {
				*(*uint64)(unsafe.Pointer(&mem[at+8*i])) = w
			}
		} else {
			mem[at] = byte(a.words[0])
		}
		at += a.size
	}
	m := machine{}
	for i := range m.r {
		m.r[i] = 0xdeadbeef00000000 + uint64(i)
	}
	for i := range m.v {
		for j := range m.v[i] {
			m.v[i][j] = byte(i*16 + j*7 + 1)
		}
	}
	m.r[31] = uint64(uintptr(unsafe.Pointer(&stack[64])))
	for !m.done {
		if m.pc < 0 || m.pc >= len(code) || code[m.pc] == nil {
			panic(fmt.Sprintf("%s leaves its code (%#x)", name, m.pc*4))
		}
		o := code[m.pc]
		m.pc++
		o(&m)
	}
	runtime.KeepAlive(args)
	runtime.KeepAlive(stack)
}

var cache = map[string][]op{}

// Prepare decodes everything that was registered.
func Prepare() {
	for n := range routines {
		prepare(n)
	}
}

func prepare(name string) []op {
	var code []op
	for _, w := range routines[name] {
		code = append(code, decode(w))
	}
	cache[name] = code
	return code
}

func ptr(a uint64) unsafe.Pointer {
	x := uintptr(a)
	return *(*unsafe.Pointer)(unsafe.Pointer(&x))
}

func load(a uint64, n int) uint64 {
	switch n {
	case 1:
		return uint64(*(*uint8)(ptr(a)))
	case 2:
		return uint64(*(*uint16)(ptr(a)))
	case 4:
		return uint64(*(*uint32)(ptr(a)))
	}
	return *(*uint64)(ptr(a))
}

func store(a uint64, n int, x uint64) {
	switch n {
	case 1:
		*(*uint8)(ptr(a)) = uint8(x)
	case 2:
		*(*uint16)(ptr(a)) = uint16(x)
	case 4:
		*(*uint32)(ptr(a)) = uint32(x)
	default:
		*(*uint64)(ptr(a)) = x
	}
}

func (m *machine) loadV(i int, a uint64, n int) {
	m.v[i] = vreg{}
	copy(m.v[i][:n], unsafe.Slice((*byte)(ptr(a)), n))
}
func (m *machine) storeV(i int, a uint64, n int) {
	copy(unsafe.Slice((*byte)(ptr(a)), n), m.v[i][:n])
}

// x reads a register where 31 is zero.
func (m *machine) x(i int) uint64 {
	if i == 31 {
		return 0
	}
	return m.r[i]
}
func (m *machine) set(i int, v uint64, sf bool) {
	if !sf {
		v = uint64(uint32(v))
	}
	if i != 31 {
		m.r[i] = v
	}
}

func (m *machine) addFlags(a, b uint64, carry uint64, sf bool) uint64 {
	if sf {
		s, c := bits.Add64(a, b, carry)
		m.n, m.z, m.c = int64(s) < 0, s == 0, c == 1
		m.o = (a^s)&(b^s)>>63 == 1
		return s
	}
	x, y := uint32(a), uint32(b)
	s, c := bits.Add32(x, y, uint32(carry))
	m.n, m.z, m.c = int32(s) < 0, s == 0, c == 1
	m.o = (x^s)&(y^s)>>31 == 1
	return uint64(s)
}

func (m *machine) cond(c int) bool {
	var r bool
	switch c >> 1 {
	case 0:
		r = m.z
	case 1:
		r = m.c
	case 2:
		r = m.n
	case 3:
		r = m.o
	case 4:
		r = m.c && !m.z
	case 5:
		r = m.n == m.o
	case 6:
		r = m.n == m.o && !m.z
	default:
		return true
	}
	return r != (c&1 == 1)
}

func field(w uint32, hi, lo uint) int { return int(w >> lo & (1<<(hi-lo+1) - 1)) }
func sfield(w uint32, hi, lo uint) int {
	n := hi - lo + 1
	return int(int32(w>>lo<<(32-n)) >> (32 - n))
}

// bitmask is the immediate of the logical instructions.
func bitmask(n, immr, imms int, sf bool) (uint64, bool) {
	l := bits.Len(uint(n<<6|^imms&0x3f)) - 1
	if l < 1 {
		return 0, false
	}
	size := 1 << uint(l)
	s, r := imms&(size-1), immr&(size-1)
	if s == size-1 || (!sf && n == 1) {
		return 0, false
	}
	e := uint64(1)<<uint(s+1) - 1
	mask := ^uint64(0) >> uint(64-size)
	e = (e>>uint(r) | e<<uint(size-r)) & mask
	for k := size; k < 64; k *= 2 {
		e |= e << uint(k)
	}
	return e, true
}

func shifted(x uint64, kind, by int, sf bool) uint64 {
	if !sf {
		x = uint64(uint32(x))
	}
	switch kind {
	case 0:
		return x << uint(by)
	case 1:
		return x >> uint(by)
	case 2:
		if sf {
			return uint64(int64(x) >> uint(by))
		}
		return uint64(uint32(int32(uint32(x)) >> uint(by)))
	}
	if sf {
		return bits.RotateLeft64(x, -by)
	}
	return uint64(bits.RotateLeft32(uint32(x), -by))
}

func decode(w uint32) op {
	rd, rn, rm := field(w, 4, 0), field(w, 9, 5), field(w, 20, 16)
	sf := w>>31 == 1
	q := w>>30&1 == 1
	vlen := 8
	if q {
		vlen = 16
	}
	switch {
	case w == 0xd65f03c0:
		return func(m *machine) { m.done = true }
	case w == 0xd503201f:
		return func(m *machine) {}
	case w&0xfc000000 == 0x14000000:
		d := sfield(w, 25, 0)
		return func(m *machine) { m.pc += d - 1 }
	case w&0xff000010 == 0x54000000:
		d, c := sfield(w, 23, 5), field(w, 3, 0)
		return func(m *machine) {
			if m.cond(c) {
				m.pc += d - 1
			}
		}
	case w&0x7e000000 == 0x34000000:
		d, nz := sfield(w, 23, 5), w>>24&1 == 1
		return func(m *machine) {
			x := m.x(rd)
			if !sf {
				x = uint64(uint32(x))
			}
			if (x != 0) == nz {
				m.pc += d - 1
			}
		}
	case w&0x7e000000 == 0x36000000:
		d, nz, b := sfield(w, 18, 5), w>>24&1 == 1, uint(w>>31<<5)|uint(field(w, 23, 19))
		return func(m *machine) {
			if (m.x(rd)>>b&1 == 1) == nz {
				m.pc += d - 1
			}
		}
	case w&0x1f800000 == 0x11000000: // add, sub immediate
		imm := uint64(field(w, 21, 10))
		if w>>22&1 == 1 {
			imm <<= 12
		}
		sub, s := q, w>>29&1 == 1
		return func(m *machine) {
			a := m.r[rn]
			if s {
				if sub {
					m.set(rd, m.addFlags(a, ^imm, 1, sf), sf)
				} else {
					m.set(rd, m.addFlags(a, imm, 0, sf), sf)
				}
				return
			}
			if sub {
				a -= imm
			} else {
				a += imm
			}
			if !sf {
				a = uint64(uint32(a))
			}
			m.r[rd] = a
		}
	case w&0x1f200000 == 0x0b000000: // add, sub shifted register
		kind, by := field(w, 23, 22), field(w, 15, 10)
		if kind == 3 {
			return nil
		}
		sub, s := q, w>>29&1 == 1
		return func(m *machine) {
			a, b := m.x(rn), shifted(m.x(rm), kind, by, sf)
			switch {
			case s && sub:
				a = m.addFlags(a, ^b, 1, sf)
			case s:
				a = m.addFlags(a, b, 0, sf)
			case sub:
				a -= b
			default:
				a += b
			}
			m.set(rd, a, sf)
		}
	case w&0x1f800000 == 0x12000000: // logical immediate
		imm, ok := bitmask(field(w, 22, 22), field(w, 21, 16), field(w, 15, 10), sf)
		if !ok {
			return nil
		}
		opc := field(w, 30, 29)
		return func(m *machine) {
			a := m.x(rn)
			switch opc {
			case 0, 3:
				a &= imm
			case 1:
				a |= imm
			case 2:
				a ^= imm
			}
			if opc == 3 {
				m.logicFlags(a, sf)
				m.set(rd, a, sf)
				return
			}
			if !sf {
				a = uint64(uint32(a))
			}
			m.r[rd] = a
		}
	case w&0x1f000000 == 0x0a000000: // logical shifted register
		kind, by, inv, opc := field(w, 23, 22), field(w, 15, 10), w>>21&1 == 1, field(w, 30, 29)
		return func(m *machine) {
			a, b := m.x(rn), shifted(m.x(rm), kind, by, sf)
			if inv {
				b = ^b
			}
			switch opc {
			case 0, 3:
				a &= b
			case 1:
				a |= b
			case 2:
				a ^= b
			}
			if opc == 3 {
				m.logicFlags(a, sf)
			}
			m.set(rd, a, sf)
		}
	case w&0x1f800000 == 0x12800000: // move wide
		opc, by, imm := field(w, 30, 29), uint(field(w, 22, 21)*16), uint64(field(w, 20, 5))
		switch opc {
		case 0:
			return func(m *machine) { m.set(rd, ^(imm << by), sf) }
		case 2:
			return func(m *machine) { m.set(rd, imm<<by, sf) }
		case 3:
			return func(m *machine) { m.set(rd, m.x(rd)&^(0xffff<<by)|imm<<by, sf) }
		}
		return nil
	case w&0x1f800000 == 0x13000000: // bit fields
		opc, r, s := field(w, 30, 29), uint(field(w, 21, 16)), uint(field(w, 15, 10))
		width := uint(32)
		if sf {
			width = 64
		}
		if opc != 2 && opc != 0 {
			return nil
		}
		return func(m *machine) {
			x := m.x(rn)
			if !sf {
				x = uint64(uint32(x))
			}
			var v uint64
			var top uint
			if s >= r {
				n := s - r + 1
				v = x >> r & (^uint64(0) >> (64 - n))
				top = n
			} else {
				v = x & (^uint64(0) >> (63 - s)) << (width - r)
				top = s + 1 + width - r
			}
			if opc == 0 && top < 64 && v>>(top-1)&1 == 1 {
				v |= ^uint64(0) << top
			}
			m.set(rd, v, sf)
		}
	case w&0x3b000000 == 0x39000000, w&0x3b200000 == 0x38000000, w&0x3b200c00 == 0x38200800:
		return decodeMem(w)
	case w&0x3a000000 == 0x28000000:
		return decodePair(w)
	case w&0xbfbf0000 == 0x0c000000 || w&0xbfa00000 == 0x0c800000: // ld1, st1
		var count int
		switch field(w, 15, 12) {
		case 7:
			count = 1
		case 10:
			count = 2
		case 6:
			count = 3
		case 2:
			count = 4
		default:
			return nil
		}
		ld, post := w>>22&1 == 1, w>>23&1 == 1
		return func(m *machine) {
			a := m.r[rn]
			for i := 0; i < count; i++ {
				if ld {
					m.loadV((rd+i)%32, a, vlen)
				} else {
					m.storeV((rd+i)%32, a, vlen)
				}
				a += uint64(vlen)
			}
			if post {
				if rm == 31 {
					m.r[rn] = a
				} else {
					m.r[rn] += m.r[rm]
				}
			}
		}
	case w&0xbffff000 == 0x0d40c000: // ld1r
		n := 1 << uint(field(w, 11, 10))
		return func(m *machine) {
			x := load(m.r[rn], n)
			m.dup(rd, x, n, vlen)
		}
	case w&0x9f20fc00 == 0x0e201c00: // bitwise
		u, size := w>>29&1, field(w, 23, 22)
		return func(m *machine) {
			a, b, d := m.v[rn], m.v[rm], m.v[rd]
			var o vreg
			for i := 0; i < vlen; i++ {
				if u == 0 {
					switch size {
					case 0:
						o[i] = a[i] & b[i]
					case 1:
						o[i] = a[i] &^ b[i]
					case 2:
						o[i] = a[i] | b[i]
					case 3:
						o[i] = a[i] | ^b[i]
					}
				} else {
					switch size {
					case 0:
						o[i] = a[i] ^ b[i]
					case 1:
						o[i] = b[i] ^ (b[i]^a[i])&d[i]
					case 2:
						o[i] = d[i] ^ (d[i]^a[i])&b[i]
					case 3:
						o[i] = d[i] ^ (d[i]^a[i])&^b[i]
					}
				}
			}
			m.v[rd] = o
		}
	case w&0xbfe0fc00 == 0x2e209c00: // pmul
		return func(m *machine) {
			var o vreg
			for i := 0; i < vlen; i++ {
				for k := uint(0); k < 8; k++ {
					if m.v[rm][i]>>k&1 == 1 {
						o[i] ^= m.v[rn][i] << k
					}
				}
			}
			m.v[rd] = o
		}
	case w&0xbfe08c00 == 0x0e000000: // tbl, tbx
		count, x := field(w, 14, 13)+1, w>>12&1 == 1
		return func(m *machine) {
			var table [64]byte
			for i := 0; i < count; i++ {
				copy(table[16*i:], m.v[(rn+i)%32][:])
			}
			var o vreg
			for i := 0; i < vlen; i++ {
				if k := int(m.v[rm][i]); k < 16*count {
					o[i] = table[k]
				} else if x {
					o[i] = m.v[rd][i]
				}
			}
			m.v[rd] = o
		}
	case w&0x9f800400 == 0x0f000400 && field(w, 22, 19) != 0: // shifts by an immediate
		size := bits.Len(uint(field(w, 22, 19))) - 1
		es := 8 << uint(size) // bits of an element
		imm := field(w, 22, 16)
		right, left := 2*es-imm, imm-es
		u, opc := w>>29&1 == 1, field(w, 15, 11)
		if !(u && opc == 0 || !u && opc == 0 || !u && opc == 10 || u && (opc == 8 || opc == 10)) || size == 3 && !q {
			return nil
		}
		return func(m *machine) {
			var o vreg
			n := es / 8
			for i := 0; i < vlen; i += n {
				x, d := elem(&m.v[rn], i, n), elem(&m.v[rd], i, n)
				ones := ^uint64(0) >> uint(64-es)
				switch {
				case opc == 0 && u:
					x = shr(x, right)
				case opc == 0:
					x = uint64(int64(x<<uint(64-es))>>uint(64-es)>>uint(min(right, 63))) & ones
				case opc == 10 && !u:
					x = x << uint(left) & ones
				case opc == 10:
					x = x<<uint(left)&ones | d&(1<<uint(left)-1)
				case opc == 8:
					x = shr(x, right) | d&^shr(ones, right)
				}
				setElem(&o, i, n, x)
			}
			m.v[rd] = o
		}
	case w&0xbfe0fc00 == 0x0e000400, w&0xbfe0fc00 == 0x0e000c00: // dup
		size, idx, ok := lane(field(w, 20, 16))
		if !ok {
			return nil
		}
		general := w>>11&1 == 1
		return func(m *machine) {
			x := m.x(rn)
			if !general {
				x = elem(&m.v[rn], idx*size, size)
			}
			m.dup(rd, x, size, vlen)
		}
	case w&0xffe0fc00 == 0x4e001c00: // ins from a general register
		size, idx, ok := lane(field(w, 20, 16))
		if !ok {
			return nil
		}
		return func(m *machine) { setElem(&m.v[rd], idx*size, size, m.x(rn)) }
	case w&0xffe08400 == 0x6e000400: // ins from an element
		size, idx, ok := lane(field(w, 20, 16))
		if !ok {
			return nil
		}
		from := field(w, 14, 11) / size
		return func(m *machine) { setElem(&m.v[rd], idx*size, size, elem(&m.v[rn], from*size, size)) }
	case w&0xbfe0fc00 == 0x0e003c00: // umov
		size, idx, ok := lane(field(w, 20, 16))
		if !ok {
			return nil
		}
		return func(m *machine) { m.set(rd, elem(&m.v[rn], idx*size, size), true) }
	case w&0xbff8fc00 == 0x0f00e400: // movi, bytes
		x := uint64(field(w, 18, 16)<<5 | field(w, 9, 5))
		return func(m *machine) { m.dup(rd, x, 1, vlen) }
	case w&0xfff8fc00 == 0x6f00e400: // movi, a mask of bytes
		sel := field(w, 18, 16)<<5 | field(w, 9, 5)
		var x uint64
		for k := uint(0); k < 8; k++ {
			if sel>>k&1 == 1 {
				x |= 0xff << (8 * k)
			}
		}
		return func(m *machine) { m.dup(rd, x, 8, 16) }
	}
	return nil
}

func shr(x uint64, by int) uint64 {
	if by >= 64 {
		return 0
	}
	return x >> uint(by)
}

func (m *machine) logicFlags(a uint64, sf bool) {
	if !sf {
		a = uint64(uint32(a)) << 32
	}
	m.n, m.z, m.c, m.o = int64(a) < 0, a == 0, false, false
}

func lane(imm5 int) (size, idx int, ok bool) {
	z := bits.TrailingZeros(uint(imm5))
	if z > 3 {
		return 0, 0, false
	}
	return 1 << uint(z), imm5 >> uint(z+1), true
}

func elem(v *vreg, at, n int) (x uint64) {
	for i := n - 1; i >= 0; i-- {
		x = x<<8 | uint64(v[at+i])
	}
	return
}
func setElem(v *vreg, at, n int, x uint64) {
	for i := 0; i < n; i++ {
		v[at+i] = byte(x >> uint(8*i))
	}
}
func (m *machine) dup(rd int, x uint64, n, vlen int) {
	var o vreg
	for i := 0; i < vlen; i += n {
		setElem(&o, i, n, x)
	}
	m.v[rd] = o
}

// decodeMem: loads and stores of one register.
func decodeMem(w uint32) op {
	rt, rn, rm := field(w, 4, 0), field(w, 9, 5), field(w, 20, 16)
	size, vec, opc := field(w, 31, 30), w>>26&1 == 1, field(w, 23, 22)
	n := 1 << uint(size)
	ld := opc&1 == 1
	sign := 0 // width to extend the sign to
	if vec {
		if opc >= 2 {
			if size != 0 {
				return nil
			}
			n = 16
		}
	} else if opc >= 2 {
		if size == 3 || size == 2 && opc == 3 {
			return nil
		}
		ld, sign = true, 64
		if opc == 3 {
			sign = 32
		}
	}
	var addr func(m *machine) uint64
	switch {
	case w&0x3b000000 == 0x39000000:
		off := uint64(field(w, 21, 10) * n)
		addr = func(m *machine) uint64 { return m.r[rn] + off }
	case w>>21&1 == 1:
		by := uint(0)
		if w>>12&1 == 1 {
			by = uint(bits.TrailingZeros(uint(n)))
		}
		switch field(w, 15, 13) {
		case 3, 7:
			addr = func(m *machine) uint64 { return m.r[rn] + m.x(rm)<<by }
		case 2:
			addr = func(m *machine) uint64 { return m.r[rn] + uint64(uint32(m.x(rm)))<<by }
		case 6:
			addr = func(m *machine) uint64 { return m.r[rn] + uint64(int64(int32(m.x(rm))))<<by }
		default:
			return nil
		}
	default:
		off := uint64(int64(sfield(w, 20, 12)))
		switch field(w, 11, 10) {
		case 0:
			addr = func(m *machine) uint64 { return m.r[rn] + off }
		case 1:
			addr = func(m *machine) uint64 { a := m.r[rn]; m.r[rn] += off; return a }
		case 3:
			addr = func(m *machine) uint64 { m.r[rn] += off; return m.r[rn] }
		default:
			return nil
		}
	}
	return func(m *machine) {
		a := addr(m)
		switch {
		case vec && ld:
			m.loadV(rt, a, n)
		case vec:
			m.storeV(rt, a, n)
		case ld:
			x := load(a, n)
			if sign > 0 {
				s := uint(64 - 8*n)
				x = uint64(int64(x<<s) >> s)
			}
			m.set(rt, x, sign != 32)
		default:
			store(a, n, m.x(rt))
		}
	}
}

// decodePair: loads and stores of two registers.
func decodePair(w uint32) op {
	rt, rn, rt2 := field(w, 4, 0), field(w, 9, 5), field(w, 14, 10)
	opc, vec, ld, mode := field(w, 31, 30), w>>26&1 == 1, w>>22&1 == 1, field(w, 24, 23)
	var n int
	if vec {
		if opc == 3 {
			return nil
		}
		n = 4 << uint(opc)
	} else {
		if opc != 0 && opc != 2 {
			return nil
		}
		n = 4 << uint(opc/2)
	}
	off := uint64(int64(sfield(w, 21, 15) * n))
	return func(m *machine) {
		a := m.r[rn]
		if mode != 1 {
			a += off
		}
		for i, r := range []int{rt, rt2} {
			p := a + uint64(i*n)
			switch {
			case vec && ld:
				m.loadV(r, p, n)
			case vec:
				m.storeV(r, p, n)
			case ld:
				m.set(r, load(p, n), true)
			default:
				store(p, n, m.x(r))
			}
		}
		switch mode {
		case 1:
			m.r[rn] += off
		case 3:
			m.r[rn] = a
		}
	}
}
