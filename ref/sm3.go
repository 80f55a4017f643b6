// Package ref holds small, independent reference models (oracles) of SM2, SM3,
// SM4, HMAC-SM3 and the DER forms used by gm. It imports nothing from gm and
// nothing from crypto/elliptic.
package ref

import "math/bits"

// SM3 computes the GB/T 32905-2016 digest, written directly from the standard.
func SM3(parts ...[]byte) [32]byte {
	var s SM3State
	s.Init()
	for _, p := range parts {
		s.Write(p)
	}
	return s.Sum()
}

// SM3State is an incremental form of the same model, used where the message is
// too long to hold.
type SM3State struct {
	v   [8]uint32
	buf [64]byte
	n   int
	len uint64
}

var tj [64]uint32

func init() {
	for j := 0; j < 64; j++ {
		t := uint32(0x7a879d8a)
		if j < 16 {
			t = 0x79cc4519
		}
		tj[j] = bits.RotateLeft32(t, j%32)
	}
}

func (s *SM3State) Init() {
	*s = SM3State{v: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

func (s *SM3State) Write(p []byte) {
	s.len += uint64(len(p))
	if s.n > 0 {
		c := copy(s.buf[s.n:], p)
		s.n += c
		p = p[c:]
		if s.n == 64 {
			s.block(s.buf[:])
			s.n = 0
		}
	}
	for len(p) >= 64 {
		s.block(p[:64])
		p = p[64:]
	}
	if len(p) > 0 {
		s.n = copy(s.buf[:], p)
	}
}

// Sum does not modify s.
func (s *SM3State) Sum() (out [32]byte) {
	t := *s
	l := t.len * 8
	pad := []byte{0x80}
	for (t.n+len(pad))%64 != 56 {
		pad = append(pad, 0)
	}
	for i := 7; i >= 0; i-- {
		pad = append(pad, byte(l>>(8*i)))
	}
	t.Write(pad)
	for i, v := range t.v {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return
}

func (s *SM3State) block(b []byte) {
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		w[j] = x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a, bb, c, d, e, f, g, h := s.v[0], s.v[1], s.v[2], s.v[3], s.v[4], s.v[5], s.v[6], s.v[7]
	for j := 0; j < 64; j++ {
		ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+tj[j], 7)
		ss2 := ss1 ^ bits.RotateLeft32(a, 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = a^bb^c, e^f^g
		} else {
			ff, gg = (a&bb)|(a&c)|(bb&c), (e&f)|(^e&g)
		}
		tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		d, c, bb, a = c, bits.RotateLeft32(bb, 9), a, tt1
		h, g, f, e = g, bits.RotateLeft32(f, 19), e, tt2^bits.RotateLeft32(tt2, 9)^bits.RotateLeft32(tt2, 17)
	}
	for i, x := range []uint32{a, bb, c, d, e, f, g, h} {
		s.v[i] ^= x
	}
}

// HMACSM3 is RFC 2104 HMAC over SM3 with its 64-byte block.
func HMACSM3(key, msg []byte) [32]byte {
	if len(key) > 64 {
		k := SM3(key)
		key = k[:]
	}
	ip, op := make([]byte, 64), make([]byte, 64)
	copy(ip, key)
	copy(op, key)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	in := SM3(ip, msg)
	return SM3(op, in[:])
}
