package ref

import "math/bits"

// The SM4 S-box is derived algebraically: S(x) = A(I(A(x))), I the inverse in
// GF(2^8) modulo x^8+x^7+x^6+x^5+x^4+x^2+1, A the affine map of the standard.
var sbox [256]byte

func gmul(a, b uint16) uint16 {
	var r uint16
	for b != 0 {
		if b&1 != 0 {
			r ^= a
		}
		a <<= 1
		if a&0x100 != 0 {
			a ^= 0x1f5
		}
		b >>= 1
	}
	return r
}

func affine(x byte) byte {
	var y byte
	row := byte(0xa7) // circulant rows: 11100101.. read as bit i of y = parity(x & rot(row,i))
	for i := 0; i < 8; i++ {
		if bits.OnesCount8(x&bits.RotateLeft8(row, i))&1 == 1 {
			y |= 1 << i
		}
	}
	return y ^ 0xd3
}

func init() {
	var inv [256]byte
	for a := 1; a < 256; a++ {
		for b := 1; b < 256; b++ {
			if gmul(uint16(a), uint16(b)) == 1 {
				inv[a] = byte(b)
			}
		}
	}
	for x := 0; x < 256; x++ {
		sbox[x] = affine(inv[affine(byte(x))])
	}
}

func tauw(a uint32) uint32 {
	return uint32(sbox[a>>24])<<24 | uint32(sbox[a>>16&255])<<16 | uint32(sbox[a>>8&255])<<8 | uint32(sbox[a&255])
}

// SM4 is a key-scheduled GB/T 32907 cipher.
type SM4 struct{ rk [32]uint32 }

func NewSM4(key []byte) *SM4 {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	var k [36]uint32
	for i := 0; i < 4; i++ {
		k[i] = (uint32(key[4*i])<<24 | uint32(key[4*i+1])<<16 | uint32(key[4*i+2])<<8 | uint32(key[4*i+3])) ^ fk[i]
	}
	c := new(SM4)
	for i := 0; i < 32; i++ {
		var ck uint32
		for j := 0; j < 4; j++ {
			ck = ck<<8 | uint32(byte((4*i+j)*7))
		}
		b := tauw(k[i+1] ^ k[i+2] ^ k[i+3] ^ ck)
		k[i+4] = k[i] ^ b ^ bits.RotateLeft32(b, 13) ^ bits.RotateLeft32(b, 23)
		c.rk[i] = k[i+4]
	}
	return c
}

func (c *SM4) crypt(in []byte, dec bool) []byte {
	var x [36]uint32
	for i := 0; i < 4; i++ {
		x[i] = uint32(in[4*i])<<24 | uint32(in[4*i+1])<<16 | uint32(in[4*i+2])<<8 | uint32(in[4*i+3])
	}
	for i := 0; i < 32; i++ {
		rk := c.rk[i]
		if dec {
			rk = c.rk[31-i]
		}
		b := tauw(x[i+1] ^ x[i+2] ^ x[i+3] ^ rk)
		x[i+4] = x[i] ^ b ^ bits.RotateLeft32(b, 2) ^ bits.RotateLeft32(b, 10) ^ bits.RotateLeft32(b, 18) ^ bits.RotateLeft32(b, 24)
	}
	out := make([]byte, 16)
	for i := 0; i < 4; i++ {
		v := x[35-i]
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return out
}

func (c *SM4) Enc(b []byte) []byte { return c.crypt(b, false) }
func (c *SM4) Dec(b []byte) []byte { return c.crypt(b, true) }

func (c *SM4) ECB(in []byte, dec bool) []byte {
	out := []byte{}
	for i := 0; i < len(in); i += 16 {
		out = append(out, c.crypt(in[i:i+16], dec)...)
	}
	return out
}

func (c *SM4) CBCEnc(iv, in []byte) []byte {
	out := []byte{}
	prev := iv
	for i := 0; i < len(in); i += 16 {
		b := make([]byte, 16)
		for j := range b {
			b[j] = in[i+j] ^ prev[j]
		}
		prev = c.crypt(b, false)
		out = append(out, prev...)
	}
	return out
}

func (c *SM4) CBCDec(iv, in []byte) []byte {
	out := []byte{}
	prev := iv
	for i := 0; i < len(in); i += 16 {
		b := c.crypt(in[i:i+16], true)
		for j := range b {
			b[j] ^= prev[j]
		}
		prev = in[i : i+16]
		out = append(out, b...)
	}
	return out
}
