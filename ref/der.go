package ref

import (
	"errors"
	"math/big"
)

// A strict, minimal DER reader and writer for the few shapes gm uses.

var ErrDER = errors.New("ref: bad DER")

// TLV splits one strict-DER element off b.
func TLV(b []byte) (tag byte, content, full, rest []byte, err error) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return 0, nil, nil, nil, ErrDER
	}
	l, h := int(b[1]), 2
	if l >= 0x80 {
		n := l & 0x7f
		if n == 0 || n > 4 || len(b) < 2+n || b[2] == 0 {
			return 0, nil, nil, nil, ErrDER
		}
		l = 0
		for i := 0; i < n; i++ {
			l = l<<8 | int(b[2+i])
		}
		h += n
		if l < 0x80 {
			return 0, nil, nil, nil, ErrDER
		}
	}
	if l > len(b)-h {
		return 0, nil, nil, nil, ErrDER
	}
	return b[0], b[h : h+l], b[:h+l], b[h+l:], nil
}

func Int(b []byte) (v *big.Int, rest []byte, err error) {
	tag, c, _, rest, err := TLV(b)
	if err != nil || tag != 2 || len(c) == 0 {
		return nil, nil, ErrDER
	}
	if len(c) > 1 && (c[0] == 0 && c[1]&0x80 == 0 || c[0] == 0xff && c[1]&0x80 != 0) {
		return nil, nil, ErrDER
	}
	v = new(big.Int).SetBytes(c)
	if c[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(c))))
	}
	return v, rest, nil
}

func Octets(b []byte) (v, rest []byte, err error) {
	tag, c, _, rest, err := TLV(b)
	if err != nil || tag != 4 {
		return nil, nil, ErrDER
	}
	return c, rest, nil
}

// ParseSig accepts exactly SEQUENCE { INTEGER r, INTEGER s } and nothing after.
func ParseSig(b []byte) (r, s *big.Int, err error) {
	tag, c, _, rest, err := TLV(b)
	if err != nil || tag != 0x30 || len(rest) != 0 {
		return nil, nil, ErrDER
	}
	if r, c, err = Int(c); err != nil {
		return nil, nil, err
	}
	if s, c, err = Int(c); err != nil || len(c) != 0 {
		return nil, nil, ErrDER
	}
	return r, s, nil
}

func Enc(tag byte, parts ...[]byte) []byte {
	var c []byte
	for _, p := range parts {
		c = append(c, p...)
	}
	out := []byte{tag}
	switch l := len(c); {
	case l < 0x80:
		out = append(out, byte(l))
	case l < 0x100:
		out = append(out, 0x81, byte(l))
	case l < 0x10000:
		out = append(out, 0x82, byte(l>>8), byte(l))
	case l < 0x1000000:
		out = append(out, 0x83, byte(l>>16), byte(l>>8), byte(l))
	default:
		out = append(out, 0x84, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
	}
	return append(out, c...)
}

// EncInt encodes any integer minimally.
func EncInt(v *big.Int) []byte {
	if v.Sign() >= 0 {
		b := v.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return Enc(2, b)
	}
	n := 1
	for new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))).Cmp(v) > 0 {
		n++
	}
	w := new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	return Enc(2, w.FillBytes(make([]byte, n)))
}

func EncSig(r, s *big.Int) []byte { return Enc(0x30, EncInt(r), EncInt(s)) }

// CipherDER converts a raw ciphertext over the SM2 curve to GM/T 0009 DER.
func CipherDER(raw []byte, c1c2c3 bool) []byte {
	x, y := new(big.Int).SetBytes(raw[1:33]), new(big.Int).SetBytes(raw[33:65])
	rest := raw[65:]
	if c1c2c3 {
		n := len(rest) - 32
		return Enc(0x30, EncInt(x), EncInt(y), Enc(4, rest[:n]), Enc(4, rest[n:]))
	}
	return Enc(0x30, EncInt(x), EncInt(y), Enc(4, rest[:32]), Enc(4, rest[32:]))
}

// ParseCipher reads the DER form of a ciphertext, strictly, into the raw form.
func ParseCipher(b []byte, c1c2c3 bool) (raw []byte, err error) {
	tag, c, _, rest, err := TLV(b)
	if err != nil || tag != 0x30 || len(rest) != 0 {
		return nil, ErrDER
	}
	var x, y *big.Int
	if x, c, err = Int(c); err != nil {
		return nil, err
	}
	if y, c, err = Int(c); err != nil {
		return nil, err
	}
	if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > 256 || y.BitLen() > 256 {
		return nil, ErrDER
	}
	var u, v []byte
	if u, c, err = Octets(c); err != nil {
		return nil, err
	}
	if v, c, err = Octets(c); err != nil || len(c) != 0 {
		return nil, ErrDER
	}
	if c3 := map[bool][]byte{true: v, false: u}[c1c2c3]; len(c3) != 32 {
		return nil, ErrDER
	}
	raw = append([]byte{4}, B32(x)...)
	raw = append(raw, B32(y)...)
	raw = append(raw, u...)
	return append(raw, v...), nil
}
