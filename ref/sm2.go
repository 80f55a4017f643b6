package ref

import (
	"bytes"
	"errors"
	"math/big"
)

var DefaultID = []byte("1234567812345678")

// B32 is the fixed 32-byte big-endian form used in every hash of SM2 over a
// 256-bit field; the toy curves of the simulator use the same width.
func B32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// Z is the identity hash. id must be shorter than 8192 bytes.
func Z(c *Curve, id []byte, pub Point) []byte {
	l := len(id) * 8
	z := SM3([]byte{byte(l >> 8), byte(l)}, id, B32(c.A), B32(c.B), B32(c.Gx), B32(c.Gy), B32(pub.X), B32(pub.Y))
	return z[:]
}

// E is the integer form of the message hash.
func E(c *Curve, id []byte, pub Point, msg []byte) *big.Int {
	h := SM3(Z(c, id, pub), msg)
	return new(big.Int).SetBytes(h[:])
}

// SignK signs with a given scalar; ok is false where the standard says to draw
// another scalar.
func SignK(c *Curve, d, k *big.Int, e *big.Int) (r, s *big.Int, ok bool) {
	p := c.BaseMul(k)
	if p.Inf {
		return nil, nil, false
	}
	r = new(big.Int).Add(e, p.X)
	r.Mod(r, c.N)
	t := new(big.Int).Add(r, k)
	if r.Sign() == 0 || t.Cmp(c.N) == 0 {
		return nil, nil, false
	}
	inv := new(big.Int).Add(d, big.NewInt(1))
	if inv.ModInverse(inv, c.N) == nil {
		return nil, nil, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, inv)
	s.Mod(s, c.N)
	return r, s, s.Sign() != 0
}

// RecoverK returns the scalar behind a signature: k = s(1+d) + rd.
func RecoverK(c *Curve, d, r, s *big.Int) *big.Int {
	k := new(big.Int).Add(d, big.NewInt(1))
	k.Mul(k, s)
	t := new(big.Int).Mul(r, d)
	k.Add(k, t)
	return k.Mod(k, c.N)
}

// Verify is GM/T 0003.2 section 7 plus validation of the public key.
// If d is not nil it must be the discrete logarithm of pub (only a speed-up).
func Verify(c *Curve, pub Point, d *big.Int, id, msg []byte, r, s *big.Int) bool {
	if pub.Inf || !c.On(pub.X, pub.Y) {
		return false
	}
	one := big.NewInt(1)
	if r.Cmp(one) < 0 || r.Cmp(c.N) >= 0 || s.Cmp(one) < 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false
	}
	var q Point
	if d != nil {
		k := new(big.Int).Mul(t, d)
		k.Add(k, s)
		q = c.BaseMul(k)
	} else {
		q = c.Add(c.BaseMul(s), c.Mul(pub, t))
	}
	if q.Inf {
		return false
	}
	v := E(c, id, pub, msg)
	v.Add(v, q.X)
	v.Mod(v, c.N)
	return v.Cmp(r) == 0
}

// KDF is the SM3-based key derivation function.
func KDF(n int, in ...[]byte) []byte {
	var pre SM3State
	pre.Init()
	for _, p := range in {
		pre.Write(p)
	}
	out := make([]byte, 0, n+32)
	for ct := uint32(1); len(out) < n; ct++ {
		h := pre
		h.Write([]byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})
		d := h.Sum()
		out = append(out, d[:]...)
	}
	return out[:n]
}

func allZero(b []byte) bool {
	for _, v := range b {
		if v != 0 {
			return false
		}
	}
	return true
}

func (c *Curve) fieldLen() int { return (c.Bits + 7) / 8 }

// EncryptK encrypts with a given scalar; ok is false where the standard says
// to draw another one. c1c2c3 selects the old component order.
func EncryptK(c *Curve, pub Point, d, k *big.Int, msg []byte, c1c2c3 bool) (out []byte, ok bool) {
	p1 := c.BaseMul(k)
	var p2 Point
	if d != nil {
		p2 = c.BaseMul(new(big.Int).Mul(k, d))
	} else {
		p2 = c.Mul(pub, k)
	}
	if p1.Inf || p2.Inf {
		return nil, false
	}
	x2, y2 := B32(p2.X), B32(p2.Y)
	t := KDF(len(msg), x2, y2)
	if allZero(t) {
		return nil, false
	}
	for i := range t {
		t[i] ^= msg[i]
	}
	c3 := SM3(x2, msg, y2)
	fl := c.fieldLen()
	out = append(out, 4)
	out = append(out, p1.X.FillBytes(make([]byte, fl))...)
	out = append(out, p1.Y.FillBytes(make([]byte, fl))...)
	if c1c2c3 {
		out = append(append(out, t...), c3[:]...)
	} else {
		out = append(append(out, c3[:]...), t...)
	}
	return out, true
}

var ErrCipher = errors.New("ref: bad ciphertext")

// Decrypt is the reference decryption. zeroT reports that the derived key
// stream was all zero, where the standard demands an error but honest
// encryption never produces it.
func Decrypt(c *Curve, d *big.Int, in []byte, c1c2c3 bool) (msg []byte, zeroT bool, err error) {
	fl := c.fieldLen()
	if len(in) < 1+2*fl+32 || in[0] != 4 {
		return nil, false, ErrCipher
	}
	p := Point{X: new(big.Int).SetBytes(in[1 : 1+fl]), Y: new(big.Int).SetBytes(in[1+fl : 1+2*fl])}
	if !c.On(p.X, p.Y) {
		return nil, false, ErrCipher
	}
	p = c.Mul(p, d)
	if p.Inf {
		return nil, false, ErrCipher
	}
	rest := in[1+2*fl:]
	var c2, c3 []byte
	if c1c2c3 {
		c2, c3 = rest[:len(rest)-32], rest[len(rest)-32:]
	} else {
		c3, c2 = rest[:32], rest[32:]
	}
	x2, y2 := B32(p.X), B32(p.Y)
	t := KDF(len(c2), x2, y2)
	zeroT = allZero(t)
	for i := range t {
		t[i] ^= c2[i]
	}
	u := SM3(x2, t, y2)
	if !bytes.Equal(u[:], c3) {
		return nil, false, ErrCipher
	}
	return t, zeroT, nil
}

// ---- key exchange, GM/T 0003.3 ----

func xbar(c *Curve, x *big.Int) *big.Int {
	w := (c.N.BitLen()+1)/2 - 1
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(x, m)
	return r.Add(r, m)
}

// Xbar is exported for workloads that construct sessions with chosen results.
func Xbar(c *Curve, x *big.Int) *big.Int { return xbar(c, x) }

type Exch struct {
	Inf    bool
	U      Point
	Key    []byte
	S1, S2 []byte
}

// Exchange computes what one party derives. self* are private scalars, other*
// the peer's points (already valid on the curve).
func Exchange(c *Curve, initiator bool, keyLen int, ds, rs *big.Int, selfID []byte, ps, pe Point, otherID []byte) *Exch {
	Rs := c.BaseMul(rs)
	t := new(big.Int).Mul(xbar(c, Rs.X), rs)
	t.Add(t, ds)
	t.Mod(t, c.N)
	u := c.Add(ps, c.Mul(pe, xbar(c, pe.X)))
	u = c.Mul(u, t)
	if u.Inf {
		return &Exch{Inf: true}
	}
	zs, zo := Z(c, selfID, c.BaseMul(ds)), Z(c, otherID, ps)
	ra, rb, za, zb := Rs, pe, zs, zo
	if !initiator {
		ra, rb, za, zb = pe, Rs, zo, zs
	}
	e := &Exch{U: u}
	ux, uy := B32(u.X), B32(u.Y)
	e.Key = KDF(keyLen, ux, uy, za, zb)
	in := SM3(ux, za, zb, B32(ra.X), B32(ra.Y), B32(rb.X), B32(rb.Y))
	a := SM3([]byte{2}, uy, in[:])
	b := SM3([]byte{3}, uy, in[:])
	e.S1, e.S2 = a[:], b[:]
	return e
}
