package ref

import "math/big"

// Curve is a short Weierstrass curve y^2 = x^3 + ax + b over GF(p) whose base
// point has prime order n and cofactor 1.
type Curve struct {
	Name       string
	P, A, B, N *big.Int
	Gx, Gy     *big.Int
	Bits       int // field size in bits
	base       [][]Point
}

// Point is affine; Inf marks the neutral element.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// SM2 is the GM/T 0003.5 recommended curve.
var SM2 = &Curve{
	Name: "sm2p256v1",
	P:    hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
	A:    hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC"),
	B:    hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"),
	N:    hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
	Gx:   hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"),
	Gy:   hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"),
	Bits: 256,
}

func (c *Curve) G() Point { return Point{X: c.Gx, Y: c.Gy} }

func (c *Curve) On(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	l.Sub(l, r)
	return l.Mod(l, c.P).Sign() == 0
}

// Add is the textbook affine addition law.
func (c *Curve) Add(a, b Point) Point {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	var num, den big.Int
	if a.X.Cmp(b.X) == 0 {
		if a.Y.Cmp(b.Y) != 0 || a.Y.Sign() == 0 {
			return Point{Inf: true}
		}
		num.Mul(a.X, a.X)
		num.Mul(&num, big.NewInt(3))
		num.Add(&num, c.A)
		den.Lsh(a.Y, 1)
	} else {
		num.Sub(b.Y, a.Y)
		den.Sub(b.X, a.X)
	}
	den.Mod(&den, c.P)
	den.ModInverse(&den, c.P)
	num.Mul(&num, &den)
	num.Mod(&num, c.P)
	x := new(big.Int).Mul(&num, &num)
	x.Sub(x, a.X)
	x.Sub(x, b.X)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, &num)
	y.Sub(y, a.Y)
	y.Mod(y, c.P)
	return Point{X: x, Y: y}
}

func (c *Curve) Neg(a Point) Point {
	if a.Inf {
		return a
	}
	y := new(big.Int).Neg(a.Y)
	return Point{X: a.X, Y: y.Mod(y, c.P)}
}

// jac is a Jacobian point (Z = 0: infinity), used only to make scalar
// multiplication affordable; correctness is checked against Add in ref_test.
type jac struct{ x, y, z *big.Int }

func (c *Curve) dbl(p jac) jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jac{new(big.Int), new(big.Int).SetInt64(1), new(big.Int)}
	}
	y2 := new(big.Int).Mul(p.y, p.y)
	y2.Mod(y2, c.P)
	s := new(big.Int).Mul(p.x, y2)
	s.Lsh(s, 2)
	s.Mod(s, c.P)
	z2 := new(big.Int).Mul(p.z, p.z)
	z2.Mod(z2, c.P)
	z4 := z2.Mul(z2, z2)
	m := new(big.Int).Mul(p.x, p.x)
	t := new(big.Int).Lsh(m, 1)
	m.Add(m, t)
	t.Mul(c.A, z4)
	m.Add(m, t)
	m.Mod(m, c.P)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, t.Lsh(s, 1))
	x.Mod(x, c.P)
	y4 := y2.Mul(y2, y2)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y.Sub(y, t.Lsh(y4, 3))
	y.Mod(y, c.P)
	z := new(big.Int).Mul(p.y, p.z)
	z.Lsh(z, 1)
	z.Mod(z, c.P)
	return jac{x, y, z}
}

// madd adds an affine point to a Jacobian one.
func (c *Curve) madd(p jac, q Point) jac {
	if q.Inf {
		return p
	}
	if p.z.Sign() == 0 {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1)}
	}
	z2 := new(big.Int).Mul(p.z, p.z)
	z2.Mod(z2, c.P)
	h := new(big.Int).Mul(q.X, z2)
	h.Sub(h, p.x)
	h.Mod(h, c.P)
	r := new(big.Int).Mul(q.Y, z2)
	r.Mod(r, c.P)
	r.Mul(r, p.z)
	r.Sub(r, p.y)
	r.Mod(r, c.P)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.dbl(p)
		}
		return jac{new(big.Int), big.NewInt(1), new(big.Int)}
	}
	h2 := new(big.Int).Mul(h, h)
	h2.Mod(h2, c.P)
	h3 := new(big.Int).Mul(h2, h)
	h3.Mod(h3, c.P)
	v := h2.Mul(h2, p.x)
	v.Mod(v, c.P)
	x := new(big.Int).Mul(r, r)
	x.Sub(x, h3)
	x.Sub(x, v)
	x.Sub(x, v)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	h3.Mul(h3, p.y)
	y.Sub(y, h3)
	y.Mod(y, c.P)
	z := new(big.Int).Mul(p.z, h)
	z.Mod(z, c.P)
	return jac{x, y, z}
}

func (c *Curve) affine(p jac) Point {
	if p.z.Sign() == 0 {
		return Point{Inf: true}
	}
	zi := new(big.Int).ModInverse(p.z, c.P)
	z2 := new(big.Int).Mul(zi, zi)
	z2.Mod(z2, c.P)
	x := new(big.Int).Mul(p.x, z2)
	x.Mod(x, c.P)
	z2.Mul(z2, zi)
	y := new(big.Int).Mul(p.y, z2)
	y.Mod(y, c.P)
	return Point{X: x, Y: y}
}

// Mul computes k*p for any k >= 0 and p on the curve.
func (c *Curve) Mul(p Point, k *big.Int) Point {
	if c == SM2 && !p.Inf {
		return FastMul(p, k)
	}
	return c.slowMul(p, k)
}

func (c *Curve) slowMul(p Point, k *big.Int) Point {
	acc := jac{new(big.Int), big.NewInt(1), new(big.Int)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = c.dbl(acc)
		if k.Bit(i) == 1 {
			acc = c.madd(acc, p)
		}
	}
	return c.affine(acc)
}

// BaseMul computes k*G, with a table of 4-bit windows.
func (c *Curve) BaseMul(k *big.Int) Point {
	if c == SM2 {
		return FastBaseMul(k)
	}
	return c.slowBaseMul(k)
}

func (c *Curve) slowBaseMul(k *big.Int) Point {
	k = new(big.Int).Mod(k, c.N)
	nw := (c.N.BitLen() + 3) / 4
	if c.base == nil {
		b := make([][]Point, nw)
		g := c.G()
		for i := range b {
			b[i] = make([]Point, 16)
			b[i][0] = Point{Inf: true}
			for j := 1; j < 16; j++ {
				b[i][j] = c.Add(b[i][j-1], g)
			}
			g = c.Add(b[i][15], g)
		}
		c.base = b
	}
	acc := jac{new(big.Int), big.NewInt(1), new(big.Int)}
	for i := 0; i < nw; i++ {
		w := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if w != 0 {
			acc = c.madd(acc, c.base[i][w])
		}
	}
	return c.affine(acc)
}
