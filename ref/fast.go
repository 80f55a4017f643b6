package ref

import (
	"encoding/binary"
	"math/big"
	"math/bits"
	"sync"
)

// Fast arithmetic on the SM2 curve (4-limb Montgomery field, Jacobian points,
// 4-bit windows). Not constant time. Checked against Add, Mul and BaseMul, and
// against crypto/elliptic, in ref_test; the simulator repeats that check on a
// sample of its calls.

type fe [4]uint64

var (
	feP     = fe{0xFFFFFFFFFFFFFFFF, 0xFFFFFFFF00000000, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFEFFFFFFFF}
	feOne   fe               // R mod p
	feR2    fe               // R^2 mod p
	feTable [64][16]affineFe // j*16^i*G
	feInit  sync.Once
)

type affineFe struct{ x, y fe }
type jacFe struct{ x, y, z fe }

func init() {
	r := new(big.Int).Lsh(big.NewInt(1), 256)
	feOne = limbs(new(big.Int).Mod(r, SM2.P))
	feR2 = limbs(new(big.Int).Mod(new(big.Int).Mul(r, r), SM2.P))
}

func fillTable() {
	g := SM2.G()
	for i := range feTable {
		p := Point{Inf: true}
		for j := 1; j < 16; j++ {
			p = SM2.Add(p, g)
			feTable[i][j] = affineFe{toFe(p.X), toFe(p.Y)}
		}
		g = SM2.Add(p, g)
	}
}

func limbs(v *big.Int) (f fe) {
	var b [32]byte
	v.FillBytes(b[:])
	for i := range f {
		f[i] = binary.BigEndian.Uint64(b[24-8*i:])
	}
	return
}

func toFe(v *big.Int) (f fe) {
	f = limbs(v)
	feMul(&f, &f, &feR2)
	return
}

func fromFe(f *fe) *big.Int {
	one := fe{1}
	var o fe
	feMul(&o, f, &one)
	var b [32]byte
	for i := range o {
		binary.BigEndian.PutUint64(b[24-8*i:], o[i])
	}
	return new(big.Int).SetBytes(b[:])
}

func (f *fe) zero() bool { return f[0]|f[1]|f[2]|f[3] == 0 }

// feMul is Montgomery multiplication; -p^-1 mod 2^64 is 1 since p = -1 mod 2^64.
func feMul(o, a, b *fe) {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[j], b[i])
			var k uint64
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j], c = lo, hi
		}
		var k uint64
		t[4], k = bits.Add64(t[4], c, 0)
		t[5] = k
		m := t[0]
		hi, lo := bits.Mul64(m, feP[0])
		_, k = bits.Add64(lo, t[0], 0)
		c = hi + k
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, feP[j])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1], c = lo, hi
		}
		t[3], k = bits.Add64(t[4], c, 0)
		t[4] = t[5] + k
	}
	feReduce(o, t[0], t[1], t[2], t[3], t[4])
}

func feReduce(o *fe, a, b, c, d, top uint64) {
	var s fe
	var k uint64
	s[0], k = bits.Sub64(a, feP[0], 0)
	s[1], k = bits.Sub64(b, feP[1], k)
	s[2], k = bits.Sub64(c, feP[2], k)
	s[3], k = bits.Sub64(d, feP[3], k)
	_, k = bits.Sub64(top, 0, k)
	if k != 0 {
		s = fe{a, b, c, d}
	}
	*o = s
}

func feAdd(o, a, b *fe) {
	var k uint64
	var s fe
	s[0], k = bits.Add64(a[0], b[0], 0)
	s[1], k = bits.Add64(a[1], b[1], k)
	s[2], k = bits.Add64(a[2], b[2], k)
	s[3], k = bits.Add64(a[3], b[3], k)
	feReduce(o, s[0], s[1], s[2], s[3], k)
}

func feSub(o, a, b *fe) {
	var k uint64
	var s fe
	s[0], k = bits.Sub64(a[0], b[0], 0)
	s[1], k = bits.Sub64(a[1], b[1], k)
	s[2], k = bits.Sub64(a[2], b[2], k)
	s[3], k = bits.Sub64(a[3], b[3], k)
	if k != 0 {
		s[0], k = bits.Add64(s[0], feP[0], 0)
		s[1], k = bits.Add64(s[1], feP[1], k)
		s[2], k = bits.Add64(s[2], feP[2], k)
		s[3], _ = bits.Add64(s[3], feP[3], k)
	}
	*o = s
}

// double uses a = -3.
func (p *jacFe) double() {
	if p.z.zero() {
		return
	}
	var delta, gamma, beta, alpha, t, u fe
	feMul(&delta, &p.z, &p.z)
	feMul(&gamma, &p.y, &p.y)
	feMul(&beta, &p.x, &gamma)
	feSub(&t, &p.x, &delta)
	feAdd(&u, &p.x, &delta)
	feMul(&t, &t, &u)
	feAdd(&alpha, &t, &t)
	feAdd(&alpha, &alpha, &t)
	feAdd(&t, &p.y, &p.z)
	feMul(&t, &t, &t)
	feSub(&t, &t, &gamma)
	feSub(&p.z, &t, &delta)
	feAdd(&beta, &beta, &beta)
	feAdd(&beta, &beta, &beta) // 4 beta
	feMul(&t, &alpha, &alpha)
	feSub(&t, &t, &beta)
	feSub(&p.x, &t, &beta)
	feSub(&t, &beta, &p.x)
	feMul(&t, &t, &alpha)
	feMul(&u, &gamma, &gamma)
	feAdd(&u, &u, &u)
	feAdd(&u, &u, &u)
	feAdd(&u, &u, &u)
	feSub(&p.y, &t, &u)
}

// addAffine adds a finite affine point.
func (p *jacFe) addAffine(q *affineFe) {
	if p.z.zero() {
		p.x, p.y, p.z = q.x, q.y, feOne
		return
	}
	var z2, h, r, h2, h3, v, t fe
	feMul(&z2, &p.z, &p.z)
	feMul(&h, &q.x, &z2)
	feSub(&h, &h, &p.x)
	feMul(&r, &q.y, &z2)
	feMul(&r, &r, &p.z)
	feSub(&r, &r, &p.y)
	if h.zero() {
		if r.zero() {
			p.double()
		} else {
			*p = jacFe{y: feOne}
		}
		return
	}
	feMul(&h2, &h, &h)
	feMul(&h3, &h2, &h)
	feMul(&v, &p.x, &h2)
	feMul(&t, &r, &r)
	feSub(&t, &t, &h3)
	feSub(&t, &t, &v)
	feSub(&t, &t, &v)
	feMul(&h3, &h3, &p.y)
	p.x = t
	feSub(&t, &v, &t)
	feMul(&t, &t, &r)
	feSub(&p.y, &t, &h3)
	feMul(&p.z, &p.z, &h)
}

func (p *jacFe) affine() Point {
	if p.z.zero() {
		return Point{Inf: true}
	}
	z := new(big.Int).ModInverse(fromFe(&p.z), SM2.P)
	zi := toFe(z)
	var z2 fe
	feMul(&z2, &zi, &zi)
	feMul(&p.x, &p.x, &z2)
	feMul(&z2, &z2, &zi)
	feMul(&p.y, &p.y, &z2)
	return Point{X: fromFe(&p.x), Y: fromFe(&p.y)}
}

// FastBaseMul is k*G on the SM2 curve.
func FastBaseMul(k *big.Int) Point {
	feInit.Do(fillTable)
	k = new(big.Int).Mod(k, SM2.N)
	kl := limbs(k)
	acc := jacFe{y: feOne}
	for i := 0; i < 64; i++ {
		if w := kl[i/16] >> (4 * (i % 16)) & 15; w != 0 {
			acc.addAffine(&feTable[i][w])
		}
	}
	return acc.affine()
}

// FastMul is k*p on the SM2 curve, for a finite point on it.
func FastMul(p Point, k *big.Int) Point {
	k = new(big.Int).Mod(k, SM2.N)
	kl := limbs(k)
	q := affineFe{toFe(p.X), toFe(p.Y)}
	acc := jacFe{y: feOne}
	for i := 255; i >= 0; i-- {
		acc.double()
		if kl[i/64]>>(i%64)&1 == 1 {
			acc.addAffine(&q)
		}
	}
	return acc.affine()
}
