package checks

import (
	"crypto/elliptic"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
)

// Scalars k for which k*G has coordinates with one or two leading zero bytes
// (found by running k*G for k below 400000 through the reference model).
var specialScalars = []int64{1, 2, 3, 4,
	327, 659, 1270, 2109, 3503, 3522, // x, one byte
	107, 119, 206, 217, 360, 441, // y, one byte
	17883, 60190, 84295, 126495, 173403, 367633, // x, two bytes
	193197, 252436, 302857, 316619, 317276} // y, two bytes

var one = big.NewInt(1)

// cv couples a reference curve with the form gm takes it in.
type cv struct {
	r   *ref.Curve
	gm  sm2.P256V1Curve
	toy bool
}

var realCurve = &cv{r: ref.SM2, gm: sm2.GetSm2P256V1()}
var toyCurves []*cv

func init() {
	for _, c := range ref.Toys {
		p := &elliptic.CurveParams{P: c.P, N: c.N, B: c.B, Gx: c.Gx, Gy: c.Gy, BitSize: c.Bits, Name: c.Name}
		toyCurves = append(toyCurves, &cv{r: c, gm: sm2.P256V1Curve{CurveParams: p, A: c.A}, toy: true})
	}
}

// key is one SM2 key pair in reference and gm form.
type key struct {
	c    *cv
	d    *big.Int
	P    ref.Point
	priv *sm2.PrivateKey
	pub  *sm2.PublicKey
}

func newKey(c *cv, d *big.Int) *key {
	k := &key{c: c, d: new(big.Int).Set(d), P: c.r.BaseMul(d)}
	k.priv = &sm2.PrivateKey{D: new(big.Int).Set(d), Curve: c.gm}
	k.pub = gmPub(c, k.P)
	return k
}

func gmPub(c *cv, p ref.Point) *sm2.PublicKey {
	if p.Inf {
		return &sm2.PublicKey{X: new(big.Int), Y: new(big.Int), Curve: c.gm}
	}
	return &sm2.PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Curve: c.gm}
}

func (k *key) raw() []byte { return rawPoint(k.P) }

func rawPoint(p ref.Point) []byte {
	return append(ref.B32(p.X), ref.B32(p.Y)...)
}

// randScalar is uniform enough in [1, n-2].
func randScalar(c *cv, r *sim.PRNG) *big.Int {
	v := new(big.Int).SetBytes(r.Bytes(40))
	m := new(big.Int).Sub(c.r.N, big.NewInt(2))
	v.Mod(v, m)
	return v.Add(v, one)
}

// pickScalar draws a private scalar in [1, n-2]: mostly ordinary, sometimes one
// with leading zero bytes itself or in its public key, or at the range's ends.
func pickScalar(l *sim.Lane, c *cv) *big.Int {
	r := l.Sub()
	if c.toy {
		return randScalar(c, r)
	}
	switch l.W(6, 3, 1, 1, 1) {
	case 1:
		return big.NewInt(specialScalars[l.N(len(specialScalars))])
	case 2: // n-2 and neighbours
		return new(big.Int).Sub(c.r.N, big.NewInt(int64(2+l.N(3))))
	case 3: // short
		return new(big.Int).Add(new(big.Int).SetBytes(r.Bytes(1+l.N(31))), one)
	case 4: // minus a special one: same x, other y
		return new(big.Int).Sub(c.r.N, big.NewInt(specialScalars[3+l.N(len(specialScalars)-3)]))
	}
	return randScalar(c, r)
}

func pickKey(l *sim.Lane, c *cv) *key { return newKey(c, pickScalar(l, c)) }

// pickID draws a user identity; nil and empty differ for signatures.
func pickID(l *sim.Lane) []byte {
	r := l.Sub()
	switch l.W(3, 2, 2, 4, 1, 1) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return append([]byte(nil), ref.DefaultID...)
	case 3:
		return r.Bytes(1 + l.N(40))
	case 4:
		return r.Bytes(l.LogSize(8191))
	}
	return r.Bytes(8191)
}

// sigID is the identity a signature operation uses.
func sigID(id []byte) []byte {
	if id == nil {
		return ref.DefaultID
	}
	return id
}

var toyState int // 0 unknown, 1 usable, 2 not

// toysWork reports whether this build of gm takes the curve from the key, as the
// original does, judged by ordinary operations only. If it does not (it may use
// the SM2 constants directly, which changes nothing for SM2 keys), the toy-curve
// workloads are left out.
func toysWork(w *sim.World, t *sim.T) bool {
	if toyState == 0 {
		toyState = 2
		if probeToys(t) {
			toyState = 1
		}
	}
	if toyState == 2 {
		w.Probe("toy-curves-unsupported")
	}
	return toyState == 1
}

func probeToys(t *sim.T) (ok bool) {
	old := t.Rand
	defer func() {
		t.Rand = old
		if recover() != nil {
			ok = false
		}
	}()
	c := toyCurves[5]
	msg := []byte("toy probe message, long enough not to repeat")
	for i := int64(0); i < 6; i++ {
		a, b := newKey(c, big.NewInt(1001+977*i)), newKey(c, big.NewInt(20011+1013*i))
		ra, rb := newKey(c, big.NewInt(30011+31*i)), newKey(c, big.NewInt(40009+37*i))
		t.Rand = t.W.NewRand(sim.NewPRNG(uint64(i + 1)))
		r, s, err := sm2.SignToRS(a.priv, nil, msg)
		if err != nil || !ref.Verify(c.r, a.P, nil, ref.DefaultID, msg, r, s) || !sm2.VerifyByRS(a.pub, nil, msg, r, s) {
			return false
		}
		if sm2.VerifyByRS(a.pub, nil, append(msg, 1), r, s) != ref.Verify(c.r, a.P, nil, ref.DefaultID, append(msg, 1), r, s) {
			return false
		}
		ct, err := sm2.Encrypt(b.pub, msg, sm2.C1C3C2)
		if err != nil {
			return false
		}
		m, _, err := ref.Decrypt(c.r, b.d, ct, false)
		if err != nil || string(m) != string(msg) {
			return false
		}
		if m, err = sm2.Decrypt(b.priv, ct, sm2.C1C3C2); err != nil || string(m) != string(msg) {
			return false
		}
		x, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, b.priv, rb.priv, nil, a.pub, ra.pub, nil)
		want := ref.Exchange(c.r, false, 16, b.d, rb.d, nil, a.P, ra.P, nil)
		if err != nil || want.Inf || string(x.Key) != string(want.Key) || string(x.S1) != string(want.S1) || string(x.S2) != string(want.S2) {
			return false
		}
		y, err := sm2.CalculateKeyWithConfirmation(true, 128, x.S1, a.priv, ra.priv, nil, b.pub, rb.pub, nil)
		if err != nil || string(y.Key) != string(want.Key) || string(y.S2) != string(want.S2) {
			return false
		}
	}
	return true
}

// smallX returns an on-curve point whose x is so small that x+p still fits in
// 32 bytes.
func smallX(c *cv, r *sim.PRNG) ref.Point {
	for {
		x := big.NewInt(int64(1 + r.N(1<<20)))
		if c.toy {
			x.Mod(x, c.r.P)
		}
		y := new(big.Int).Mul(x, x)
		y.Add(y, c.r.A)
		y.Mul(y, x)
		y.Add(y, c.r.B)
		y.Mod(y, c.r.P)
		if y.ModSqrt(y, c.r.P) != nil && y.Sign() != 0 {
			return ref.Point{X: x, Y: y}
		}
	}
}

// wirePoint is a public key on its way: 64 raw bytes, or, where a caller hands a
// decoded structure over, the two coordinates.
type wirePoint struct {
	raw    []byte
	x, y   *big.Int
	what   string
	direct bool
}

// decoded returns the point the wire form stands for; ok is false if it is not
// a point of the curve in its only valid form.
func (p *wirePoint) decoded(c *cv) (ref.Point, bool) {
	x, y := p.x, p.y
	if !p.direct {
		if len(p.raw) != 64 {
			return ref.Point{}, false
		}
		x, y = new(big.Int).SetBytes(p.raw[:32]), new(big.Int).SetBytes(p.raw[32:])
	}
	return ref.Point{X: x, Y: y}, c.r.On(x, y)
}

// damagePoint is everything a faulty or hostile channel may make of the public
// key p; others are valid points from elsewhere.
func damagePoint(w *sim.World, l *sim.Lane, c *cv, p ref.Point, others []ref.Point) *wirePoint {
	r := l.Sub()
	raw := rawPoint(p)
	q := &wirePoint{raw: raw}
	switch k := l.N(14); k {
	case 0:
		q.what = "intact"
	case 1:
		i := l.N(len(raw) * 8)
		raw[i/8] ^= 1 << (i % 8)
		q.what = "bit-flip"
	case 2:
		if l.N(2) == 0 {
			q.raw = raw[:l.N(len(raw))]
		} else {
			q.raw = append(raw, r.Bytes(1+l.N(3))...)
		}
		q.what = "wrong-length"
	case 3:
		q.raw, q.what = make([]byte, 64), "infinity"
	case 4:
		s := smallX(c, r)
		if s.X = new(big.Int).Add(s.X, c.r.P); s.X.BitLen() <= 256 {
			q.raw = rawPoint(s)
		}
		q.what = "coordinate-not-reduced"
	case 5:
		q.raw, q.what = append(append([]byte(nil), raw[32:]...), raw[:32]...), "coordinates-swapped"
	case 6:
		q.raw, q.what = r.Bytes(64), "random-bytes"
	case 7:
		q.raw, q.what = rawPoint(others[l.N(len(others))]), "another-key"
	case 8:
		q.raw, q.what = rawPoint(c.r.Neg(p)), "negated"
	case 9:
		for i := range raw {
			raw[i] = 0xff
		}
		q.what = "all-ones"
	case 10: // a point of another curve: only x or only y survived
		h := 32 * l.N(2)
		copy(raw[h:h+32], ref.B32(randScalar(c, r)))
		q.what = "half-replaced"
	case 11:
		n := l.N(64)
		for i := n; i < 64; i++ {
			raw[i] = 0
		}
		q.what = "torn"
	case 12: // x = 0 or y = 0
		h := 32 * l.N(2)
		copy(raw[h:h+32], make([]byte, 32))
		q.what = "coordinate-zero"
	case 13: // decoded structure with out-of-range members
		x, y := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
		switch l.N(6) {
		case 0:
			x.Neg(x)
		case 1:
			y.Neg(y)
		case 2:
			x.Add(x, c.r.P)
		case 3:
			y.Add(y, c.r.P)
		case 4:
			x.Lsh(x, uint(1+l.N(300)))
		case 5:
			x.Sub(x, c.r.P)
		}
		q.direct, q.x, q.y, q.what = true, x, y, "structure-out-of-range"
	}
	if !q.direct && (c.toy || l.N(4) == 0) && len(q.raw) == 64 {
		q.direct = true
		q.x, q.y = new(big.Int).SetBytes(q.raw[:32]), new(big.Int).SetBytes(q.raw[32:])
	}
	if q.what != "intact" {
		w.Fired("key-" + q.what)
	}
	return q
}
