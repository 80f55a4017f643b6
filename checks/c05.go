package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 6000, Thor: 130000, Chunk: 16,
		Run:    runC05,
		Rule:   "most runs have 1-4 threads that sign (often the same message with the same key), encrypt and generate keys, each operation on its own randomness stream, with operations that fail at every stage in between; the scalar behind every result is recovered and compared with all others, and operations are run again on the same stream (same scalar) after a different history. Every 20th run is statistical: thousands of operations on a tiny curve (chi-square over every usable scalar, empty cells, including after forced redraws) or hundreds on the SM2 curve (each bit of the scalar, values drawn when the source starts with all ones). Non-trivial: a preemption inside a call, an injected fault or a statistical test. Distinct by event-log hash.",
		Real:   []string{"sm2 GenerateKey, Sign, SignToRS, Encrypt"},
		Stub:   []string{stubRand, stubSched, stubClock},
		Assume: []string{"statistical limits are set for a false alarm in fewer than one run in 10^12", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

// used is one scalar that was seen: k if known, and always k*G.
type used struct {
	what string
	k    *big.Int
	P    ref.Point
}

type c05 struct {
	w    *sim.World
	keys []*key
	all  []used
}

func runC05(w *sim.World, t *sim.T) {
	if w.Plan.P(20) {
		statC05(w, t)
		return
	}
	L := w.Plan
	x := &c05{w: w}
	for i, n := 0, 1+L.N(2); i < n; i++ {
		x.keys = append(x.keys, newKey(realCurve, randScalar(realCurve, L.Sub())))
	}
	for i, k := range x.keys {
		x.all = append(x.all, used{fmt.Sprintf("the private key %d", i), k.d, k.P})
	}
	msg := L.Sub().Bytes(1 + L.N(40))
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(2, 3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 1+L.N(4); j < m; j++ {
				if L.N(3) == 0 {
					x.failing(t, msg)
				}
				x.op(t, msg)
			}
		})
	}
	if len(fs) == 1 {
		fs[0](t)
	} else {
		t.Par("op", fs...)
	}
	x.distinct()
}

// failing runs an operation that ends in an error, at one of its stages.
func (x *c05) failing(t *sim.T, msg []byte) {
	w, L := x.w, x.w.Plan
	k := x.keys[L.N(len(x.keys))]
	old := t.Rand
	defer func() { t.Rand = old }()
	t.Rand = w.NewRand(L.Sub())
	var err error
	name := ""
	t.Try("failing operation", func() {
		switch L.N(6) {
		case 0:
			name = "Encrypt to an unknown type"
			_, err = sm2.Encrypt(k.pub, msg, 7)
		case 1:
			name = "Encrypt nothing"
			_, err = sm2.Encrypt(k.pub, nil, sm2.C1C3C2)
		case 2:
			name = "Encrypt to a point off the curve"
			_, err = sm2.Encrypt(&sm2.PublicKey{X: k.pub.X, Y: new(big.Int).Add(k.pub.Y, one), Curve: k.pub.Curve}, msg, sm2.C1C3C2)
		case 3:
			name = "Sign with key 0"
			_, err = sm2.Sign(&sm2.PrivateKey{D: new(big.Int), Curve: k.priv.Curve}, nil, msg)
		case 4:
			name = "Sign without randomness"
			t.Rand.FailAt, t.Rand.FailErr, t.Rand.FailN = 1, errRand04, L.N(32)
			_, err = sm2.Sign(k.priv, nil, msg)
		case 5:
			name = "Encrypt without randomness"
			t.Rand.FailAt, t.Rand.FailErr, t.Rand.FailN = 1, io.EOF, L.N(32)
			_, err = sm2.Encrypt(k.pub, msg, sm2.C1C2C3)
		}
	})
	w.Logf("%s: %s", name, isErr(err))
	if err != nil {
		w.Fired("failed-operation-between")
	}
}

// one operation: kind 0 sign, 1 sign to (r, s), 2 encrypt, 3 generate a key.
// ok is false if the result does not allow recovering a scalar; whether such a
// result may exist is not this property's question.
func scalarOp(t *sim.T, c *cv, k *key, kind int, msg []byte, s *sim.RandStream) (u used, err error, ok bool) {
	w := t.W
	old := t.Rand
	if kind != 3 {
		t.Rand = s
	}
	defer func() { t.Rand = old }()
	var sig, ct []byte
	var r, q *big.Int
	var priv *sm2.PrivateKey
	var pub *sm2.PublicKey
	p := t.Try([]string{"Sign", "SignToRS", "Encrypt", "GenerateKey"}[kind], func() {
		switch kind {
		case 0:
			sig, err = sm2.Sign(k.priv, nil, msg)
		case 1:
			r, q, err = sm2.SignToRS(k.priv, nil, msg)
		case 2:
			ct, err = sm2.Encrypt(k.pub, msg, sm2.C1C3C2)
		case 3:
			priv, pub, err = sm2.GenerateKey(s)
		}
	})
	if p != nil {
		return u, errors.New(p.String()), false
	}
	if err != nil {
		return u, err, false
	}
	switch kind {
	case 0, 1:
		u.what = "a signature"
		if kind == 0 {
			if r, q, err = ref.ParseSig(sig); err != nil {
				return u, err, false
			}
		}
		u.k = ref.RecoverK(c.r, k.d, r, q)
		u.P = c.r.BaseMul(u.k)
		if u.P.Inf {
			w.Fail("zero-scalar", "a signature was made with scalar 0")
		}
		e := ref.E(c.r, ref.DefaultID, k.P, msg)
		if e.Add(e, u.P.X).Mod(e, c.r.N).Cmp(r) != 0 {
			w.Probe("result-unusable")
			return u, nil, false
		}
	case 2:
		u.what = "a ciphertext"
		fl := (c.r.Bits + 7) / 8
		if len(ct) < 1+2*fl {
			w.Probe("result-unusable")
			return u, nil, false
		}
		u.P = ref.Point{X: new(big.Int).SetBytes(ct[1 : 1+fl]), Y: new(big.Int).SetBytes(ct[1+fl : 1+2*fl])}
		if !c.r.On(u.P.X, u.P.Y) {
			w.Probe("result-unusable")
			return u, nil, false
		}
	case 3:
		u.what = "a generated key"
		u.k = priv.D
		u.P = c.r.BaseMul(u.k)
		_ = pub
	}
	return u, nil, true
}

func (x *c05) op(t *sim.T, msg []byte) {
	w, L := x.w, x.w.Plan
	k := x.keys[L.N(len(x.keys))]
	kind := L.N(4)
	if L.N(3) == 0 {
		msg = L.Sub().Bytes(1 + L.N(100))
	}
	s := w.NewRand(L.Sub())
	if w.Fault.P(6) {
		s.Stall = int64(1+w.Fault.N(500)) * ms
	}
	if w.Fault.P(8) {
		s.Short = 1 + w.Fault.N(31)
	}
	u, err, ok := scalarOp(t, realCurve, k, kind, msg, s)
	if !ok {
		w.Logf("no scalar: %v", isErr(err))
		return
	}
	u.what = fmt.Sprintf("%s (operation %d)", u.what, w.Ops)
	w.Logf("%s: kG.x=%x, %d random bytes", u.what, u.P.X, s.Got)
	if s.Got < 32 {
		w.Fail("stale-randomness", "%s: only %d bytes of randomness were obtained during the operation, which drew a 256-bit scalar", u.what, s.Got)
	}
	x.all = append(x.all, u)
	if L.N(3) == 0 {
		// The same randomness again, after whatever happened since.
		again := w.NewRand(sim.NewPRNG(0))
		again.Prefix = append([]byte(nil), s.Data...)
		v, err, ok := scalarOp(t, realCurve, k, kind, msg, again)
		if ok && v.P.X.Cmp(u.P.X) != 0 {
			w.Fail("not-determined", "%s, run again with the same randomness: kG.x was %x and is %x, so something else than the randomness obtained during the operation decides the scalar", u.what, u.P.X, v.P.X)
		}
		if !ok {
			w.Logf("repetition: %s", isErr(err))
		} else {
			w.Probe("same-randomness-again")
		}
	}
}

// distinct compares every scalar seen in the run with every other. Scalars that
// differ by a small amount, or only in sign, are as bad as equal ones.
func (x *c05) distinct() {
	c := realCurve.r
	G := c.G()
	near := map[string]int{}
	for i, u := range x.all {
		pts := []ref.Point{u.P}
		a, b := u.P, u.P
		for j := 0; j < 2; j++ {
			a, b = c.Add(a, G), c.Add(b, c.Neg(G))
			pts = append(pts, a, b)
		}
		for j, p := range pts {
			if p.Inf {
				x.w.Fail("scalar-repeated", "the scalar of %s is within 2 of 0", u.what)
			}
			if o, ok := near[string(ref.B32(p.X))]; ok && o != i {
				x.w.Fail("scalar-repeated", "%s and %s use scalars that are equal, of opposite sign or closely related (kG.x %x and %x, relation %d)", x.all[o].what, u.what, x.all[o].P.X, u.P.X, j)
			}
		}
		for j := 0; j < i; j++ {
			o := x.all[j]
			if o.k == nil || u.k == nil {
				continue
			}
			d := new(big.Int).Sub(u.k, o.k)
			e := new(big.Int).Add(u.k, o.k)
			e.Mod(e, c.N)
			if d.BitLen() < 120 || e.BitLen() < 120 {
				x.w.Fail("scalar-repeated", "%s and %s use scalars only %x apart", o.what, u.what, d)
			}
		}
		near[string(ref.B32(u.P.X))] = i
	}
	if len(x.all) > 2 {
		x.w.Probe("scalars-compared")
	}
}

// ---- statistical runs ----

func statC05(w *sim.World, t *sim.T) {
	w.Nontrivial()
	switch w.Plan.W(3, 3, 3, 1, 2) {
	case 0, 1:
		if toysWork(w, t) {
			uniformToy(w, t)
			return
		}
		fallthrough
	case 3:
		bitsReal(w, t)
	case 2:
		if toysWork(w, t) {
			redrawToy(w, t)
			return
		}
		topReal(w, t)
	case 4:
		topReal(w, t)
	}
}

var toyTables = map[*cv]map[string]int{}

// toyTable maps a point of a tiny curve to its logarithm.
func toyTable(c *cv) map[string]int {
	m := toyTables[c]
	if m == nil {
		m = map[string]int{}
		n := int(c.r.N.Int64())
		p := c.r.G()
		for i := 1; i < n; i++ {
			m[fmt.Sprintf("%v,%v", p.X, p.Y)] = i
			p = c.r.Add(p, c.r.G())
		}
		toyTables[c] = m
	}
	return m
}

// wilson turns a chi-square value into a standard normal one.
func wilson(x float64, df int) float64 {
	d := float64(df)
	return (math.Cbrt(x/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
}

const zLimit = 7.5

func uniformToy(w *sim.World, t *sim.T) {
	L := w.Plan
	c := toyCurves[L.N(2)]
	n := int(c.r.N.Int64())
	tab := toyTable(c)
	cells := make([]int, n)
	kind := L.N(3)
	r := L.Sub()
	keys := []*key{newKey(c, randScalar(c, r)), newKey(c, randScalar(c, r)), newKey(c, randScalar(c, r))}
	msg := make([]byte, 24)
	// One long healthy stream feeds all operations, as in a real process.
	s := w.NewRand(L.Sub())
	total := 60 * n
	old := t.Rand
	t.Rand = s
	defer func() { t.Rand = old }()
	got, bad := 0, 0
	p := t.TryBudget("statistics", 1<<40, func() {
		for i := 0; i < total; i++ {
			r.Fill(msg)
			t.Rand = s
			s.Data = nil
			sim.ResetDraws(s)
			k := keys[i%len(keys)]
			var v int
			switch kind {
			case 0, 1:
				var a, b *big.Int
				var err error
				if kind == 0 {
					var sig []byte
					if sig, err = sm2.Sign(k.priv, nil, msg); err == nil {
						a, b, err = ref.ParseSig(sig)
					}
				} else {
					a, b, err = sm2.SignToRS(k.priv, nil, msg)
				}
				if err != nil {
					bad++
					continue
				}
				v = int(ref.RecoverK(c.r, k.d, a, b).Int64())
			case 2:
				ct, err := sm2.Encrypt(k.pub, msg, sm2.C1C3C2)
				if err != nil {
					bad++
					continue
				}
				fl := (c.r.Bits + 7) / 8
				v = tab[fmt.Sprintf("%v,%v", new(big.Int).SetBytes(ct[1:1+fl]), new(big.Int).SetBytes(ct[1+fl:1+2*fl]))]
			}
			got++
			cells[v]++
		}
	})
	name := []string{"Sign", "SignToRS", "Encrypt"}[kind]
	if p != nil || bad > total/100 {
		w.Logf("%s: %d of %d failed, %v", name, bad, total, p)
		w.Probe("result-unusable")
		return
	}
	if cells[0] > 0 {
		w.Fail("not-uniform", "%s on curve %s used the scalar 0", name, c.r.Name)
	}
	exp := float64(got) / float64(n-1)
	x := 0.0
	for v := 1; v < n; v++ {
		d := float64(cells[v]) - exp
		x += d * d / exp
		if cells[v] == 0 { // probability e^-60 each
			w.Fail("not-uniform", "%s on curve %s never used the scalar %d of 1..%d in %d operations", name, c.r.Name, v, n-1, got)
		}
	}
	z := wilson(x, n-2)
	w.Logf("%s on %s: %d operations, chi-square %.1f over %d cells, z=%.2f", name, c.r.Name, got, x, n-1, z)
	if z > zLimit {
		w.Fail("not-uniform", "%s on curve %s: chi-square %.1f over %d usable scalars in %d operations (z=%.1f)", name, c.r.Name, x, n-1, got, z)
	}
	w.Probe("uniformity-tiny-curve")
}

// redrawToy makes the first draw one that the standard rejects and looks at
// what the operation then uses: it must be drawn afresh, and evenly.
func redrawToy(w *sim.World, t *sim.T) {
	L := w.Plan
	c := toyCurves[2]
	if L.N(2) == 0 {
		c = toyCurves[L.N(2)]
	}
	n := int(c.r.N.Int64())
	tab := toyTable(c)
	enc := L.N(2) == 0
	r := L.Sub()
	k := newKey(c, randScalar(c, r))
	size := (c.r.N.BitLen() + 7) / 8
	var msg []byte
	first := -1
	why := ""
	for tries := 0; first < 0 && tries < 20; tries++ {
		if enc {
			msg = r.Bytes(1)
		} else {
			msg = r.Bytes(20)
		}
		e := ref.E(c.r, ref.DefaultID, k.P, msg)
		for i := 0; i < n-1 && first < 0; i++ {
			v := 1 + (i+r.N(n))%(n-1)
			kk := big.NewInt(int64(v))
			if enc {
				if _, ok := ref.EncryptK(c.r, k.P, k.d, kk, msg, false); !ok {
					first, why = v, "key stream all zero"
				}
				continue
			}
			if a, b, ok := ref.SignK(c.r, k.d, kk, e); !ok {
				first, why = v, "r = 0"
				if a != nil {
					why = "s = 0"
				} else if P := c.r.BaseMul(kk); new(big.Int).Mod(new(big.Int).Add(e, P.X), c.r.N).Sign() != 0 {
					why = "r+k = n"
				}
				_ = b
			}
		}
	}
	if first < 0 {
		w.Probe("no-redraw-found")
		return
	}
	const m = 200
	cells := make([]int, n)
	got := 0
	for i := 0; i < m; i++ {
		s := w.NewRand(L.Sub())
		s.Prefix = big.NewInt(int64(first)).FillBytes(make([]byte, size))
		kind := 1
		if enc {
			kind = 2
		}
		u, _, ok := scalarOp(t, c, k, kind, msg, s)
		if !ok {
			continue
		}
		got++
		if u.k != nil {
			cells[u.k.Int64()]++
		} else {
			cells[tab[fmt.Sprintf("%v,%v", u.P.X, u.P.Y)]]++
		}
	}
	if got < m/2 {
		w.Probe("result-unusable")
		return
	}
	// With all of 1..n-1 equally likely, a cell's count is close to Poisson with
	// mean 200/n < 1; 16 in one of them has probability below 10^-13.
	for v, x := range cells {
		if x >= 16 {
			w.Fail("not-uniform", "after a first draw of %d that the standard rejects (%s), %d of %d operations on curve %s used the scalar %d", first, why, x, got, c.r.Name, v)
		}
	}
	if cells[first] > 0 {
		w.Fail("scalar-repeated", "the rejected scalar %d (%s) was used", first, why)
	}
	w.Fired("redraw-forced")
	w.Probe("redraw " + why)
}

// bitsReal counts every bit of the scalars on the SM2 curve.
func bitsReal(w *sim.World, t *sim.T) {
	L := w.Plan
	kind := []int{1, 3, 0}[L.N(3)]
	k := newKey(realCurve, randScalar(realCurve, L.Sub()))
	var ones [256]int
	got := 0
	msg := []byte("message")
	seen := map[string]int{}
	for i := 0; i < 300; i++ {
		s := w.NewRand(L.Sub())
		u, _, ok := scalarOp(t, realCurve, k, kind, msg, s)
		if !ok || u.k == nil {
			continue
		}
		if s.Got < 32 {
			w.Fail("stale-randomness", "operation %d of a long history: only %d bytes of randomness obtained", i, s.Got)
		}
		if j, dup := seen[string(ref.B32(u.P.X))]; dup {
			w.Fail("scalar-repeated", "operations %d and %d of a long history use the same scalar", j, i)
		}
		seen[string(ref.B32(u.P.X))] = i
		got++
		for b := 0; b < 256; b++ {
			ones[b] += int(u.k.Bit(b))
		}
	}
	if got < 200 {
		w.Probe("result-unusable")
		return
	}
	sd := math.Sqrt(float64(got)) / 2
	for b, x := range ones {
		if z := (float64(x) - float64(got)/2) / sd; math.Abs(z) > 8.5 {
			w.Fail("not-uniform", "bit %d of the scalar is 1 in %d of %d operations (kind %d)", b, x, got, kind)
		}
	}
	w.Probe("bit-balance")
}

// topReal looks at draws that start with 32 one bits: sampling by rejection, or
// by reducing enough extra bits, never turns those into tiny scalars; reducing
// exactly 256 bits always does.
func topReal(w *sim.World, t *sim.T) {
	L := w.Plan
	kind := []int{1, 3}[L.N(2)]
	k := newKey(realCurve, randScalar(realCurve, L.Sub()))
	small, got := 0, 0
	for i := 0; i < 12; i++ {
		s := w.NewRand(L.Sub())
		s.Prefix = []byte{0xff, 0xff, 0xff, 0xff}
		if i%2 == 1 {
			s.Prefix[1] ^= 0x42 // as crypto/elliptic's key generation mixes it
		}
		u, _, ok := scalarOp(t, realCurve, k, kind, []byte("m"), s)
		if !ok || u.k == nil {
			continue
		}
		got++
		if u.k.BitLen() <= 226 {
			small++
		}
	}
	if small >= 2 {
		w.Fail("not-uniform", "%d of %d scalars are below 2^226 when the source starts with 32 one bits (kind %d): the range is not covered evenly", small, got, kind)
	}
	w.Fired("rand-unusable-values")
	w.Probe("top-of-range")
}
