package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
	"gmverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C06", Quick: 16000, Thor: 400000, Chunk: 20,
		Run:    runC06,
		Rule:   "each run has 1-3 signers (gm, or an independent SM2 implementation with chosen scalars) putting signed records into a store and 1-3 verifiers taking them out of it through a faulty channel: signature bytes, message, identity and public key are each left alone, damaged (27 kinds for signatures, 14 for keys), replayed from another record or mixed up, and some records are delivered again intact to a verifier that kept the key; the answer of Verify and of UnmarshalSign followed by VerifyByRS is compared with the standard's for exactly what was delivered. A third of the runs use tiny curves, where every scalar and every special sum occurs. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2 Sign, SignToRS, Verify, VerifyByRS, MarshalSign, UnmarshalSign, key import and export", "sm3 underneath"},
		Stub:   []string{stubRand, stubSched, stubClock, "signature store and channel"},
		Assume: []string{"identities are shorter than 8192 bytes", "integers passed to VerifyByRS and MarshalSign are not nil", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

type record06 struct {
	k       *key
	id, msg []byte
	sig     []byte
	r, s    *big.Int
	foreign bool
}

type c06 struct {
	w     *sim.World
	c     *cv
	keys  []*key
	store []*record06
	left  int                       // signers still working
	known map[string]*sm2.PublicKey // keys the verifiers hold
}

func runC06(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c06{w: w, c: realCurve, known: map[string]*sm2.PublicKey{}}
	if L.P(3) && toysWork(w, t) {
		x.c = toyCurves[L.N(len(toyCurves))]
		w.Probe("toy-curve")
	}
	for i, n := 0, 1+L.N(3); i < n; i++ {
		x.keys = append(x.keys, pickKey(L, x.c))
	}
	m := 1
	if x.c.toy {
		m = 12
	}
	var fs []func(*sim.T)
	ns := 1 + L.W(3, 2, 1)
	x.left = ns
	for i := 0; i < ns; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, n := 0, m*(1+L.N(3)); j < n; j++ {
				x.sign(t)
			}
			x.left--
		})
	}
	for i, n := 0, 1+L.W(3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			simrt.Block("first record", func() bool { return len(x.store) > 0 || x.left == 0 })
			if len(x.store) == 0 {
				return
			}
			for j, n := 0, m*(1+L.N(4)); j < n; j++ {
				x.verify(t)
			}
			if L.N(3) == 0 {
				x.imports(t)
			}
		})
	}
	t.Par("p", fs...)
	// Everything that was stored still verifies at the end.
	if len(x.store) > 0 {
		x.check(t, x.store[L.N(len(x.store))], nil)
	}
}

func (x *c06) message() []byte {
	L := x.w.Plan
	switch L.W(1, 6, 2) {
	case 0:
		return nil
	case 1:
		return L.Sub().Bytes(pickLen(L, 3000))
	}
	return L.Sub().Bytes(L.LogSize(60000))
}

// sign adds one record to the store.
func (x *c06) sign(t *sim.T) {
	w, L := x.w, x.w.Plan
	rec := &record06{k: x.keys[L.N(len(x.keys))], id: pickID(L), msg: x.message()}
	desc := fmt.Sprintf("key %x id %s message %s", rec.k.d, sim.Hex(rec.id), sim.Hex(rec.msg))
	if L.N(3) == 0 {
		// Signed by another implementation, sometimes with a scalar whose point has
		// leading zero bytes or is close to the group's order.
		rec.foreign = true
		e := ref.E(x.c.r, sigID(rec.id), rec.k.P, rec.msg)
		for {
			k := randScalar(x.c, L.Sub())
			if !x.c.toy && L.N(2) == 0 {
				k = pickScalar(L, x.c)
			}
			var ok bool
			if rec.r, rec.s, ok = ref.SignK(x.c.r, rec.k.d, k, e); ok {
				break
			}
			w.Probe("foreign-redraw")
		}
		rec.sig = ref.EncSig(rec.r, rec.s)
		w.Logf("foreign signature %s by %s", sim.Hex(rec.sig), desc)
		x.store = append(x.store, rec)
		return
	}
	var err error
	t.Rand = w.NewRand(L.Sub())
	if L.N(2) == 0 {
		t.Do("Sign", func() { rec.sig, err = sm2.Sign(rec.k.priv, rec.id, rec.msg) })
		if err != nil {
			w.Fail("sign-refused", "%s: %v", desc, err)
		}
		if rec.r, rec.s, err = ref.ParseSig(rec.sig); err != nil {
			w.Fail("bad-encoding", "%s: signature %x is not strict DER", desc, rec.sig)
		}
	} else {
		t.Do("SignToRS", func() { rec.r, rec.s, err = sm2.SignToRS(rec.k.priv, rec.id, rec.msg) })
		if err != nil {
			w.Fail("sign-refused", "%s: %v", desc, err)
		}
		t.Do("MarshalSign", func() { rec.sig, err = sm2.MarshalSign(rec.r, rec.s) })
		if err != nil || !bytes.Equal(rec.sig, ref.EncSig(rec.r, rec.s)) {
			w.Fail("bad-encoding", "MarshalSign(%x, %x) = %x (%v)", rec.r, rec.s, rec.sig, err)
		}
	}
	if !ref.Verify(x.c.r, rec.k.P, rec.k.d, sigID(rec.id), rec.msg, rec.r, rec.s) {
		w.Fail("invalid-signature", "%s: signature (%x, %x) is not valid by the standard", desc, rec.r, rec.s)
	}
	x.store = append(x.store, rec)
}

// delivered is what reaches the verifier.
type delivered struct {
	pub     *wirePoint
	id, msg []byte
	sig     []byte
	what    string
}

func (x *c06) verify(t *sim.T) {
	w := x.w
	f := w.Fault
	rec := x.store[f.N(len(x.store))]
	d := &delivered{pub: &wirePoint{raw: rec.k.raw(), what: "intact"}, id: rec.id, msg: rec.msg, sig: rec.sig}
	if x.c.toy {
		d.pub.direct, d.pub.x, d.pub.y = true, rec.k.pub.X, rec.k.pub.Y
	}
	k := f.W(4, 10, 4, 4, 4, 3, 2)
	if k == 1 || k == 6 {
		x.damageSig(d, rec)
	}
	if k == 2 || k == 6 {
		x.damageMsg(d)
	}
	if k == 3 || k == 6 && f.N(2) == 0 {
		x.damageID(d)
	}
	if k == 4 {
		var others []ref.Point
		for _, o := range x.keys {
			others = append(others, o.P)
		}
		d.pub = damagePoint(w, f, x.c, rec.k.P, others)
		if d.pub.what != "intact" {
			d.what += " key:" + d.pub.what
		}
	}
	if k == 5 { // replayed: everything from another record but the signature
		o := x.store[f.N(len(x.store))]
		d.id, d.msg = o.id, o.msg
		if !x.c.toy {
			d.pub.raw = o.k.raw()
		} else {
			d.pub.x, d.pub.y = o.k.pub.X, o.k.pub.Y
		}
		d.what += " replayed"
		w.Fired("signature-replayed")
	}
	x.check(t, rec, d)
	if f.N(4) == 3 && !x.c.toy { // sent again, undamaged
		w.Fired("delivered-again")
		x.check(t, rec, &delivered{pub: &wirePoint{raw: rec.k.raw(), what: "intact"}, id: rec.id, msg: rec.msg, sig: rec.sig, what: " again after" + d.what})
	}
}

func (x *c06) damageMsg(d *delivered) {
	w, f := x.w, x.w.Fault
	m := append([]byte(nil), d.msg...)
	switch f.N(5) {
	case 0:
		if len(m) > 0 {
			i := f.N(len(m) * 8)
			m[i/8] ^= 1 << (i % 8)
		}
		w.Fired("message-bit-flip")
	case 1:
		m = m[:f.N(len(m)+1)]
		w.Fired("message-cut")
	case 2:
		m = append(m, make([]byte, 1+f.N(3))...)
		w.Fired("message-extended")
	case 3:
		if len(m) > 0 && len(d.id) > 0 { // boundary between identity and message moved
			d.id, m = d.id[:len(d.id)-1], append([]byte{d.id[len(d.id)-1]}, m...)
		}
		w.Fired("message-boundary-moved")
	case 4:
		m = append([]byte(nil), x.store[f.N(len(x.store))].msg...)
		w.Fired("message-swapped")
	}
	d.msg = m
	d.what += " message"
}

func (x *c06) damageID(d *delivered) {
	w, f := x.w, x.w.Fault
	id := append([]byte(nil), d.id...)
	switch f.N(6) {
	case 0:
		if len(id) > 0 {
			i := f.N(len(id) * 8)
			id[i/8] ^= 1 << (i % 8)
		}
		w.Fired("id-bit-flip")
	case 1:
		id = append([]byte{}, id[:f.N(len(id)+1)]...)
		w.Fired("id-cut")
	case 2:
		if len(id) < 8000 {
			id = append(id, 0)
		}
		w.Fired("id-extended")
	case 3:
		id = nil
		w.Fired("id-lost")
	case 4:
		id = []byte{}
		w.Fired("id-emptied")
	case 5:
		id = append([]byte(nil), ref.DefaultID...)
		w.Fired("id-default")
	}
	d.id = id
	d.what += " identity"
}

func (x *c06) damageSig(d *delivered, rec *record06) {
	w, f := x.w, x.w.Fault
	n := x.c.r.N
	r, s := new(big.Int).Set(rec.r), new(big.Int).Set(rec.s)
	b := append([]byte(nil), rec.sig...)
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	body := cat(ref.EncInt(r), ref.EncInt(s))
	rebuild := true
	what := ""
	switch f.N(28) {
	case 0:
		i := f.N(len(b) * 8)
		b[i/8] ^= 1 << (i % 8)
		rebuild, what = false, "bit-flip"
	case 1:
		b = b[:f.N(len(b))]
		rebuild, what = false, "cut"
	case 2:
		b = append(b, f.Sub().Bytes(1+f.N(4))...)
		rebuild, what = false, "extended"
	case 3:
		b = cat([]byte{0x30, 0x81, byte(len(body))}, body)
		rebuild, what = false, "long-form-length"
	case 4:
		c := ref.EncInt(r)
		b = ref.Enc(0x30, cat([]byte{2, 0x81, c[1]}, c[2:]), ref.EncInt(s))
		rebuild, what = false, "inner-long-form-length"
	case 5:
		c := ref.EncInt(s)
		b = ref.Enc(0x30, ref.EncInt(r), ref.Enc(2, []byte{0}, c[2:]))
		rebuild, what = false, "leading-zero"
	case 6:
		if f.N(2) == 0 {
			r.Neg(r)
		} else {
			s.Neg(s)
		}
		what = "negative"
	case 7:
		b = ref.Enc(0x30, body, ref.EncInt(big.NewInt(int64(f.N(300)))))
		rebuild, what = false, "third-element"
	case 8:
		r, s = s, r
		what = "swapped"
	case 9:
		r.Add(r, n)
		what = "r-plus-n"
	case 10:
		s.Add(s, n)
		what = "s-plus-n"
	case 11:
		s.Sub(n, s)
		what = "n-minus-s"
	case 12:
		if f.N(2) == 0 {
			r.SetInt64(0)
		} else {
			s.SetInt64(0)
		}
		if f.N(4) == 0 {
			r.SetInt64(0)
			s.SetInt64(0)
		}
		what = "zero"
	case 13:
		r.Set(n)
		if f.N(2) == 0 {
			r, s = s, r
			r.Set(rec.r)
			s.Set(n)
		}
		what = "equal-to-n"
	case 14:
		s.Sub(n, r)
		what = "sum-zero"
	case 15:
		r.Lsh(r, uint(1+f.N(3000)))
		what = "huge"
	case 16: // s*G + t*P at infinity, with r equal to e
		e := ref.E(x.c.r, sigID(d.id), rec.k.P, d.msg)
		e.Mod(e, n)
		inv := new(big.Int).ModInverse(new(big.Int).Add(rec.k.d, one), n)
		s.Mul(e, rec.k.d).Mul(s, inv).Neg(s).Mod(s, n)
		r.Set(e)
		what = "sum-at-infinity"
	case 17:
		o := x.store[f.N(len(x.store))]
		b = append([]byte(nil), o.sig...)
		rebuild, what = false, "another"
	case 18:
		o := x.store[f.N(len(x.store))]
		s.Set(o.s)
		what = "half-from-another"
	case 19:
		b = cat([]byte{0x30, 0x80}, body, []byte{0, 0})
		rebuild, what = false, "indefinite-length"
	case 20:
		i := 0
		if f.N(2) == 0 {
			i = 2
		}
		b[i] = []byte{0x31, 0x10, 0x03, 0x0a, 0xb0, 0x24, 0}[f.N(7)]
		rebuild, what = false, "wrong-tag"
	case 21:
		b = cat(ref.B32(r), ref.B32(s))
		rebuild, what = false, "raw-form"
	case 22:
		b = nil
		rebuild, what = false, "lost"
	case 23: // positive numbers whose sign byte was lost
		raw := s.Bytes()
		b = ref.Enc(0x30, ref.EncInt(r), ref.Enc(2, raw))
		rebuild, what = false, "sign-byte-lost"
	case 24:
		b = ref.Enc(0x30, ref.EncInt(r))
		rebuild, what = false, "one-element"
	case 25:
		i := f.N(len(b))
		for j := i; j < len(b); j++ {
			b[j] = 0
		}
		rebuild, what = false, "torn"
	case 26:
		r.Sub(r, n)
		if f.N(2) == 0 {
			r.Set(rec.r)
			s.Sub(s, n)
		}
		what = "minus-n"
	case 27:
		b = f.Sub().Bytes(f.LogSize(80))
		rebuild, what = false, "random-bytes"
	}
	if rebuild {
		b = ref.EncSig(r, s)
	}
	d.sig = b
	d.what += " signature:" + what
	w.Fired("signature-" + what)
}

// check verifies what was delivered in both ways and compares with the standard.
func (x *c06) check(t *sim.T, rec *record06, d *delivered) {
	w, f := x.w, x.w.Fault
	if d == nil {
		d = &delivered{pub: &wirePoint{direct: true, x: rec.k.pub.X, y: rec.k.pub.Y}, id: rec.id, msg: rec.msg, sig: rec.sig}
	}
	P, good := d.pub.decoded(x.c)
	var dl *big.Int
	if good && P.X.Cmp(rec.k.P.X) == 0 && P.Y.Cmp(rec.k.P.Y) == 0 {
		dl = rec.k.d
	}
	r, s, perr := ref.ParseSig(d.sig)
	want := good && perr == nil && ref.Verify(x.c.r, P, dl, sigID(d.id), d.msg, r, s)
	desc := fmt.Sprintf("delivered%s: key (%x, %x) id %s message %s signature %x", d.what, P.X, P.Y, sim.Hex(d.id), sim.Hex(d.msg), clip(d.sig))
	var pub *sm2.PublicKey
	var err error
	if d.pub.direct {
		pub = &sm2.PublicKey{X: d.pub.x, Y: d.pub.y, Curve: x.c.gm}
	} else {
		pub = x.known[string(d.pub.raw)]
		if pub == nil || f.N(3) == 0 {
			t.Do("RawBytesToPublicKey", func() { pub, err = sm2.RawBytesToPublicKey(d.pub.raw) })
			if err != nil {
				if good {
					w.Fail("key-refused", "%s: import of a valid key: %v", desc, err)
				}
				return
			}
			x.known[string(d.pub.raw)] = pub
		}
	}
	if want {
		w.Probe("valid-delivery")
	} else {
		w.Probe("invalid-delivery")
	}
	if f.N(3) == 0 {
		var gr, gs *big.Int
		t.Do("UnmarshalSign", func() { gr, gs, err = sm2.UnmarshalSign(d.sig) })
		if err != nil {
			if want {
				w.Fail("valid-refused", "%s: UnmarshalSign: %v", desc, err)
			}
			return
		}
		got := false
		t.Do("VerifyByRS", func() { got = sm2.VerifyByRS(pub, d.id, d.msg, gr, gs) })
		x.verdict(got, want, "UnmarshalSign and VerifyByRS", desc)
		return
	}
	if perr == nil && f.N(3) == 0 {
		// The pair itself, in or out of range, without the encoding.
		got := false
		t.Do("VerifyByRS", func() { got = sm2.VerifyByRS(pub, d.id, d.msg, r, s) })
		x.verdict(got, want, "VerifyByRS", desc)
		var enc []byte
		if f.N(4) == 0 {
			t.Do("MarshalSign", func() { enc, err = sm2.MarshalSign(r, s) })
			if want && (err != nil || !bytes.Equal(enc, d.sig)) {
				w.Fail("bad-encoding", "MarshalSign(%x, %x) = %x (%v)", r, s, enc, err)
			}
		}
		return
	}
	got := false
	t.Do("Verify", func() { got = sm2.Verify(pub, d.id, d.msg, d.sig) })
	x.verdict(got, want, "Verify", desc)
}

func (x *c06) verdict(got, want bool, name, desc string) {
	if got == want {
		return
	}
	if got {
		x.w.Fail("accepted", "%s accepted what the standard rejects, %s", name, desc)
	}
	x.w.Fail("valid-refused", "%s rejected a valid signature, %s", name, desc)
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// imports feeds damaged private keys and structures to import and signing.
func (x *c06) imports(t *sim.T) {
	w, f := x.w, x.w.Fault
	if x.c.toy {
		return
	}
	k := x.keys[f.N(len(x.keys))]
	n := x.c.r.N
	raw := ref.B32(k.d)
	switch f.N(8) {
	case 0:
	case 1:
		raw = raw[:f.N(32)]
	case 2:
		raw = append(raw, 0)
	case 3:
		raw = make([]byte, 32)
	case 4:
		raw = bytes.Repeat([]byte{0xff}, 32)
	case 5:
		raw = ref.B32(new(big.Int).Sub(n, big.NewInt(int64(f.N(3)))))
	case 6:
		i := f.N(256)
		raw[i/8] ^= 1 << (i % 8)
	case 7:
		for i := f.N(32); i < 32; i++ {
			raw[i] = 0
		}
	}
	v := new(big.Int).SetBytes(raw)
	valid := len(raw) == 32 && v.Sign() > 0 && v.Cmp(new(big.Int).Sub(n, big.NewInt(2))) <= 0
	if !bytes.Equal(raw, ref.B32(k.d)) {
		w.Fired("private-key-damaged")
	}
	var priv *sm2.PrivateKey
	var err error
	t.Do("RawBytesToPrivateKey", func() { priv, err = sm2.RawBytesToPrivateKey(raw) })
	if valid != (err == nil) {
		if valid {
			w.Fail("key-refused", "private key %x: %v", raw, err)
		}
		w.Fail("key-accepted", "private key %x, which is not in [1, n-2], was imported", raw)
	}
	if err == nil {
		if priv.D.Cmp(v) != 0 {
			w.Fail("key-changed", "private key %x imported as %x", raw, priv.D)
		}
		var pub *sm2.PublicKey
		t.Do("CalculatePubKey", func() { pub = sm2.CalculatePubKey(priv) })
		P := x.c.r.BaseMul(v)
		if pub.X.Cmp(P.X) != 0 || pub.Y.Cmp(P.Y) != 0 {
			w.Fail("key-changed", "public key of %x is (%x, %x)", raw, pub.X, pub.Y)
		}
		var out, unc, praw []byte
		t.Do("GetRawBytes", func() { out, unc, praw = pub.GetRawBytes(), pub.GetUnCompressBytes(), priv.GetRawBytes() })
		want := rawPoint(P)
		if !bytes.Equal(out, want) || !bytes.Equal(unc, append([]byte{4}, want...)) || !bytes.Equal(praw, raw) {
			w.Fail("key-changed", "key %x exported as %x, %x, %x", raw, praw, out, unc)
		}
		var back *sm2.PublicKey
		t.Do("RawBytesToPublicKey", func() { back, err = sm2.RawBytesToPublicKey(out) })
		if err != nil || back.X.Cmp(P.X) != 0 || back.Y.Cmp(P.Y) != 0 {
			w.Fail("key-changed", "public key %x imported as %v (%v)", out, back, err)
		}
		w.Probe("key-export-import")
		return
	}
	// The same damage in a key structure built by hand: signing may refuse it
	// but has to return.
	bad := &sm2.PrivateKey{D: v, Curve: k.priv.Curve}
	t.Rand = w.NewRand(f.Sub())
	t.Do("Sign with a damaged key", func() { _, err = sm2.Sign(bad, nil, []byte("m")) })
	w.Logf("signing with %x: %s", v, isErr(err))
}
