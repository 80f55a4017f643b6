package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
	"gmverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C07", Quick: 10000, Thor: 300000, Chunk: 20, Special: 4,
		Run:    runC07,
		Rule:   "each run has 1-3 writers that encrypt (gm, or an independent SM2 implementation with chosen scalars) into a store, raw or in DER form, in both component orders, and 1-3 readers that read through a faulty store: torn, cut, extended, bit-flipped, swapped, re-encoded, wrong key, wrong order, C1 replaced by hostile points; the message or error at the end of conversion and decryption is compared with the standard's for exactly the bytes delivered. Some runs encrypt to unusable keys; some use tiny curves; four use messages above 2 MiB. Non-trivial: an injected fault, a message above 2 MiB or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2 Encrypt, Decrypt, MarshalCipher, UnmarshalCipher", "sm3 underneath"},
		Stub:   []string{stubRand, stubSched, stubClock, "ciphertext store"},
		Assume: []string{"conversion and decryption are done with the same component order", "a ciphertext of the empty message, or one with an all-zero key stream, which no honest encryption produces, may be refused or decrypted", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

type record07 struct {
	k     *key
	msg   []byte
	order sm2.Sm2CipherTextType
	der   bool
	data  []byte
	raw   []byte
}

type c07 struct {
	w     *sim.World
	c     *cv
	keys  []*key
	store []*record07
	left  int
}

func old07(o sm2.Sm2CipherTextType) bool { return o == sm2.C1C2C3 }

func runC07(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c07{w: w, c: realCurve}
	if w.Index >= SpecialBase {
		x.big(t, w.Index-SpecialBase)
		return
	}
	if L.P(4) && toysWork(w, t) {
		x.c = toyCurves[L.N(len(toyCurves))]
		w.Probe("toy-curve")
	}
	for i, n := 0, 1+L.N(2); i < n; i++ {
		x.keys = append(x.keys, pickKey(L, x.c))
	}
	m := 1
	if x.c.toy {
		m = 6
	}
	var fs []func(*sim.T)
	nw := 1 + L.W(3, 2, 1)
	x.left = nw
	for i := 0; i < nw; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, n := 0, m*(1+L.N(3)); j < n; j++ {
				x.write(t)
			}
			x.left--
		})
	}
	for i, n := 0, 1+L.W(3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			simrt.Block("first record", func() bool { return len(x.store) > 0 || x.left == 0 })
			if len(x.store) == 0 {
				return
			}
			for j, n := 0, m*(1+L.N(5)); j < n; j++ {
				x.read(t)
			}
			if L.N(3) == 0 {
				x.unusable(t)
			}
		})
	}
	t.Par("p", fs...)
	if len(x.store) > 0 {
		r := x.store[L.N(len(x.store))]
		x.decrypt(t, r.k, r.order, r.der, r.data, "at the end")
	}
}

func (x *c07) pickMsg() []byte {
	L := x.w.Plan
	n := 0
	switch L.W(2, 5, 1) {
	case 0:
		n = 1 + L.N(3)
	case 1:
		n = pickLen(L, 3000)
	case 2:
		n = L.LogSize(70000)
	}
	if n == 0 {
		n = 1
	}
	m := L.Sub().Bytes(n)
	switch L.N(6) {
	case 0: // leading or only zeros
		for i := range m[:(n+1)/2] {
			m[i] = 0
		}
	case 1:
		for i := range m {
			m[i] = 0
		}
	}
	return m
}

func (x *c07) write(t *sim.T) {
	w, L := x.w, x.w.Plan
	r := &record07{k: x.keys[L.N(len(x.keys))], msg: x.pickMsg(), order: sm2.C1C3C2}
	if L.N(2) == 0 {
		r.order = sm2.C1C2C3
	}
	r.der = !x.c.toy && L.N(2) == 0
	desc := fmt.Sprintf("message %s for key %x, order %d", sim.Hex(r.msg), r.k.d, r.order)
	var err error
	if L.N(3) == 0 {
		for {
			k := pickScalar(L, x.c)
			var ok bool
			if r.raw, ok = ref.EncryptK(x.c.r, r.k.P, r.k.d, k, r.msg, old07(r.order)); ok {
				break
			}
			w.Probe("foreign-redraw")
		}
		r.data = r.raw
		if r.der {
			r.data = ref.CipherDER(r.raw, old07(r.order))
		}
		w.Logf("foreign ciphertext %s: %s", sim.Hex(r.data), desc)
		x.store = append(x.store, r)
		return
	}
	t.Rand = w.NewRand(L.Sub())
	t.Do("Encrypt", func() { r.raw, err = sm2.Encrypt(r.k.pub, r.msg, r.order) })
	if err != nil {
		w.Fail("encrypt-refused", "%s: %v", desc, err)
	}
	m, zero, err := ref.Decrypt(x.c.r, r.k.d, r.raw, old07(r.order))
	if err != nil || !bytes.Equal(m, r.msg) {
		w.Fail("bad-ciphertext", "%s: the standard decrypts %s to %s (%v)", desc, sim.Hex(r.raw), sim.Hex(m), err)
	}
	if zero {
		w.Fail("bad-ciphertext", "%s: the key stream is all zero", desc)
	}
	r.data = r.raw
	if r.der {
		t.Do("MarshalCipher", func() { r.data, err = sm2.MarshalCipher(r.raw, r.order) })
		if want := ref.CipherDER(r.raw, old07(r.order)); err != nil || !bytes.Equal(r.data, want) {
			w.Fail("bad-encoding", "%s: MarshalCipher(%s) = %s (%v), want %s", desc, sim.Hex(r.raw), sim.Hex(r.data), err, sim.Hex(want))
		}
	}
	x.store = append(x.store, r)
}

// read takes a record out of the faulty store.
func (x *c07) read(t *sim.T) {
	w, f := x.w, x.w.Fault
	r := x.store[f.N(len(x.store))]
	k, order, der, data := r.k, r.order, r.der, append([]byte(nil), r.data...)
	what := "intact"
	switch f.W(4, 10, 2, 2, 2) {
	case 1:
		data, what = x.damage(r, data)
		w.Fired("ciphertext-" + what)
	case 2:
		k = x.keys[f.N(len(x.keys))]
		if f.N(2) == 0 {
			k = newKey(x.c, randScalar(x.c, f.Sub()))
		}
		what = "wrong-key"
		w.Fired(what)
	case 3:
		order = sm2.C1C2C3 + sm2.C1C3C2 - order
		what = "wrong-order"
		w.Fired(what)
	case 4:
		if !x.c.toy {
			der = !der
			what = "wrong-form"
			w.Fired(what)
		}
	}
	x.decrypt(t, k, order, der, data, what)
}

// decrypt runs the whole way from delivered bytes to plaintext.
func (x *c07) decrypt(t *sim.T, k *key, order sm2.Sm2CipherTextType, der bool, data []byte, what string) {
	w, f := x.w, x.w.Fault
	raw := data
	var want []byte
	var werr error
	if der {
		raw, werr = ref.ParseCipher(data, old07(order))
	}
	zero := false
	if werr == nil {
		want, zero, werr = ref.Decrypt(x.c.r, k.d, raw, old07(order))
	}
	lenient := werr == nil && (zero || len(want) == 0)
	desc := fmt.Sprintf("%s, delivered %s (DER: %v, order %d) to key %x", what, sim.Hex(data), der, order, k.d)
	in := data
	var err error
	steps := ""
	var got []byte
	end := func() {
		switch {
		case err != nil && werr == nil && !lenient:
			w.Fail("valid-refused", "%s: %s: %v, but it holds message %s", desc, steps, err, sim.Hex(want))
		case err == nil && werr != nil:
			w.Fail("accepted", "%s: %s gave plaintext %s from a ciphertext that is not valid", desc, steps, sim.Hex(got))
		case err == nil && !bytes.Equal(got, want):
			w.Fail("wrong-plaintext", "%s: %s gave plaintext %s instead of %s", desc, steps, sim.Hex(got), sim.Hex(want))
		}
		if werr == nil {
			w.Probe("valid-delivery")
		} else {
			w.Probe("invalid-delivery")
		}
	}
	if der {
		steps = "UnmarshalCipher"
		t.Do(steps, func() { in, err = sm2.UnmarshalCipher(data, order) })
		if err != nil {
			end()
			return
		}
	} else if !x.c.toy && f.N(4) == 0 {
		var d []byte
		steps = "MarshalCipher"
		t.Do(steps, func() { d, err = sm2.MarshalCipher(data, order) })
		if err != nil {
			end()
			return
		}
		steps += ", UnmarshalCipher"
		t.Do("UnmarshalCipher", func() { in, err = sm2.UnmarshalCipher(d, order) })
		if err != nil {
			end()
			return
		}
	}
	steps += ", Decrypt"
	t.Do("Decrypt", func() { got, err = sm2.Decrypt(k.priv, in, order) })
	end()
	if f.N(12) == 0 { // an order that does not exist
		bad := sm2.Sm2CipherTextType([]int{0, 3, -1, 1 << 30}[f.N(4)])
		t.Do("unknown order", func() {
			sm2.Decrypt(k.priv, data, bad)
			sm2.MarshalCipher(data, bad)
			sm2.UnmarshalCipher(data, bad)
		})
	}
}

// damage is what the store may do to a ciphertext.
func (x *c07) damage(r *record07, b []byte) ([]byte, string) {
	f := x.w.Fault
	q := f.Sub()
	cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
	fl := (x.c.r.Bits + 7) / 8
	raw := append([]byte(nil), r.raw...)
	// The parts of the raw form, for damage that respects the structure.
	c1, rest := raw[:1+2*fl], raw[1+2*fl:]
	c2, c3 := rest[:len(rest)-32], rest[len(rest)-32:]
	if !old07(r.order) {
		c3, c2 = rest[:32], rest[32:]
	}
	join := func(c1, c2, c3 []byte) []byte {
		var v []byte
		if old07(r.order) {
			v = cat(c1, c2, c3)
		} else {
			v = cat(c1, c3, c2)
		}
		if r.der && len(c1) == 65 && len(c3) == 32 {
			return ref.CipherDER(v, old07(r.order))
		}
		return v
	}
	n := 18
	if r.der {
		n = 30
	}
	switch f.N(n) {
	case 0, 1:
		i := f.N(len(b) * 8)
		if f.N(2) == 0 && i > 600 {
			i %= 600 // C1 and the headers are small next to a long message
		}
		b[i/8] ^= 1 << (i % 8)
		return b, "bit-flip"
	case 2:
		return b[:f.N(len(b))], "cut"
	case 3:
		if len(b) > 120 {
			return b[:f.N(120)], "cut-short"
		}
		return b[:len(b)-1], "cut-short"
	case 4:
		return append(b, q.Bytes(1+f.N(40))...), "extended"
	case 5:
		for i := f.N(len(b)); i < len(b); i++ {
			b[i] = 0
		}
		return b, "torn"
	case 6:
		return q.Bytes(f.LogSize(300)), "random-bytes"
	case 7:
		o := x.store[f.N(len(x.store))]
		return append([]byte(nil), o.data...), "swapped-with-another"
	case 8:
		o := x.store[f.N(len(x.store))]
		i := f.N(len(b) + 1)
		if i > len(o.data) {
			i = len(o.data)
		}
		return cat(b[:i], o.data[i:]), "spliced"
	case 9: // other C1
		P := damagePoint(x.w, f, x.c, r.k.P, []ref.Point{x.c.r.G()})
		if P.direct && (P.x.Sign() < 0 || P.y.Sign() < 0 || P.x.BitLen() > 8*fl || P.y.BitLen() > 8*fl) {
			return b, "c1-replaced"
		}
		if P.direct {
			return join(cat([]byte{4}, P.x.FillBytes(make([]byte, fl)), P.y.FillBytes(make([]byte, fl))), c2, c3), "c1-replaced"
		}
		if len(P.raw) == 2*fl {
			return join(cat([]byte{4}, P.raw), c2, c3), "c1-replaced"
		}
		return b, "c1-replaced"
	case 10: // C1 negated
		y := new(big.Int).Sub(x.c.r.P, new(big.Int).SetBytes(c1[1+fl:]))
		return join(cat(c1[:1+fl], y.FillBytes(make([]byte, fl))), c2, c3), "c1-negated"
	case 11: // form byte
		c := append([]byte(nil), raw...)
		c[0] = []byte{0, 2, 3, 5, 6, 7, 0x84}[f.N(7)]
		if r.der {
			return c, "form-byte-in-der"
		}
		return c, "form-byte"
	case 12:
		if len(c2) > 1 {
			return join(c1, c2[:f.Range(1, len(c2)-1)], c3), "c2-cut"
		}
		return join(c1, cat(c2, []byte{0}), c3), "c2-extended"
	case 13:
		return join(c1, cat(c2, make([]byte, 1+f.N(40))), c3), "c2-extended"
	case 14:
		z := append([]byte(nil), c2...)
		i := f.N(8 * len(z))
		z[i/8] ^= 1 << (i % 8)
		return join(c1, z, c3), "c2-bit-flip"
	case 15:
		z := append([]byte(nil), c3...)
		i := f.N(8 * len(z))
		z[i/8] ^= 1 << (i % 8)
		return join(c1, c2, z), "c3-bit-flip"
	case 16:
		return join(c1, c2, make([]byte, 32)), "c3-zero"
	case 17:
		return join(c1, nil, c3), "c2-lost"
	}
	X, Y := new(big.Int).SetBytes(c1[1:33]), new(big.Int).SetBytes(c1[33:])
	u, v := c2, c3
	if !old07(r.order) {
		u, v = c3, c2
	}
	enc := func(X, Y *big.Int) []byte {
		return ref.Enc(0x30, ref.EncInt(X), ref.EncInt(Y), ref.Enc(4, u), ref.Enc(4, v))
	}
	body := cat(ref.EncInt(X), ref.EncInt(Y), ref.Enc(4, u), ref.Enc(4, v))
	switch f.N(12) {
	case 0:
		return enc(new(big.Int).Neg(X), Y), "der-negative"
	case 1:
		if f.N(2) == 0 {
			return enc(X, new(big.Int).Add(Y, new(big.Int).Lsh(one, uint(256+f.N(100))))), "der-too-wide"
		}
		return enc(new(big.Int).Add(X, new(big.Int).Lsh(one, uint(256+f.N(9)))), Y), "der-too-wide"
	case 2:
		return enc(X, new(big.Int).Add(Y, x.c.r.P)), "der-not-reduced"
	case 3:
		return ref.Enc(0x30, body, ref.Enc(5)), "der-extra-element"
	case 4:
		return cat([]byte{0x30, 0x80}, body, []byte{0, 0}), "der-indefinite"
	case 5:
		c := ref.EncInt(X)
		return ref.Enc(0x30, ref.Enc(2, []byte{0}, c[2:]), ref.EncInt(Y), ref.Enc(4, u), ref.Enc(4, v)), "der-leading-zero"
	case 6:
		z := c3
		switch f.N(4) {
		case 0:
			z = z[:f.N(32)]
		case 1:
			z = cat(z, []byte{0})
		case 2:
			z = nil
		case 3:
			z = cat(z, z)
		}
		if old07(r.order) {
			return ref.Enc(0x30, ref.EncInt(X), ref.EncInt(Y), ref.Enc(4, c2), ref.Enc(4, z)), "der-c3-length"
		}
		return ref.Enc(0x30, ref.EncInt(X), ref.EncInt(Y), ref.Enc(4, z), ref.Enc(4, c2)), "der-c3-length"
	case 7:
		l := len(body)
		return cat([]byte{0x30, 0x84, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, body), "der-long-form"
	case 8:
		i := 0
		if f.N(2) == 0 {
			i = 2
		}
		b[i] = []byte{0x31, 0x10, 0x03, 0x0a, 0x24, 0xb0, 0}[f.N(7)]
		return b, "der-wrong-tag"
	case 9:
		return ref.Enc(0x30, ref.EncInt(X), ref.EncInt(Y), ref.Enc(4, u)), "der-element-lost"
	case 10:
		return ref.Enc(0x30, ref.EncInt(X), ref.EncInt(Y), ref.Enc(0x24, ref.Enc(4, u[:len(u)/2]), ref.Enc(4, u[len(u)/2:])), ref.Enc(4, v)), "der-constructed-string"
	case 11:
		xb := X.Bytes()
		if len(xb) == 0 {
			xb = []byte{0x80}
		}
		return ref.Enc(0x30, ref.Enc(2, xb), ref.EncInt(Y), ref.Enc(4, u), ref.Enc(4, v)), "der-sign-byte-lost"
	}
	return b, "none"
}

// unusable encrypts to damaged keys and encrypts nothing: it only has to end.
func (x *c07) unusable(t *sim.T) {
	w, L := x.w, x.w.Plan
	k := x.keys[L.N(len(x.keys))]
	t.Rand = w.NewRand(L.Sub())
	P := damagePoint(w, w.Fault, x.c, k.P, []ref.Point{x.c.r.G()})
	pub := &sm2.PublicKey{X: P.x, Y: P.y, Curve: x.c.gm}
	if !P.direct {
		if len(P.raw) != 64 {
			return
		}
		pub.X, pub.Y = new(big.Int).SetBytes(P.raw[:32]), new(big.Int).SetBytes(P.raw[32:])
	}
	msg := x.pickMsg()
	if L.N(4) == 0 {
		msg = msg[:0]
		pub = k.pub
		if L.N(2) == 0 {
			msg = nil
		}
		w.Fired("empty-message")
	}
	_, usable := P.decoded(x.c)
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	order := sm2.C1C3C2
	if L.N(2) == 0 {
		order = sm2.C1C2C3
	}
	var err error
	t.Do("Encrypt to "+P.what, func() { _, err = sm2.Encrypt(pub, msg, order) })
	w.Logf("%v", isErr(err))
	_ = usable
	w.Probe("unusable-key-or-empty-message")
}

// big runs messages whose key derivation counter needs more than 16 bits.
func (x *c07) big(t *sim.T, i int) {
	w, L := x.w, x.w.Plan
	w.Nontrivial()
	k := newKey(x.c, randScalar(x.c, L.Sub()))
	msg := L.Sub().Bytes(1<<21 + 32*i + L.N(100))
	order := []sm2.Sm2CipherTextType{sm2.C1C2C3, sm2.C1C3C2}[i&1]
	var ct, d []byte
	var err error
	if i < 2 {
		t.Rand = w.NewRand(L.Sub())
		t.TryBudget("Encrypt", 1<<40, func() { ct, err = sm2.Encrypt(k.pub, msg, order) })
		m, _, e2 := ref.Decrypt(x.c.r, k.d, ct, old07(order))
		if err != nil || e2 != nil || !bytes.Equal(m, msg) {
			w.Fail("bad-ciphertext", "a message of %d bytes does not decrypt by the standard (%v, %v)", len(msg), err, e2)
		}
	} else {
		ct, _ = ref.EncryptK(x.c.r, k.P, k.d, randScalar(x.c, L.Sub()), msg, old07(order))
	}
	t.TryBudget("MarshalCipher", 1<<40, func() { d, err = sm2.MarshalCipher(ct, order) })
	if err != nil || !bytes.Equal(d, ref.CipherDER(ct, old07(order))) {
		w.Fail("bad-encoding", "MarshalCipher of %d bytes: %v", len(ct), err)
	}
	t.TryBudget("UnmarshalCipher", 1<<40, func() { d, err = sm2.UnmarshalCipher(d, order) })
	if err != nil || !bytes.Equal(d, ct) {
		w.Fail("bad-encoding", "UnmarshalCipher of %d bytes: %v", len(ct), err)
	}
	var m []byte
	t.TryBudget("Decrypt", 1<<40, func() { m, err = sm2.Decrypt(k.priv, ct, order) })
	if err != nil || !bytes.Equal(m, msg) {
		w.Fail("valid-refused", "a message of %d bytes does not decrypt (%v)", len(msg), err)
	}
	ct[len(ct)-1-i] ^= 1
	t.TryBudget("Decrypt", 1<<40, func() { m, err = sm2.Decrypt(k.priv, ct, order) })
	if err == nil {
		w.Fail("accepted", "a damaged ciphertext of %d bytes decrypted", len(ct))
	}
	w.Probe("message-above-2MiB")
}
