package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 9000, Thor: 250000, Chunk: 10,
		Run:    runC02,
		Rule:   "each run has a victim party whose static key is used at once by 1-3 attack threads and 0-2 honest threads; attack threads put damaged or hostile public keys, identities and confirmation values in place of the peer's (14 kinds of damage, shared point forced to infinity, values of other sessions), on one ephemeral key repeatedly, then let the honest message through; every outcome is judged by an independent model. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2 key exchange", "sm2 public key import", "sm3 underneath"},
		Stub:   []string{stubRand, stubSched, stubClock, "peers and the channel to them"},
		Assume: []string{"a received key is always a pair of integers (no nil pointers)", "identities are shorter than 8192 bytes", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

type c02 struct {
	w      *sim.World
	c      *cv
	victim *key
	vid    []byte
	peers  []*key
	pids   [][]byte
	tags   [][]byte // confirmation values seen so far
}

func runC02(w *sim.World, t *sim.T) {
	x := &c02{w: w, c: realCurve}
	if w.Plan.P(6) && toysWork(w, t) {
		x.c = toyCurves[5+w.Plan.N(2)]
		w.Probe("toy-curve")
	}
	L := w.Plan
	x.victim = pickKey(L, x.c)
	x.vid = L.Sub().Bytes(L.N(20))
	for i := 0; i < 2; i++ {
		x.peers = append(x.peers, pickKey(L, x.c))
		x.pids = append(x.pids, L.Sub().Bytes(L.N(20)))
	}
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 1+L.N(3); j < m; j++ {
				x.session(t, true)
			}
		})
	}
	for i, n := 0, L.N(3); i < n; i++ {
		fs = append(fs, func(t *sim.T) { x.session(t, false) })
	}
	t.Par("s", fs...)
	x.session(t, false)
}

// session is one exchange of the victim with an honest peer. If hostile, bad
// messages arrive before the good one, on the same ephemeral key.
func (x *c02) session(t *sim.T, hostile bool) {
	w, L := x.w, x.w.Plan
	pi := L.N(len(x.peers))
	peer, pid := x.peers[pi], x.pids[pi]
	initiator := L.N(2) == 0
	bits := 8 * (1 + L.N(70))
	eph, peph := pickKey(L, x.c), pickKey(L, x.c)
	if hostile {
		for i, n := 0, 1+L.N(3); i < n; i++ {
			x.attack(t, initiator, bits, eph, peer, peph, pid)
		}
	}
	// The honest message.
	want := ref.Exchange(x.c.r, initiator, bits/8, x.victim.d, eph.d, x.vid, peer.P, peph.P, pid)
	if want.Inf {
		w.Probe("honest-infinity")
		return
	}
	var tag []byte
	if initiator {
		tag = append([]byte(nil), want.S1...)
	}
	var res *sm2.ExchangeResult
	var err error
	t.Do("honest exchange", func() {
		res, err = sm2.CalculateKeyWithConfirmation(initiator, bits, tag, x.victim.priv, eph.priv, x.vid, peer.pub, peph.pub, pid)
	})
	if err != nil {
		w.Fail("honest-refused", "after hostile messages, initiator=%v: an honest exchange failed: %v", initiator, err)
	}
	if !bytes.Equal(res.Key, want.Key) || !bytes.Equal(res.S2, want.S2) || !initiator && !bytes.Equal(res.S1, want.S1) {
		w.Fail("honest-wrong", "after hostile messages, initiator=%v: key %s S1 %x S2 %x, want %s %x %x", initiator,
			sim.Hex(res.Key), res.S1, res.S2, sim.Hex(want.Key), want.S1, want.S2)
	}
	x.tags = append(x.tags, want.S1, want.S2)
	var ok bool
	t.Do("ResponderConfirm", func() { ok = sm2.ResponderConfirm(res.S2, append([]byte(nil), want.S2...)) })
	if !ok {
		w.Fail("honest-refused", "ResponderConfirm refused the honest value")
	}
	bad := x.damageTag(want.S2, want.S1)
	t.Do("ResponderConfirm", func() { ok = sm2.ResponderConfirm(res.S2, bad) })
	if ok != bytes.Equal(bad, want.S2) {
		w.Fail("confirmation-check", "ResponderConfirm(%x, %s) is %v", res.S2, sim.Hex(bad), ok)
	}
	w.Probe("honest-completed")
}

func (x *c02) damageTag(s, other []byte) []byte {
	f := x.w.Fault
	b := append([]byte(nil), s...)
	switch f.N(9) {
	case 0:
		return b
	case 1:
		i := f.N(len(b) * 8)
		b[i/8] ^= 1 << (i % 8)
		x.w.Fired("tag-bit-flip")
	case 2:
		b = b[:f.N(len(b))]
		x.w.Fired("tag-cut")
	case 3:
		b = append(b, byte(f.N(256)))
		x.w.Fired("tag-extended")
	case 4:
		b = append([]byte(nil), other...)
		x.w.Fired("tag-of-other-role")
	case 5:
		if len(x.tags) > 0 {
			b = append([]byte(nil), x.tags[f.N(len(x.tags))]...)
			x.w.Fired("tag-of-other-session")
		}
	case 6:
		b = nil
		x.w.Fired("tag-missing")
	case 7:
		b = []byte{}
		x.w.Fired("tag-empty")
	case 8:
		b = make([]byte, 32)
		x.w.Fired("tag-zero")
	}
	return b
}

func (x *c02) attack(t *sim.T, initiator bool, bits int, eph, peer, peph *key, pid []byte) {
	w, f := x.w, x.w.Fault
	others := []ref.Point{x.victim.P, eph.P, x.peers[0].P, x.peers[1].P, x.c.r.G()}
	st, ep := &wirePoint{raw: peer.raw(), what: "intact"}, &wirePoint{raw: peph.raw(), what: "intact"}
	if x.c.toy {
		st.direct, st.x, st.y = true, peer.P.X, peer.P.Y
		ep.direct, ep.x, ep.y = true, peph.P.X, peph.P.Y
	}
	id := pid
	mode := f.W(5, 5, 2, 2, 2, 2)
	switch mode {
	case 0:
		st = damagePoint(w, f, x.c, peer.P, others)
	case 1:
		ep = damagePoint(w, f, x.c, peph.P, others)
	case 2:
		st = damagePoint(w, f, x.c, peer.P, others)
		ep = damagePoint(w, f, x.c, peph.P, others)
	case 3: // hostile static key that sends the shared point to infinity
		k := new(big.Int).Mul(ref.Xbar(x.c.r, peph.P.X), peph.d)
		k.Mod(k.Neg(k), x.c.r.N)
		p := x.c.r.BaseMul(k)
		if p.Inf {
			return
		}
		st = &wirePoint{raw: rawPoint(p), x: p.X, y: p.Y, direct: x.c.toy, what: "forces-infinity"}
		w.Fired("key-forces-infinity")
	case 4:
		r := f.Sub()
		id = r.Bytes([]int{0, 1, len(pid), 64, 8191}[f.N(5)])
		w.Fired("identity-replaced")
	case 5: // roles mixed up: the peer's keys exchanged for each other
		st, ep = ep, st
		w.Fired("keys-exchanged")
	}
	get := func(p *wirePoint) (*sm2.PublicKey, bool) {
		if p.direct {
			return &sm2.PublicKey{X: new(big.Int).Set(p.x), Y: new(big.Int).Set(p.y), Curve: x.c.gm}, true
		}
		var pub *sm2.PublicKey
		var err error
		t.Do("RawBytesToPublicKey("+p.what+")", func() { pub, err = sm2.RawBytesToPublicKey(p.raw) })
		q, valid := p.decoded(x.c)
		if valid && err != nil {
			w.Fail("import-refused", "a valid public key (%s) was refused: %v", p.what, err)
		}
		if err != nil {
			w.Probe("import-refused")
			return nil, false
		}
		if len(p.raw) != 64 {
			w.Fail("import-accepted", "a public key of %d bytes was accepted", len(p.raw))
		}
		if pub.X.Cmp(q.X) != 0 || pub.Y.Cmp(q.Y) != 0 {
			w.Fail("import-wrong", "public key %x imported as (%x, %x)", p.raw, pub.X, pub.Y)
		}
		return pub, true
	}
	sp, ok := get(st)
	if !ok {
		return
	}
	epub, ok := get(ep)
	if !ok {
		return
	}
	P, pok := st.decoded(x.c)
	E, eok := ep.decoded(x.c)
	var want *ref.Exch
	if pok && eok {
		want = ref.Exchange(x.c.r, initiator, bits/8, x.victim.d, eph.d, x.vid, P, E, id)
	}
	var tag []byte
	if initiator {
		// What the attacker or the confused network supplies: the value that matches
		// the victim's view if there is one, or damage to it.
		base := make([]byte, 32)
		other := base
		if want != nil && !want.Inf {
			base, other = want.S1, want.S2
		} else if len(x.tags) > 0 {
			base = x.tags[f.N(len(x.tags))]
		}
		tag = x.damageTag(base, other)
	} else if f.N(4) == 0 {
		tag = f.Sub().Bytes(32)
	}
	var res *sm2.ExchangeResult
	var err error
	name := fmt.Sprintf("CalculateKeyWithConfirmation(initiator=%v, static %s, ephemeral %s)", initiator, st.what, ep.what)
	t.Do(name, func() {
		res, err = sm2.CalculateKeyWithConfirmation(initiator, bits, tag, x.victim.priv, eph.priv, x.vid, sp, epub, id)
	})
	switch {
	case want == nil:
		if err == nil {
			w.Fail("invalid-key-accepted", "%s: a public key that is not on the curve gave a result", name)
		}
	case want.Inf:
		if err == nil {
			w.Fail("infinity-accepted", "%s: the shared point is at infinity and a key was derived", name)
		}
	case initiator:
		if good := tag != nil && bytes.Equal(tag, want.S1); good != (err == nil) {
			w.Fail("confirmation-check", "%s: confirmation value %s against own view %x gave %s", name, sim.Hex(tag), want.S1, isErr(err))
		}
		if err == nil && (!bytes.Equal(res.Key, want.Key) || !bytes.Equal(res.S2, want.S2)) {
			w.Fail("wrong-result", "%s: key %s S2 %x, want %s %x", name, sim.Hex(res.Key), res.S2, sim.Hex(want.Key), want.S2)
		}
	default:
		if err != nil {
			w.Fail("honest-refused", "%s: valid keys were refused: %v", name, err)
		}
		if !bytes.Equal(res.Key, want.Key) || !bytes.Equal(res.S1, want.S1) || !bytes.Equal(res.S2, want.S2) {
			w.Fail("wrong-result", "%s: key %s S1 %x S2 %x, want %s %x %x", name, sim.Hex(res.Key), res.S1, res.S2, sim.Hex(want.Key), want.S1, want.S2)
		}
	}
	if err != nil {
		w.Probe("exchange-refused")
	}
}
