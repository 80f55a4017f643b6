package checks

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
	"gmverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C01", Quick: 3000, Thor: 80000, Chunk: 20, Special: 2,
		Run:    runC01,
		Rule:   "each run simulates 2-4 parties, each with one or two worker threads, running up to 8 (toy curves: 30) overlapping key exchanges over a simulated network that delays, drops, duplicates, reorders, replays and cross-wires messages, with parties restarting; every result of every step is compared with the reference exchange for exactly the view that step was given, and all pairs that both confirmed are compared. Non-trivial: a preemption inside a call or an injected fault. Distinct by event-log hash.",
		Real:   []string{"sm2 key exchange (CalculateKeyWithConfirmation, ResponderConfirm)", "sm2 key generation and import", "sm3 underneath"},
		Stub:   []string{stubRand, stubSched, stubClock, "network between the parties"},
		Assume: []string{"nil and empty identities are the same identity", "the reference exchange agrees with GM/T 0003.3 (checked against the standard's vector)", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

type msg01 struct {
	kind int // 1 request, 2 response, 3 confirmation
	sess int
	from int // claimed sender
	to   int
	R    []byte // ephemeral public key, 64 bytes; toy curves use pt instead
	pt   ref.Point
	id   []byte
	S    []byte
}

// sid01 names one role of a session: a party may talk to itself.
type sid01 struct {
	id        int
	initiator bool
}

type sess01 struct {
	id        int
	initiator bool
	peer      int
	eph       *key
	bits      int
	peerID    []byte
	done      bool
	confirmed bool
	res       *sm2.ExchangeResult
	view      string
}

type party01 struct {
	n     int
	st    *key
	id    []byte
	inbox []*msg01
	sess  map[sid01]*sess01
	epoch int
	quit  bool
	busy  int
}

type world01 struct {
	w       *sim.World
	c       *cv
	ps      []*party01
	sent    []*msg01 // everything ever sent, for replays
	nextID  int
	flight  int
	faults  bool
	inf     map[int]bool    // sessions whose shared point was infinity
	created map[int]*sess01 // initiator sessions by id
	resp    map[int][]*sess01
}

func runC01(w *sim.World, t *sim.T) {
	c := realCurve
	maxSess := 8
	if w.Index < SpecialBase && w.Plan.P(4) && toysWork(w, t) {
		c = toyCurves[[]int{5, 6, 5, 0}[w.Plan.N(4)]]
		if c.r.Bits%2 != 0 || c.r.N.BitLen() != c.r.Bits {
			c = toyCurves[5]
		}
		maxSess = 30
		w.Probe("toy-curve")
	}
	x := &world01{w: w, c: c, faults: true, inf: map[int]bool{}, created: map[int]*sess01{}, resp: map[int][]*sess01{}}
	n := 2 + w.Plan.W(5, 3, 1)
	for i := 0; i < n; i++ {
		p := &party01{n: i, st: pickKey(w.Plan, c), sess: map[sid01]*sess01{}}
		switch w.Plan.W(3, 1, 1) {
		case 0:
			p.id = w.Plan.Sub().Bytes(1 + w.Plan.N(20))
		case 1:
			p.id = nil
		case 2:
			p.id = w.Plan.Sub().Bytes(w.Plan.LogSize(8191))
		}
		if i > 0 && w.Plan.P(8) {
			p.id = append([]byte(nil), x.ps[0].id...) // two parties under one name
			w.Probe("same-identity")
		}
		x.ps = append(x.ps, p)
	}
	var ws []*sim.T
	for _, p := range x.ps {
		for k, m := 0, 1+w.Plan.W(3, 1); k < m; k++ {
			p := p
			ws = append(ws, w.Go(fmt.Sprintf("party%d.%d", p.n, k), func(t *sim.T) { x.serve(t, p) }))
		}
	}
	// Start sessions over a while; parties may crash and restart meanwhile.
	for k, m := 0, 1+w.Plan.N(maxSess); k < m; k++ {
		x.start(t, w.Plan.N(n))
		if w.Fault.P(8) {
			p := x.ps[w.Fault.N(n)]
			p.epoch++
			p.sess = map[sid01]*sess01{}
			w.Fired("party-restart")
			w.Logf("party %d restarts and forgets its sessions", p.n)
		}
		t.Sleep(int64(w.Plan.N(40)) * ms)
	}
	x.drain(t)
	// Faults have stopped: every exchange delivered unaltered must confirm.
	x.faults = false
	var clean []*sess01
	for k := 0; k < 2; k++ {
		clean = append(clean, x.start(t, w.Plan.N(n)))
	}
	x.drain(t)
	for _, s := range clean {
		ok := s.confirmed
		if ok {
			ok = false
			for _, r := range x.resp[s.id] {
				ok = ok || r.confirmed
			}
		}
		if !ok && !x.inf[s.id] {
			w.Fail("honest-not-confirmed", "session %d ran over a faultless network and was not confirmed by both sides", s.id)
		}
	}
	for _, p := range x.ps {
		p.quit = true
	}
	t.Join(ws...)
	for _, s := range x.created {
		for _, r := range x.resp[s.id] {
			if s.confirmed && r.confirmed && s.view == r.view {
				w.Probe("agreed")
				if !bytes.Equal(s.res.Key, r.res.Key) {
					w.Fail("keys-differ", "session %d: both confirmed, keys %x and %x", s.id, s.res.Key, r.res.Key)
				}
			}
		}
	}
}

func (x *world01) drain(t *sim.T) {
	simrt.Block("network to drain", func() bool {
		if x.flight > 0 {
			return false
		}
		for _, p := range x.ps {
			if len(p.inbox) > 0 || p.busy > 0 {
				return false
			}
		}
		return true
	})
}

func (x *world01) ephemeral(t *sim.T) *key {
	l := x.w.Plan
	if x.c.toy || l.N(3) > 0 {
		return pickKey(l, x.c)
	}
	var priv *sm2.PrivateKey
	var err error
	t.Do("GenerateKey", func() { priv, _, err = sm2.GenerateKey(x.w.NewRand(l.Sub())) })
	if err != nil {
		x.w.Fail("keygen", "GenerateKey with healthy randomness: %v", err)
	}
	k := newKey(x.c, priv.D)
	k.priv = priv
	return k
}

func (x *world01) bits() int {
	l := x.w.Plan
	b := []int{128, 8, 16, 64, 120, 136, 192, 248, 256, 264, 320, 384, 512, 1024}
	if x.w.Index >= SpecialBase {
		x.w.Probe("key-above-2MiB")
		return 8 * (1<<21 + l.N(100))
	}
	switch l.N(40) {
	case 0:
		x.w.Probe("key-above-8160-bytes")
		return 8 * (8100 + l.N(600))
	case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10:
		return 8 * (1 + l.N(300))
	}
	return b[l.N(len(b))]
}

func (x *world01) start(t *sim.T, from int) *sess01 {
	w := x.w
	to := w.Plan.N(len(x.ps))
	if to == from && w.Plan.N(4) > 0 { // an exchange with oneself stays possible
		to = (from + 1) % len(x.ps)
	}
	p := x.ps[from]
	x.nextID++
	s := &sess01{id: x.nextID, initiator: true, peer: to, eph: x.ephemeral(t), bits: x.bits()}
	p.sess[sid01{s.id, true}] = s
	x.created[s.id] = s
	w.Logf("session %d: party %d starts with party %d, %d bits", s.id, from, to, s.bits)
	x.send(&msg01{kind: 1, sess: s.id, from: from, to: to, R: s.eph.raw(), pt: s.eph.P, id: p.id})
	return s
}

// send puts a message on the simulated network, where most faults happen.
func (x *world01) send(m *msg01) {
	w := x.w
	x.sent = append(x.sent, m)
	if !x.faults {
		x.deliver(m, 1)
		return
	}
	f := w.Fault
	copies := 1
	switch f.W(12, 1, 1, 1, 3, 1) {
	case 5: // a confirmation value that was computed over nearly the same view
		if q := x.nearMiss(m); q != nil {
			m = q
			w.Fired("net-near-miss-confirmation")
		}
	case 1:
		w.Fired("net-drop")
		return
	case 2:
		w.Fired("net-duplicate")
		copies = 2
	case 3: // replay something older as well
		o := *x.sent[f.N(len(x.sent))]
		w.Fired("net-replay")
		x.deliver(&o, int64(f.N(60)))
	case 4: // cross-wire: a field from another message
		o := x.sent[f.N(len(x.sent))]
		if o != m {
			q := *m
			switch f.N(6) {
			case 5: // the confirmation value arrives cut or extended
				if len(q.S) > 0 {
					q.S = append(append([]byte(nil), q.S...), q.S...)[:f.N(2*len(q.S)+1)]
				}
			case 0:
				if o.R != nil {
					q.R, q.pt = o.R, o.pt
				}
			case 1:
				if q.kind != 1 && o.S != nil {
					q.S = o.S
				}
			case 2:
				q.id = o.id
			case 3:
				q.from = o.from
			case 4: // delivered into another session
				q.sess = o.sess
			}
			m = &q
			w.Fired("net-cross-wired")
		}
	}
	for i := 0; i < copies; i++ {
		d := int64(f.N(30))
		if f.N(4) == 0 {
			d = int64(f.N(400))
			w.Fired("net-delay")
		}
		x.deliver(m, d)
	}
}

// nearMiss replaces the confirmation value of m by one that differs from it in
// one respect: the role, an identity, a key, or which of the two values it is.
func (x *world01) nearMiss(m *msg01) *msg01 {
	f := x.w.Fault
	if m.kind == 1 {
		return nil
	}
	s := x.created[m.sess]
	pt, pid := m.pt, m.id
	ini := x.ps[m.to]
	if m.kind == 3 {
		rs := x.resp[m.sess]
		if len(rs) == 0 {
			return nil
		}
		pt, pid, ini = rs[0].eph.P, x.ps[s.peer].id, x.ps[m.from]
	}
	if s == nil || pt.X == nil {
		return nil
	}
	peer, role := x.ps[s.peer], true
	id, st, eph, P := ini.id, ini.st, s.eph, peer.st.P
	second := m.kind == 3
	switch f.N(8) {
	case 0, 1:
		second = !second
	case 2:
		role = false
	case 3:
		id, pid = pid, id
	case 4:
		P, pt = pt, P
	case 5:
		st, eph = eph, st
	case 6:
		pid = x.ps[f.N(len(x.ps))].id
	case 7:
		P = x.ps[f.N(len(x.ps))].st.P
	}
	e := ref.Exchange(x.c.r, role, 16, st.d, eph.d, id, P, pt, pid)
	if e.Inf {
		return nil
	}
	q := *m
	if q.S = e.S1; second {
		q.S = e.S2
	}
	return &q
}

func (x *world01) deliver(m *msg01, d int64) {
	x.flight++
	x.w.K.After(d*ms, func() {
		x.flight--
		p := x.ps[m.to]
		p.inbox = append(p.inbox, m)
	})
}

func (x *world01) serve(t *sim.T, p *party01) {
	for {
		simrt.Block("inbox", func() bool { return p.quit || len(p.inbox) > 0 })
		if len(p.inbox) == 0 {
			return
		}
		m := p.inbox[0]
		p.inbox = p.inbox[1:]
		p.busy++
		x.handle(t, p, m)
		p.busy--
	}
}

func (x *world01) view(initID, respID []byte, i, r *key, ip, rp ref.Point) string {
	return fmt.Sprintf("%x|%x|%x|%x|%x|%x", initID, respID, i.raw(), r.raw(), rawPoint(ip), rawPoint(rp))
}

func (x *world01) point(t *sim.T, m *msg01) *sm2.PublicKey {
	if x.c.toy {
		return gmPub(x.c, m.pt)
	}
	var pub *sm2.PublicKey
	var err error
	t.Do("RawBytesToPublicKey", func() { pub, err = sm2.RawBytesToPublicKey(append([]byte(nil), m.R...)) })
	if err != nil {
		x.w.Fail("import", "a valid public key was refused: %v", err)
	}
	return pub
}

// calc runs one exchange computation and compares it with the reference.
func (x *world01) calc(t *sim.T, p *party01, s *sess01, m *msg01, tag []byte) (*sm2.ExchangeResult, *ref.Exch) {
	w := x.w
	peer := x.ps[s.peer]
	pe := x.point(t, m)
	var res *sm2.ExchangeResult
	var err error
	who := "responder"
	if s.initiator {
		who = "initiator"
	}
	t.Do(fmt.Sprintf("CalculateKeyWithConfirmation(%s, session %d)", who, s.id), func() {
		res, err = sm2.CalculateKeyWithConfirmation(s.initiator, s.bits, tag, p.st.priv, s.eph.priv, p.id, peer.st.pub, pe, m.id)
	})
	want := ref.Exchange(x.c.r, s.initiator, s.bits/8, p.st.d, s.eph.d, p.id, peer.st.P, m.pt, m.id)
	if want.Inf {
		x.inf[s.id] = true
		w.Probe("shared-point-infinity")
		if err == nil {
			w.Fail("infinity-accepted", "%s of session %d derived a key from the point at infinity", who, s.id)
		}
		return nil, want
	}
	if len(want.U.X.Bytes()) < 32 || len(want.U.Y.Bytes()) < 32 {
		w.Probe("shared-point-leading-zero")
	}
	if !s.initiator {
		if err != nil {
			w.Fail("honest-refused", "responder of session %d: %v", s.id, err)
		}
		if !bytes.Equal(res.S1, want.S1) || !bytes.Equal(res.S2, want.S2) {
			w.Fail("confirmation-value", "responder of session %d: S1 %x S2 %x, want %x %x", s.id, res.S1, res.S2, want.S1, want.S2)
		}
	} else {
		if bytes.Equal(tag, want.S1) != (err == nil) {
			w.Fail("confirmation-check", "initiator of session %d: confirmation value %s against own view %x gave %s", s.id, sim.Hex(tag), want.S1, isErr(err))
		}
		if err != nil {
			w.Probe("confirmation-refused")
			return nil, want
		}
		if !bytes.Equal(res.S2, want.S2) {
			w.Fail("confirmation-value", "initiator of session %d: S2 %x, want %x", s.id, res.S2, want.S2)
		}
	}
	if !bytes.Equal(res.Key, want.Key) {
		w.Fail("wrong-key", "%s of session %d: %d-bit key %s, want %s", who, s.id, s.bits, sim.Hex(res.Key), sim.Hex(want.Key))
	}
	return res, want
}

func (x *world01) handle(t *sim.T, p *party01, m *msg01) {
	w := x.w
	epoch := p.epoch
	switch m.kind {
	case 1:
		if m.from < 0 || m.R == nil {
			return
		}
		if o := p.sess[sid01{m.sess, false}]; o != nil {
			w.Probe("repeated-request")
			if w.Fault.N(2) == 0 {
				return
			}
		}
		s := &sess01{id: m.sess, peer: m.from, eph: x.ephemeral(t), bits: x.created[m.sess].bits, // the key length is agreed beforehand
			peerID: m.id}
		peer := x.ps[s.peer]
		if w.Plan.P(5) {
			// Choose this side's ephemeral so that the shared point gets leading zero
			// bytes: U = tB*(PA + xA*RA), so with all of A fixed the initiator's part is
			// known only to it; the simulator, who knows every scalar, solves for rA's
			// counterpart by searching small ephemerals.
			x.aim(s, p, peer, m)
		}
		res, want := x.calc(t, p, s, m, nil)
		if p.epoch != epoch || res == nil {
			return
		}
		s.res = res
		s.view = x.view(m.id, p.id, peer.st, p.st, m.pt, s.eph.P)
		p.sess[sid01{s.id, false}] = s
		x.resp[s.id] = append(x.resp[s.id], s)
		_ = want
		x.send(&msg01{kind: 2, sess: s.id, from: p.n, to: m.from, R: s.eph.raw(), pt: s.eph.P, id: p.id, S: res.S1})
	case 2:
		s := p.sess[sid01{m.sess, true}]
		if s == nil || s.done || m.R == nil {
			return
		}
		res, _ := x.calc(t, p, s, m, m.S)
		if p.epoch != epoch || res == nil || s.done {
			return
		}
		s.done, s.confirmed, s.res = true, true, res
		s.view = x.view(p.id, m.id, p.st, x.ps[s.peer].st, s.eph.P, m.pt)
		x.send(&msg01{kind: 3, sess: s.id, from: p.n, to: s.peer, S: res.S2})
	case 3:
		s := p.sess[sid01{m.sess, false}]
		if s == nil || s.done {
			return
		}
		var ok bool
		t.Do(fmt.Sprintf("ResponderConfirm(session %d)", s.id), func() { ok = sm2.ResponderConfirm(s.res.S2, m.S) })
		if ok != bytes.Equal(s.res.S2, m.S) {
			w.Fail("confirmation-check", "responder of session %d: own S2 %x, received %s, accepted %v", s.id, s.res.S2, sim.Hex(m.S), ok)
		}
		if !ok {
			w.Probe("confirmation-refused")
			return
		}
		s.done, s.confirmed = true, true
	}
}

// aim searches the responder's ephemeral so that a coordinate of the shared
// point has a leading zero byte: U = k*(tA*G) for the right k is linear in
// neither, so it just tries consecutive small scalars with cheap reference
// arithmetic; one in 128 works. Toy curves have leading zeros always.
func (x *world01) aim(s *sess01, p, peer *party01, m *msg01) {
	if x.c.toy {
		return
	}
	c := x.c.r
	A := c.Add(peer.st.P, c.Mul(m.pt, ref.Xbar(c, m.pt.X)))
	if A.Inf {
		return
	}
	start := 1 + x.w.Plan.N(100000)
	for i := 0; i < 40; i++ {
		r := big.NewInt(int64(start + i))
		R := c.BaseMul(r)
		tb := new(big.Int).Mul(ref.Xbar(c, R.X), r)
		tb.Add(tb, p.st.d)
		tb.Mod(tb, c.N)
		U := c.Mul(A, tb)
		if !U.Inf && (len(U.X.Bytes()) < 32 || len(U.Y.Bytes()) < 32) {
			s.eph = newKey(x.c, r)
			return
		}
	}
}
