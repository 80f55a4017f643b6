package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C04", Quick: 24000, Thor: 600000, Chunk: 15,
		Run:    runC04,
		Rule:   "each run has 1-3 threads generating keys, signing and encrypting with shared keys while the randomness source fails at a chosen read (with or without a partial delivery), ends, stalls, delivers in short or empty pieces or starts with up to 20 unusable values (0, n-1, n, n+1, all ones, values that force a redraw on tiny curves); every failed operation is retried on a healthy source. Non-trivial: an injected fault. Distinct by event-log hash.",
		Real:   []string{"sm2 GenerateKey, Sign, SignToRS, Encrypt"},
		Stub:   []string{stubRand, stubSched, stubClock},
		Assume: []string{"a source that fails goes on failing until the operation ends", "unusable values stop after at most 20 draws", "on tiny curves the comparison runs only if ordinary operations on such a curve work at all"},
	})
}

var errRand04 = errors.New("simulated entropy source error")

func runC04(w *sim.World, t *sim.T) {
	L := w.Plan
	c := realCurve
	if L.P(3) && toysWork(w, t) {
		c = toyCurves[L.N(len(toyCurves))]
		w.Probe("toy-curve")
	}
	var keys []*key
	for i, n := 0, 1+L.N(2); i < n; i++ {
		keys = append(keys, pickKey(L, c))
	}
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			m := 1 + L.N(5)
			if c.toy {
				m *= 4
			}
			for j := 0; j < m; j++ {
				opC04(w, t, c, keys[L.N(len(keys))])
			}
		})
	}
	if len(fs) == 1 {
		fs[0](t)
		return
	}
	t.Par("op", fs...)
}

// unusable builds a prefix of values outside or at the edge of the usable range.
func unusable(w *sim.World, c *cv) []byte {
	f := w.Fault
	var p []byte
	n := 1 + f.LogSize(19)
	size := (c.r.N.BitLen() + 7) / 8
	same, flip := -1, false
	if f.N(3) == 0 { // a stuck source
		same, n, flip = f.N(5), 1+f.N(20), f.N(2) == 0
	}
	for i := 0; i < n; i++ {
		v := make([]byte, size)
		kind := same
		if kind < 0 {
			kind = f.N(8)
		}
		switch kind {
		case 0:
		case 1:
			for j := range v {
				v[j] = 0xff
			}
		case 2:
			c.r.N.FillBytes(v)
		case 3:
			new(big.Int).Sub(c.r.N, one).FillBytes(v)
		case 4:
			if n1 := new(big.Int).Add(c.r.N, one); n1.BitLen() <= 8*size {
				n1.FillBytes(v)
			}
		case 5:
			f.Sub().Fill(v)
			v[0] |= 0xf0
			if size > 4 {
				copy(v[1:], []byte{0xff, 0xff, 0xff, 0xff})
			}
		case 6:
			new(big.Int).Sub(c.r.N, big.NewInt(int64(f.N(4)))).FillBytes(v)
		case 7:
			big.NewInt(int64(f.N(3))).FillBytes(v)
		}
		// Key generation of crypto/elliptic flips these bits of what it draws; cover
		// the values both as delivered and as they arrive there.
		if (same < 0 && f.N(2) == 0 || flip) && size > 1 {
			v[1] ^= 0x42
		}
		p = append(p, v...)
	}
	w.Fired("rand-unusable-values")
	return p
}

// faultyRand prepares the randomness of one operation.
func faultyRand(w *sim.World, c *cv) *sim.RandStream {
	f := w.Fault
	s := w.NewRand(f.Sub())
	kind := f.W(5, 3, 2, 1, 1, 3)
	if kind == 1 || f.N(3) == 0 {
		s.Prefix = unusable(w, c)
	}
	if kind == 2 || f.N(5) == 0 {
		s.Short = 1 + f.N(33)
	}
	if kind == 3 {
		s.Empty = 1 + f.N(20)
	}
	if kind == 4 || f.N(6) == 0 {
		s.Stall = int64(1+f.N(5000)) * ms
		s.StallAt = 1 + f.N(2)
	}
	if kind == 0 {
		s.FailAt = 1 + f.N(3)
		if f.N(3) == 0 {
			s.FailAt = 1 + f.N(40)
		}
		s.FailErr = []error{errRand04, io.EOF, io.ErrUnexpectedEOF}[f.N(3)]
		s.FailN = []int{0, 0, 1, 15, 31}[f.N(5)]
	}
	return s
}

// mayIgnore reports that the failing read completed what was asked for, so that
// the usual io.ReadFull semantics hide its error.
func mayIgnore(s *sim.RandStream, c *cv) bool {
	return s.FailN > 0 && (c.toy || s.Got >= 32)
}

func opC04(w *sim.World, t *sim.T, c *cv, k *key) {
	L := w.Plan
	op := L.N(4)
	if c.toy && op == 0 {
		op = 1 + L.N(3)
	}
	msg := L.Sub().Bytes(L.LogSize(200))
	id := pickID(L)
	if len(id) > 100 {
		id = id[:100]
	}
	typ := sm2.C1C2C3
	if L.N(2) == 0 {
		typ = sm2.C1C3C2
	}
	if op == 3 && len(msg) == 0 {
		msg = []byte{7}
	}
	if op == 3 && L.N(3) == 0 { // short messages make the standard's retry likely
		msg = msg[:1]
	}
	name := []string{"GenerateKey", "Sign", "SignToRS", "Encrypt"}[op]
	once := func(s *sim.RandStream, faulty bool) {
		var priv *sm2.PrivateKey
		var pub *sm2.PublicKey
		var sig, ct []byte
		var r, q *big.Int
		var err error
		old := t.Rand
		if op != 0 {
			t.Rand = s
		}
		p := t.Try(fmt.Sprintf("%s(faulty=%v)", name, faulty), func() {
			switch op {
			case 0:
				priv, pub, err = sm2.GenerateKey(s)
			case 1:
				sig, err = sm2.Sign(k.priv, id, msg)
			case 2:
				r, q, err = sm2.SignToRS(k.priv, id, msg)
			case 3:
				ct, err = sm2.Encrypt(k.pub, msg, typ)
			}
		})
		t.Rand = old
		desc := fmt.Sprintf("%s after %d reads, %d bytes, source failed=%v", name, s.Reads, s.Got, s.Failed)
		if p != nil {
			w.Fail(p.Class(), "%s: %s", desc, p)
		}
		if s.Failed {
			if err != nil {
				if priv != nil || pub != nil || sig != nil || ct != nil || r != nil || q != nil {
					w.Fail("output-with-error", "%s: returned %v and also a result", desc, err)
				}
				w.Probe("failed-with-error")
				return
			}
			if !mayIgnore(s, c) {
				w.Fail("failure-ignored", "%s: returned a result", desc)
			}
			w.Probe("failure-after-complete-read")
		}
		if err != nil {
			w.Fail("refused", "%s: %v", desc, err)
		}
		switch op {
		case 0:
			d := priv.D
			if d.Sign() <= 0 || d.Cmp(new(big.Int).Sub(c.r.N, one)) >= 0 {
				w.Fail("bad-key", "%s: private key %x", desc, d)
			}
			P := c.r.BaseMul(d)
			if P.X.Cmp(pub.X) != 0 || P.Y.Cmp(pub.Y) != 0 {
				w.Fail("bad-key", "%s: public key (%x, %x) does not belong to private key %x", desc, pub.X, pub.Y, d)
			}
		case 1, 2:
			if op == 1 {
				var e2 error
				if r, q, e2 = ref.ParseSig(sig); e2 != nil {
					w.Fail("bad-signature", "%s: %x is not a DER signature", desc, sig)
				}
			}
			if !ref.Verify(c.r, k.P, k.d, sigID(id), msg, r, q) {
				w.Fail("bad-signature", "%s: (%x, %x) does not verify", desc, r, q)
			}
			if c.toy {
				rk := ref.RecoverK(c.r, k.d, r, q)
				if rk.Add(rk, r); rk.Cmp(c.r.N) == 0 {
					w.Fail("bad-signature", "%s: r+k = n", desc)
				}
			}
		case 3:
			m, zero, e2 := ref.Decrypt(c.r, k.d, ct, typ == sm2.C1C2C3)
			if e2 != nil || !bytes.Equal(m, msg) {
				w.Fail("bad-ciphertext", "%s: message %s decrypts to %s (%v)", desc, sim.Hex(msg), sim.Hex(m), e2)
			}
			if zero {
				w.Fail("bad-ciphertext", "%s: key stream is all zero, the message is in the clear", desc)
			}
		}
	}
	s := faultyRand(w, c)
	once(s, true)
	if s.Failed || L.N(3) == 0 {
		// Nothing lingers: the same operation works once the source does.
		once(w.NewRand(L.Sub()), false)
		w.Probe("healthy-again")
	}
}
