package checks

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 8000, Thor: 160000, Chunk: 20,
		Run:    runC11,
		Rule:   "each run has 1-3 requesters that create requests from random templates, some of which they share (subject, alternative names, extensions, attributes, raw subjects, explicit extensions that replace generated ones), while randomness fails, comes in pieces or stalls and creation is retried; some requests are signed with a key that does not match. The requests travel to an authority over a channel that loses, damages (bits, bytes, whole DER elements), splices and replays them. Every parsed request is compared with a model of the template, its signature with the reference SM2 over the signed bytes, and a copy rewritten to a standard curve with crypto/x509; a request that verifies after damage must have unaltered signed bytes. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2/cert request creation, parsing, verification", "sm2, sm3 underneath", "encoding/asn1"},
		Stub:   []string{stubRand, stubSched, stubClock, "channel from requester to authority"},
		Assume: []string{"template URLs, addresses and OIDs are well formed, attributes have a value, extension requests in attributes have one value", "identities are shorter than 8192 bytes"},
	})
}

type csrRec struct {
	job    *csrJob
	k      *key // in the request
	id     []byte
	der    []byte
	tbs    []byte
	forged bool // signed with another key
}

type c11 struct {
	w    *sim.World
	keys []*key
	tpls []*csrJob
	box  []*csrRec
}

func runC11(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c11{w: w}
	for i, n := 0, 1+L.N(3); i < n; i++ {
		x.keys = append(x.keys, pickKey(L, realCurve))
	}
	for i, n := 0, 1+L.N(2); i < n; i++ {
		x.tpls = append(x.tpls, (&certGen{l: L}).csr())
	}
	before := make([]string, len(x.tpls))
	for i, j := range x.tpls {
		before[i] = dump(j.tpl)
	}
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(3, 3, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, n := 0, 1+L.N(2); j < n; j++ {
				x.request(t)
			}
		})
	}
	if len(fs) == 1 {
		fs[0](t)
	} else {
		t.Par("requester", fs...)
	}
	for i, j := range x.tpls {
		if after := dump(j.tpl); after != before[i] {
			w.Fail("template-changed", "creating requests changed the shared template: %s", dumpDiff(before[i], after))
		}
	}
	if len(x.box) == 0 {
		return
	}
	fs = nil
	for i, n := 0, 1+L.N(2); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, n := 0, 4+L.N(12); j < n; j++ {
				x.authority(t)
			}
		})
	}
	t.Par("authority", fs...)
}

// flakyRand gives the thread's next operation a randomness source that may fail.
func flakyRand(w *sim.World, t *sim.T, fail bool) *sim.RandStream {
	l := w.Fault
	s := w.NewRand(l.Sub())
	if fail {
		s.FailAt = 1 + l.N(2)
		s.FailN = l.N(33)
		s.FailErr = []error{io.EOF, io.ErrUnexpectedEOF, errors.New("device failure")}[l.N(3)]
	}
	switch l.N(5) {
	case 0:
		s.Short = 1 + l.N(20)
	case 1:
		s.Empty = l.N(4)
	case 2:
		s.Stall = int64(1+l.N(2000)) * ms
	}
	t.Rand = s
	return s
}

func (x *c11) request(t *sim.T) {
	w, L := x.w, x.w.Plan
	rec := &csrRec{job: x.tpls[L.N(len(x.tpls))], k: x.keys[L.N(len(x.keys))], id: pickID(L)}
	signer := rec.k
	if L.N(8) == 0 {
		signer = x.keys[L.N(len(x.keys))]
		rec.forged = signer.P.X.Cmp(rec.k.P.X) != 0 || signer.P.Y.Cmp(rec.k.P.Y) != 0
	}
	gid, id := guarded(L.Sub(), rec.id, L.N(3)*16)
	if rec.id == nil {
		id = nil
	}
	bp, bs := dump(rec.k.pub), dump(signer.priv)
	desc := fmt.Sprintf("request for %+v", rec.job.tpl)
	if len(desc) > 500 {
		desc = desc[:500]
	}
	for try := 0; ; try++ {
		rs := flakyRand(w, t, try < 3 && w.Fault.N(3) == 0)
		var der []byte
		var err error
		t.Do("CreateCertificateRequest", func() { der, err = cert.CreateCertificateRequest(rec.job.tpl, rec.k.pub, signer.priv, id) })
		if rec.job.bad {
			if err == nil {
				w.Fail("bad-template-accepted", "%s: created", desc)
			}
			w.Probe("bad-template-refused")
			return
		}
		if rs.Failed && err != nil { // a failure after the last byte needed may go unnoticed
			w.Probe("creation-retried")
			continue
		}
		if err != nil {
			w.Fail("refused", "%s: attempt %d: %v", desc, try, err)
			return
		}
		rec.der = der
		break
	}
	if c := gid.changed(); c != "" {
		w.Fail("argument-changed", "identity: %s", c)
	}
	if dump(rec.k.pub) != bp || dump(signer.priv) != bs {
		w.Fail("argument-changed", "a key was changed")
	}
	c := x.parse(t, rec, rec.der)
	if c == nil {
		return
	}
	rec.tbs = append([]byte(nil), c.RawTBSCertificateRequest...)
	x.box = append(x.box, rec)
	if !bytes.Equal(c.Raw, rec.der) {
		w.Fail("wrong-raw", "the parsed request's bytes are not the request")
	}
	// The request signs what it contains, for any SM2 implementation.
	tree, ok := parseDER(rec.der)
	if !ok || len(tree) != 1 || len(tree[0].kids) != 3 {
		w.Fail("not-DER", "%s: %s", desc, sim.Hex(rec.der))
		return
	}
	if !bytes.Equal(tree[0].kids[0].enc(), rec.tbs) {
		w.Fail("wrong-signed-bytes", "%s: the signed bytes are not the request's content", desc)
	}
	if !bytes.Equal(encDER(tree[0].kids[1:2]), ref.Enc(0x30, ref.Enc(6, base128of(oidSM3SM2)))) {
		w.Fail("wrong-algorithm", "%s: signature algorithm %x", desc, tree[0].kids[1].enc())
	}
	r, s, err := ref.ParseSig(c.Signature)
	if err != nil || !ref.Verify(realCurve.r, signer.P, signer.d, sigID(rec.id), rec.tbs, r, s) {
		w.Fail("bad-signature", "%s: the signature does not verify with the requester's key and identity", desc)
	}
	// crypto/x509 reads the same from a copy on a standard curve.
	if rec.job.strict {
		p, err := x509.ParseCertificateRequest(asP256(rec.k, rec.der))
		if err != nil {
			w.Fail("foreign-reader-refuses", "%s: crypto/x509: %v", desc, err)
		} else {
			w.Probe("x509-compared")
			q := *p
			q.PublicKey = c.PublicKey
			if d := rec.job.diff(rec.k, &q); d != "" {
				w.Fail("foreign-reader-disagrees", "%s: crypto/x509 reads %s", desc, d)
			}
		}
	}
}

func base128of(oid []int) []byte {
	b, _ := encOID(oid)
	_, c, _, _, _ := ref.TLV(b)
	return c
}

// parse reads an undamaged request and compares it with its template.
func (x *c11) parse(t *sim.T, rec *csrRec, der []byte) *x509.CertificateRequest {
	w := x.w
	g, in := guarded(w.Plan.Sub(), der, w.Plan.N(2)*32)
	var c *x509.CertificateRequest
	var err error
	t.Do("ParseCertificateRequest", func() { c, err = cert.ParseCertificateRequest(in) })
	if err != nil || c == nil {
		w.Fail("unreadable", "parsing a created request: %v; template %+v", err, rec.job.tpl)
		return nil
	}
	if d := rec.job.diff(rec.k, c); d != "" {
		w.Fail("content-differs", "a parsed request has %s", d)
	}
	if s := g.changed(); s != "" {
		w.Fail("argument-changed", "parsing: %s", s)
	}
	var ok bool
	t.Do("VerifyCSRSign", func() { ok = cert.VerifyCSRSign(c, rec.id) })
	if ok == rec.forged {
		w.Fail("wrong-verdict", "VerifyCSRSign of a request created with signer matching=%v says %v", !rec.forged, ok)
	}
	if s := g.changed(); s != "" {
		w.Fail("argument-changed", "verifying: %s", s)
	}
	return c
}

// authority receives one request over the bad channel.
func (x *c11) authority(t *sim.T) {
	w, L, F := x.w, x.w.Plan, x.w.Fault
	rec := x.box[L.N(len(x.box))]
	other := x.box[L.N(len(x.box))]
	id := rec.id
	der := append([]byte(nil), rec.der...)
	t.Sleep(int64(F.N(500)) * ms)
	what := "nothing"
	switch F.N(9) {
	case 0:
		if F.N(2) == 0 {
			x.parse(t, rec, der)
			w.Fired("replay")
		}
	case 1:
		what = "bytes"
		der = damageMessage(w, F, der)
	case 2:
		what = "cut"
		der = der[:F.N(len(der))]
		w.Fired("cut-short")
	case 3, 4, 5:
		what = "elements"
		der = damageDER(w, F, der)
	case 6: // content of one, signature of another
		what = "spliced"
		a, _ := parseDER(rec.der)
		b, _ := parseDER(other.der)
		if len(a) == 1 && len(b) == 1 && len(a[0].kids) == 3 && len(b[0].kids) == 3 {
			a[0].kids[2] = b[0].kids[2]
			if F.N(3) == 0 { // the other's key in this one's content
				p, q := a[0].kids[0].kids, b[0].kids[0].kids
				if len(p) > 2 && len(q) > 2 {
					p[2] = q[2]
				}
			}
			der = encDER(a)
			w.Fired("spliced")
		}
	case 7: // signature algebra: another valid form of the same numbers, or changed numbers
		what = "signature"
		a, _ := parseDER(rec.der)
		if len(a) == 1 && len(a[0].kids) == 3 {
			r, s, err := ref.ParseSig(a[0].kids[2].val[1:])
			if err == nil {
				n := realCurve.r.N
				switch F.N(7) {
				case 0:
					s = new(big.Int).Sub(n, s)
				case 1:
					s = new(big.Int).Add(s, n)
				case 2:
					r = new(big.Int).Add(r, n)
				case 3:
					r, s = s, r
				case 4:
					r, s = new(big.Int), new(big.Int)
				case 5:
					s = new(big.Int).Neg(s)
				case 6:
					r = new(big.Int).Sub(n, r)
				}
				a[0].kids[2] = &dnode{tag: 3, val: append([]byte{0}, ref.EncSig(r, s)...)}
				der = encDER(a)
				w.Fired("signature-altered")
			}
		}
	case 8:
		what = "identity"
		id = pickID(L)
		w.Fired("identity-changed")
	}
	var ok bool
	var err error
	t.Do("VerifyDERCSRSign", func() { ok, err = cert.VerifyDERCSRSign(der, id) })
	desc := fmt.Sprintf("request %s after damage to %s", sim.Hex(der), what)
	if ok && err != nil {
		w.Fail("verified-with-error", "%s: %v", desc, err)
	}
	var c *x509.CertificateRequest
	t.Do("ParseCertificateRequest", func() { c, err = cert.ParseCertificateRequest(der) })
	if err != nil {
		if ok {
			w.Fail("accepted-damaged", "%s verifies but does not parse: %v", desc, err)
		}
		if bytes.Equal(der, rec.der) {
			w.Fail("refused", "%s: %v", desc, err)
		}
		w.Probe("damaged-refused")
		return
	}
	var ok2 bool
	t.Do("VerifyCSRSign", func() { ok2 = cert.VerifyCSRSign(c, id) })
	if ok2 != ok {
		w.Fail("inconsistent", "%s: VerifyDERCSRSign %v, VerifyCSRSign %v", desc, ok, ok2)
	}
	// What the standard says about exactly what was received.
	pub, isPub := c.PublicKey.(*sm2.PublicKey)
	if !isPub {
		w.Fail("wrong-key-type", "%s: %T", desc, c.PublicKey)
		return
	}
	want := false
	if r, s, e := ref.ParseSig(c.Signature); e == nil && realCurve.r.On(pub.X, pub.Y) {
		want = ref.Verify(realCurve.r, ref.Point{X: pub.X, Y: pub.Y}, nil, sigID(id), c.RawTBSCertificateRequest, r, s)
	}
	if ok != want {
		w.Fail("wrong-verdict", "%s: verified %v, the standard says %v", desc, ok, want)
	}
	if !ok {
		if bytes.Equal(der, rec.der) && bytes.Equal(sigID(id), sigID(rec.id)) && !rec.forged {
			w.Fail("refused", "%s: does not verify", desc)
		}
		w.Probe("damaged-does-not-verify")
		return
	}
	w.Probe("verified")
	// Accepted: then everything signed is unaltered, and reads as it was meant.
	var src *csrRec
	for _, r := range x.box {
		if bytes.Equal(r.tbs, c.RawTBSCertificateRequest) && bytes.Equal(sigID(r.id), sigID(id)) {
			src = r
		}
	}
	if src == nil {
		w.Fail("accepted-damaged", "%s verifies, but nobody signed its content with that identity", desc)
		return
	}
	if d := src.job.diff(src.k, c); d != "" {
		w.Fail("accepted-damaged", "%s verifies but has %s", desc, d)
	}
	if !bytes.Contains(der, src.tbs) {
		w.Fail("accepted-damaged", "%s verifies but does not contain the signed bytes", desc)
	}
	if !bytes.Equal(der, src.der) {
		w.Probe("verified-with-unsigned-part-altered")
	}
}
