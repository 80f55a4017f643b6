package checks

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 8000, Thor: 160000, Chunk: 20,
		Run:    runC20,
		Rule:   "each run has simulated foreign authorities and requesters, written without gm, that encode certificates (versions 1 to 3, every standard extension in all its options, unknown and critical extensions, names in every string type, unique identifiers, both time forms) and requests (extension requests, passwords, structured attributes), sign them with the reference SM2, and some of which are deliberately invalid (wrong algorithm or curve, key off the curve, malformed extension). 1-3 reader threads, sharing the received bytes, get them over a channel that delays, cuts, damages (bits, bytes, whole DER elements), splices and replays. Each reading is compared with what the peer wrote; what verifies after damage must have unaltered signed bytes; what was parsed earlier must not change later. Some readers are authorities that issue a certificate for a foreign request under a foreign certificate. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2/cert certificate and request parsing, filling, creation, assembly, request verification", "cryptobyte (name constraints)", "sm2, sm3 underneath", "encoding/asn1"},
		Stub:   []string{stubRand, stubSched, stubClock, "foreign authorities and requesters", "channel"},
		Assume: []string{"identities are shorter than 8192 bytes"},
	})
}

type fgKept struct {
	obj  interface{}
	text string
}

type c20 struct {
	w    *sim.World
	now  time.Time
	ca   *fgItem
	id   []byte
	box  []*fgItem
	kept []fgKept
}

func runC20(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c20{w: w, id: pickID(L)}
	x.now = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(L.N(1<<31-1)) * time.Second / 4)
	ca := pickKey(L, realCurve)
	// The foreign authority's own certificate, issued by itself.
	x.ca = fgCert(L, x.now, fgName{der: []byte{0x30, 0}}, ca, x.id, ca, true)
	x.box = append(x.box, x.ca)
	for i, n := 0, 1+L.N(4); i < n; i++ {
		holder := pickKey(L, realCurve)
		if L.N(3) == 0 {
			x.box = append(x.box, fgRequest(L, holder, pickID(L), x.ca.subject))
		} else {
			x.box = append(x.box, fgCert(L, x.now, x.ca.subject, ca, x.id, holder, false))
		}
	}
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(2, 3, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 3+L.N(8); j < m; j++ {
				if L.N(6) == 0 {
					x.issue(t)
				} else {
					x.read(t)
				}
			}
		})
	}
	t.Par("reader", fs...)
	for _, it := range x.box {
		if !bytes.Contains(it.der, it.tbs) {
			w.Fail("argument-changed", "reading changed the received bytes")
		}
	}
	for _, k := range x.kept {
		if s := dump(k.obj); s != k.text {
			w.Fail("result-changed", "a parsed object changed later: %s", dumpDiff(k.text, s))
		}
	}
}

func (x *c20) keep(o interface{}) {
	if x.w.Plan.N(3) == 0 {
		x.kept = append(x.kept, fgKept{o, dump(o)})
	}
}

// parse reads bytes as the kind they claim to be.
func (x *c20) parse(t *sim.T, req bool, der []byte) (c *x509.Certificate, r *x509.CertificateRequest, err error) {
	before := append([]byte(nil), der...)
	if req {
		t.Do("ParseCertificateRequest", func() { r, err = cert.ParseCertificateRequest(der) })
	} else {
		t.Do("ParseCertificate", func() { c, err = cert.ParseCertificate(der) })
	}
	if !bytes.Equal(before, der) {
		x.w.Fail("argument-changed", "parsing changed %s", sim.Hex(before))
	}
	if err != nil && (c != nil || r != nil) {
		x.w.Fail("result-with-error", "parsing %s gives a result and %v", sim.Hex(der), err)
	}
	if err == nil && c == nil && r == nil {
		x.w.Fail("no-result", "parsing %s gives nothing", sim.Hex(der))
		err = fmt.Errorf("nothing")
	}
	return
}

// check compares a reading of exactly it.der with what was written.
func (x *c20) check(it *fgItem, c *x509.Certificate, r *x509.CertificateRequest, err error) bool {
	w := x.w
	switch {
	case it.bad != "":
		if err == nil {
			w.Fail("invalid-accepted", "%s: %s", it.bad, sim.Hex(it.der))
		}
		w.Probe("invalid-refused")
		return false
	case err != nil:
		if it.may == "" {
			w.Fail("refused", "%s: %v", sim.Hex(it.der), err)
		}
		w.Probe("optional-form-refused")
		return false
	}
	if c != nil {
		if d := it.diffCert(c); d != "" {
			w.Fail("misread", "certificate %s: %s", sim.Hex(it.der), d)
		}
		if !bytes.Equal(c.Raw, it.der) || !bytes.Equal(c.RawTBSCertificate, it.tbs) {
			w.Fail("misread", "certificate %s: raw parts differ", sim.Hex(it.der))
		}
	} else {
		if d := it.diffReq(r); d != "" {
			w.Fail("misread", "request %s: %s", sim.Hex(it.der), d)
		}
		if !bytes.Equal(r.Raw, it.der) || !bytes.Equal(r.RawTBSCertificateRequest, it.tbs) {
			w.Fail("misread", "request %s: raw parts differ", sim.Hex(it.der))
		}
	}
	return true
}

// read takes one item off the channel.
func (x *c20) read(t *sim.T) {
	w, L, F := x.w, x.w.Plan, x.w.Fault
	it := x.box[L.N(len(x.box))]
	other := x.box[L.N(len(x.box))]
	id, signer := it.id, it.signer
	der, what := it.der, "nothing" // undamaged bytes are shared by the readers
	if F.N(4) == 0 {
		t.Sleep(int64(F.N(500)) * ms)
		w.Fired("delay")
	}
	switch F.W(6, 1, 1, 3, 1, 1, 1) {
	case 1:
		what, der = "bytes", damageMessage(w, F, der)
	case 2:
		what = "length"
		if F.N(3) == 0 {
			der = append(append([]byte(nil), der...), F.Sub().Bytes(1+F.N(5))...)
			w.Fired("extended")
		} else {
			der = append([]byte(nil), der[:F.N(len(der))]...)
			w.Fired("cut-short")
		}
	case 3:
		what, der = "elements", damageDER(w, F, der)
	case 4:
		what = "spliced"
		a, _ := parseDER(it.der)
		b, _ := parseDER(other.der)
		if len(a) == 1 && len(b) == 1 && len(a[0].kids) == 3 && len(b[0].kids) == 3 {
			if F.N(2) == 0 {
				a[0].kids[2] = b[0].kids[2]
			} else {
				p, q := a[0].kids[0].kids, b[0].kids[0].kids
				i, j := F.N(len(p)), F.N(len(q))
				p[i] = q[j]
			}
			der = encDER(a)
			w.Fired("spliced")
		}
	case 5:
		what, id = "identity", pickID(L)
		w.Fired("identity-changed")
	case 6:
		if !it.req {
			what, signer = "authority", other.holder
			w.Fired("wrong-authority")
		}
	}
	same := bytes.Equal(der, it.der)
	c, r, err := x.parse(t, it.req, der)
	if same {
		if !x.check(it, c, r, err) {
			return
		}
		w.Probe("read-as-written")
	} else if err != nil {
		w.Probe("damaged-refused")
		return
	}
	desc := fmt.Sprintf("%s after damage to %s", sim.Hex(der), what)
	var tbs, sig []byte
	var pub *sm2.PublicKey
	var ok, want bool
	if c != nil {
		tbs, sig, pub = c.RawTBSCertificate, c.Signature, signer.pub
		if a, b, e := ref.ParseSig(sig); e == nil {
			want = ref.Verify(realCurve.r, signer.P, signer.d, sigID(id), tbs, a, b)
		}
		t.Do("Verify", func() { ok = sm2.Verify(pub, id, tbs, sig) })
	} else {
		tbs, sig = r.RawTBSCertificateRequest, r.Signature
		pub, _ = r.PublicKey.(*sm2.PublicKey)
		if pub == nil || !realCurve.r.On(pub.X, pub.Y) {
			w.Fail("misread", "%s: key %T", desc, r.PublicKey)
			return
		}
		if a, b, e := ref.ParseSig(sig); e == nil {
			want = ref.Verify(realCurve.r, ref.Point{X: pub.X, Y: pub.Y}, nil, sigID(id), tbs, a, b)
		}
		t.Do("VerifyCSRSign", func() { ok = cert.VerifyCSRSign(r, id) })
		var ok2 bool
		t.Do("VerifyDERCSRSign", func() { ok2, err = cert.VerifyDERCSRSign(der, id) })
		if ok2 != ok || err != nil {
			w.Fail("inconsistent", "%s: VerifyDERCSRSign %v, %v; VerifyCSRSign %v", desc, ok2, err, ok)
		}
	}
	if ok != want {
		w.Fail("wrong-verdict", "%s: verified %v, the standard says %v", desc, ok, want)
	}
	if !ok {
		w.Probe("does-not-verify")
	} else if !same {
		// Only what is not signed can differ.
		var src *fgItem
		for _, i := range x.box {
			if bytes.Equal(i.tbs, tbs) && i.req == it.req {
				src = i
			}
		}
		if src == nil || !bytes.Contains(der, tbs) {
			w.Fail("accepted-damaged", "%s verifies with content nobody signed", desc)
			return
		}
		d := ""
		if c != nil {
			d = src.diffCert(c)
		} else {
			d = src.diffReq(r)
		}
		if d != "" {
			w.Fail("accepted-damaged", "%s verifies but has %s", desc, d)
		}
		w.Probe("verified-with-unsigned-part-altered")
	}
	if c != nil {
		x.keep(c)
	} else {
		x.keep(r)
	}
}

// issue makes a certificate for a foreign request under the foreign authority.
func (x *c20) issue(t *sim.T) {
	w, L := x.w, x.w.Plan
	var it *fgItem
	for _, i := range x.box {
		if i.req && (it == nil || L.N(2) == 0) {
			it = i
		}
	}
	if it == nil {
		return
	}
	_, r, err := x.parse(t, true, it.der)
	if !x.check(it, nil, r, err) {
		return
	}
	parent, _, err := x.parse(t, false, x.ca.der)
	if !x.check(x.ca, parent, nil, err) {
		return
	}
	bp, br := dump(parent), dump(r)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(1 + L.N(1<<30))), NotBefore: x.now, NotAfter: x.now.AddDate(1, 0, 0)}
	if L.N(3) == 2 { // a template that started as a copy of a certificate
		old := *parent
		t.Do("FillCertificateTemplateByCSR", func() { cert.FillCertificateTemplateByCSR(&old, r) })
	}
	if L.N(2) == 0 {
		tpl.RawSubject = r.RawSubject
	}
	if L.N(2) == 0 {
		tpl.KeyUsage = x509.KeyUsage(1 + L.N(511))
	}
	var info *cert.TBSCertificate
	var der []byte
	t.Do("FillCertificateTemplateByCSR", func() { cert.FillCertificateTemplateByCSR(tpl, r) })
	if d := diffSANs(it.names, tpl.DNSNames, tpl.EmailAddresses, tpl.IPAddresses, tpl.URIs); d != "" {
		w.Fail("fill-differs", "template filled from request %s has %s", sim.Hex(it.der), d)
	}
	if d := it.subject.diff("subject", tpl.Subject, it.subject.der); d != "" {
		w.Fail("fill-differs", "template filled from request %s has %s", sim.Hex(it.der), d)
	}
	if d := diffKey(it.holder, tpl.PublicKey); d != "" {
		w.Fail("fill-differs", "template filled from request %s has %s", sim.Hex(it.der), d)
	}
	if !reflect.DeepEqual(tpl.Extensions, r.Extensions) {
		w.Fail("fill-differs", "template filled from request %s has extensions %v", sim.Hex(it.der), tpl.Extensions)
	}
	exp := expect(tpl, parent)
	t.Do("CreateCertificateInfo", func() { info, err = cert.CreateCertificateInfo(tpl, parent, r) })
	if exp.bad { // a name that cannot be written again
		return
	}
	if err != nil || info == nil {
		w.Fail("refused", "issuing for request %s: %v", sim.Hex(it.der), err)
		return
	}
	t.Rand = w.NewRand(L.Sub())
	t.Do("IssueCertificateBySoftCAKey", func() { der, err = cert.IssueCertificateBySoftCAKey(info, x.ca.holder.priv, x.id) })
	if err != nil {
		w.Fail("refused", "issuing for request %s: %v", sim.Hex(it.der), err)
		return
	}
	c, _, err := x.parse(t, false, der)
	if err != nil {
		w.Fail("unreadable", "certificate for request %s: %v", sim.Hex(it.der), err)
		return
	}
	if d := diffKey(it.holder, c.PublicKey); d != "" {
		w.Fail("misissued", "certificate for request %s: %s", sim.Hex(it.der), d)
	}
	if !bytes.Equal(c.RawSubjectPublicKeyInfo, r.RawSubjectPublicKeyInfo) {
		w.Fail("misissued", "certificate for request %s: key info %x", sim.Hex(it.der), c.RawSubjectPublicKeyInfo)
	}
	if !bytes.Equal(c.RawIssuer, x.ca.subject.der) {
		w.Fail("misissued", "certificate names issuer %x, the authority is %x", c.RawIssuer, x.ca.subject.der)
	}
	if d := exp.diff(c); d != "" {
		w.Fail("misissued", "certificate for request %s has %s", sim.Hex(it.der), d)
	}
	a, b, e := ref.ParseSig(c.Signature)
	if e != nil || !ref.Verify(realCurve.r, x.ca.holder.P, x.ca.holder.d, sigID(x.id), info.Raw, a, b) || !bytes.Equal(info.Raw, c.RawTBSCertificate) {
		w.Fail("misissued", "certificate for request %s is not signed by the authority", sim.Hex(it.der))
	}
	if dump(parent) != bp || dump(r) != br {
		w.Fail("argument-changed", "issuing changed the request or the authority's certificate")
	}
	if !reflect.DeepEqual(tpl.RawSubject, []byte(nil)) {
		w.Probe("issued-with-foreign-subject")
	}
	w.Probe("issued-for-foreign-request")
}
