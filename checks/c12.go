package checks

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"gmverif/ref"
	"gmverif/sim"
	"gmverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 8000, Thor: 160000, Chunk: 20,
		Run:    runC12,
		Rule:   "each run is an authority with 1-3 issuance threads, random templates (some shared, some refilled from request after request while earlier jobs are still being signed, some overwritten as soon as the content is created), validity around simulated clocks that jump, and two ways of signing: by the library with failing, slow or piecemeal randomness and retries, or by a simulated signing device with its own queue that delays, fails, answers late, out of order, twice, or with another job's signature. Issued certificates are compared with a model of template and issuer, with the bytes that were signed, with the reference SM2, and, rewritten to a standard curve, with crypto/x509; they are then stored, damaged (bits, bytes, whole DER elements, splices) and read back. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2/cert certificate creation, assembly, parsing", "cryptobyte (name constraints)", "sm2, sm3 underneath", "encoding/asn1"},
		Stub:   []string{stubRand, stubSched, stubClock, "external signing device", "certificate store"},
		Assume: []string{"template URLs, addresses, networks and OIDs are well formed", "identities are shorter than 8192 bytes"},
	})
}

type issued struct {
	job    *certJob
	holder *key
	der    []byte
	tbs    []byte
	id     []byte
	good   bool // carries the authority's signature
	parsed *x509.Certificate
}

type signReq struct {
	tbs   []byte // what the authority sent to the device
	sig   []byte
	done  bool
	fails int
}

type c12 struct {
	w       *sim.World
	now     time.Time
	ca      *key
	id      []byte
	parent  *x509.Certificate
	csrs    []*x509.CertificateRequest
	holders []*key
	store   []*issued
	queue   []*signReq
	old     []*signReq
	left    int
	shared  *certJob
	sharing bool
}

func runC12(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c12{w: w, ca: pickKey(L, realCurve), id: pickID(L)}
	x.now = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(L.N(1<<31-1)) * time.Second / 4)
	g := &certGen{l: L}
	// The authority's own certificate data.
	x.parent = &x509.Certificate{Subject: g.name()}
	if L.N(2) == 0 {
		x.parent.SubjectKeyId = spare(L, L.Sub().Bytes(1+L.N(20)))
	}
	if L.N(4) == 0 {
		x.parent = x.root(t, g)
	}
	if x.parent == nil {
		return
	}
	// Requests as they came in.
	for i, n := 0, 1+L.N(2); i < n; i++ {
		k := pickKey(L, realCurve)
		j := g.csr()
		for j.bad {
			j = g.csr()
		}
		t.Rand = w.NewRand(L.Sub())
		var c *x509.CertificateRequest
		t.Do("request", func() {
			der, err := cert.CreateCertificateRequest(j.tpl, k.pub, k.priv, nil)
			if err == nil {
				c, err = cert.ParseCertificateRequest(der)
			}
			if err != nil {
				w.Fail("no-request", "%v", err)
			}
		})
		if c == nil {
			return
		}
		x.csrs, x.holders = append(x.csrs, c), append(x.holders, k)
	}
	x.sharing = L.N(2) == 0
	if x.sharing {
		x.shared = g.cert(x.clock())
	}
	bp := dump(x.parent)
	var bc []string
	for _, c := range x.csrs {
		bc = append(bc, dump(c))
	}
	bs := ""
	if x.sharing {
		bs = dump(x.shared.tpl)
	}
	var fs []func(*sim.T)
	n := 1 + L.W(2, 3, 1)
	x.left = n
	for i := 0; i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			own := (&certGen{l: L}).cert(x.clock())
			for j, m := 0, 1+L.N(3); j < m; j++ {
				if L.N(4) == 0 {
					own = (&certGen{l: L}).cert(x.clock())
				}
				x.issue(t, own)
			}
			x.left--
		})
	}
	fs = append(fs, x.device)
	t.Par("issuer", fs...)
	if s := dump(x.parent); s != bp {
		w.Fail("argument-changed", "issuing changed the issuer's certificate: %s", dumpDiff(bp, s))
	}
	for i, c := range x.csrs {
		if s := dump(c); s != bc[i] {
			w.Fail("argument-changed", "issuing changed a request: %s", dumpDiff(bc[i], s))
		}
	}
	if x.sharing {
		if s := dump(x.shared.tpl); s != bs {
			w.Fail("argument-changed", "issuing changed the shared template: %s", dumpDiff(bs, s))
		}
	}
	if len(x.store) == 0 {
		return
	}
	fs = nil
	for i, n := 0, 1+L.N(2); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 4+L.N(12); j < m; j++ {
				x.readBack(t)
			}
		})
	}
	t.Par("reader", fs...)
}

// clock is a reading of the authority's clock, which jumps.
func (x *c12) clock() time.Time {
	if x.w.Fault.P(6) {
		d := time.Duration(x.w.Fault.Range(-1<<30, 1<<30)) * time.Second
		if x.w.Fault.P(5) {
			d *= 4
		}
		x.now = x.now.Add(d)
		x.w.Fired("clock-jump")
	}
	x.now = x.now.Add(time.Duration(x.w.Fault.N(1 << 30)))
	return x.now.Add(time.Duration(x.w.K.Now))
}

// root makes the authority's certificate with the library and reads it back.
func (x *c12) root(t *sim.T, g *certGen) *x509.Certificate {
	w := x.w
	j := g.cert(x.clock())
	for j.bad {
		j = g.cert(x.clock())
	}
	pub := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spki(x.ca)}
	var out *x509.Certificate
	t.Rand = w.NewRand(w.Plan.Sub())
	t.Do("self-signed certificate", func() {
		info, err := cert.CreateCertificateInfo(j.tpl, j.tpl, pub)
		if err == nil {
			var der []byte
			if der, err = cert.IssueCertificateBySoftCAKey(info, x.ca.priv, x.id); err == nil {
				out, err = cert.ParseCertificate(der)
			}
		}
		if err != nil {
			w.Fail("refused", "self-signed certificate for %+v: %v", j.tpl, err)
		}
	})
	if out == nil {
		return nil
	}
	if d := expect(j.tpl, j.tpl).diff(out); d != "" {
		w.Fail("content-differs", "a self-signed certificate has %s", d)
	}
	w.Probe("self-signed-authority")
	return out
}

// device signs what is in its queue, badly.
func (x *c12) device(t *sim.T) {
	w, F := x.w, x.w.Fault
	for {
		simrt.Block("device queue", func() bool { return len(x.queue) > 0 || x.left == 0 })
		if len(x.queue) == 0 {
			return
		}
		i := F.N(len(x.queue))
		if i > 0 {
			w.Fired("device-out-of-order")
		}
		r := x.queue[i]
		x.queue = append(x.queue[:i:i], x.queue[i+1:]...)
		if F.N(2) == 0 {
			t.Sleep(int64(1+F.N(3000)) * ms)
			w.Fired("device-delay")
		}
		switch F.N(7) {
		case 0: // fails; the authority will ask again
			r.fails++
			r.done = true
			w.Fired("device-failure")
			continue
		case 1: // the answer to an earlier job
			if len(x.old) > 0 {
				r.sig = x.old[F.N(len(x.old))].sig
				r.done = true
				w.Fired("device-stale-answer")
				continue
			}
		case 2: // rubbish
			r.sig = F.Sub().Bytes(F.N(80))
			r.done = true
			w.Fired("device-rubbish")
			continue
		}
		e := ref.E(x.ca.c.r, sigID(x.id), x.ca.P, r.tbs)
		for r.sig == nil {
			if a, b, ok := ref.SignK(x.ca.c.r, x.ca.d, randScalar(x.ca.c, F.Sub()), e); ok {
				r.sig = ref.EncSig(a, b)
			}
		}
		x.old = append(x.old, r)
		r.done = true
	}
}

// issue runs one job from template to stored certificate.
func (x *c12) issue(t *sim.T, own *certJob) {
	w, L, F := x.w, x.w.Plan, x.w.Fault
	i := L.N(len(x.csrs))
	csr, holder := x.csrs[i], x.holders[i]
	job, fill := own, L.N(3) > 0
	if x.sharing && L.N(2) == 0 {
		job, fill = x.shared, false
	}
	tpl := job.tpl
	if fill {
		extra := tpl.ExtraExtensions
		t.Do("FillCertificateTemplateByCSR", func() { cert.FillCertificateTemplateByCSR(tpl, csr) })
		if d := diffName("filled subject", csr.RawSubject, tpl.Subject, csr.RawSubject); d != "" {
			w.Fail("fill-differs", "%s", d)
		}
		if d := diffSANs(sans{csr.DNSNames, csr.EmailAddresses, csr.IPAddresses, csr.URIs}, tpl.DNSNames, tpl.EmailAddresses, tpl.IPAddresses, tpl.URIs); d != "" {
			w.Fail("fill-differs", "template filled from request has %s", d)
		}
		tpl.ExtraExtensions = extra
	}
	parent := x.parent
	if L.N(6) == 0 {
		parent = tpl // self-issued
	}
	bad := job.bad
	desc := fmt.Sprintf("template %+v", tpl)
	if len(desc) > 600 {
		desc = desc[:600]
	}
	var exp *certJob
	if !bad {
		exp = expect(tpl, parent)
		bad = exp.bad
	}
	// The caller may use a template of its own for each job and take it apart as
	// soon as the content has been created.
	reuse := L.N(3) == 0
	if reuse {
		self := parent == tpl
		tpl = clone(tpl).(*x509.Certificate)
		if self {
			parent = tpl
		}
	}
	before := ""
	if reuse || !x.sharing || job != x.shared {
		before = dump(tpl)
	}
	var info *cert.TBSCertificate
	var err error
	t.Do("CreateCertificateInfo", func() { info, err = cert.CreateCertificateInfo(tpl, parent, csr) })
	if before != "" {
		if s := dump(tpl); s != before {
			w.Fail("argument-changed", "CreateCertificateInfo changed the template: %s", dumpDiff(before, s))
		}
	}
	if bad {
		if err == nil {
			w.Fail("bad-template-accepted", "%s", desc)
		}
		w.Probe("bad-template-refused")
		return
	}
	if err != nil || info == nil {
		w.Fail("refused", "%s: %v", desc, err)
		return
	}
	rec := &issued{job: exp, holder: holder, id: x.id, tbs: append([]byte(nil), info.Raw...)}
	if reuse {
		scribble(tpl)
		w.Fired("template-overwritten")
		if !bytes.Equal(info.Raw, rec.tbs) {
			w.Fail("content-changed", "%s: the content to be signed changed with the template", desc)
		}
	}
	if L.N(2) == 0 {
		x.soft(t, rec, info, desc)
	} else {
		x.hard(t, rec, info, desc, own)
	}
	if rec.der == nil {
		return
	}
	if !bytes.Equal(info.Raw, rec.tbs) {
		w.Fail("content-changed", "%s: the content to be signed changed while the job was open", desc)
	}
	x.inspect(t, rec, desc)
	x.store = append(x.store, rec)
	if F.N(3) == 0 {
		t.Sleep(int64(F.N(100)) * ms)
	}
}

// soft signs with the library.
func (x *c12) soft(t *sim.T, rec *issued, info *cert.TBSCertificate, desc string) {
	w, F := x.w, x.w.Fault
	rec.good = true
	gid, id := guarded(x.w.Plan.Sub(), x.id, 16)
	if x.id == nil {
		id = nil
	}
	bi := dump(info)
	for try := 0; ; try++ {
		rs := flakyRand(w, t, try < 3 && F.N(3) == 0)
		var err error
		var der []byte
		t.Do("IssueCertificateBySoftCAKey", func() { der, err = cert.IssueCertificateBySoftCAKey(info, x.ca.priv, id) })
		if s := dump(info); s != bi {
			w.Fail("argument-changed", "issuing changed the content to be signed: %s", dumpDiff(bi, s))
		}
		if err == nil {
			rec.der = der
			break
		}
		if !rs.Failed {
			w.Fail("refused", "%s: issuing, attempt %d: %v", desc, try, err)
			return
		}
		w.Probe("issue-retried")
	}
	if c := gid.changed(); c != "" {
		w.Fail("argument-changed", "identity: %s", c)
	}
}

// hard has the device sign, while the template may already serve other jobs.
func (x *c12) hard(t *sim.T, rec *issued, info *cert.TBSCertificate, desc string, own *certJob) {
	w, L, F := x.w, x.w.Plan, x.w.Fault
	for try := 0; try < 6; try++ {
		r := &signReq{tbs: append([]byte(nil), info.Raw...)}
		x.queue = append(x.queue, r)
		if own != x.shared && L.N(3) == 0 && !own.bad {
			// Meanwhile the template is prepared for another request.
			c := x.csrs[L.N(len(x.csrs))]
			e := own.tpl.ExtraExtensions
			t.Do("FillCertificateTemplateByCSR", func() { cert.FillCertificateTemplateByCSR(own.tpl, c) })
			own.tpl.ExtraExtensions = e
			if own.tpl.SerialNumber != nil {
				own.tpl.SerialNumber = new(big.Int).Add(own.tpl.SerialNumber, one)
			}
			w.Probe("template-reused-while-signing")
		}
		timeout := w.K.Now + int64(500+F.N(4000))*ms
		for !r.done && w.K.Now < timeout {
			t.Sleep(100 * ms)
		}
		if !r.done {
			w.Fired("device-timeout")
			continue
		}
		if r.fails > 0 {
			continue
		}
		gs, sig := guarded(L.Sub(), r.sig, L.N(2)*16)
		bi := dump(info)
		var err error
		var der []byte
		t.Do("CreateCertificate", func() { der, err = cert.CreateCertificate(info, sig) })
		if s := dump(info); s != bi {
			w.Fail("argument-changed", "assembling changed the content that was signed: %s", dumpDiff(bi, s))
		}
		if c := gs.changed(); c != "" {
			w.Fail("argument-changed", "signature: %s", c)
		}
		if err != nil {
			w.Fail("refused", "%s: assembling: %v", desc, err)
			return
		}
		a, b, perr := ref.ParseSig(r.sig)
		if perr == nil && ref.Verify(x.ca.c.r, x.ca.P, x.ca.d, sigID(x.id), rec.tbs, a, b) {
			rec.der, rec.good = der, true
			return
		}
		// A wrong answer: the certificate must show it. The authority asks again.
		w.Probe("wrong-answer-assembled")
		rec.der = der
		x.inspect(t, rec, desc)
		rec.der = nil
	}
	w.Probe("device-gave-up")
}

// verify is the authority's signature check on a parsed certificate.
func (x *c12) verify(t *sim.T, c *x509.Certificate) bool {
	var ok bool
	t.Do("Verify", func() { ok = sm2.Verify(x.ca.pub, x.id, c.RawTBSCertificate, c.Signature) })
	return ok
}

// inspect reads a fresh certificate and compares it with what was to be issued.
func (x *c12) inspect(t *sim.T, rec *issued, desc string) {
	w := x.w
	g, in := guarded(w.Plan.Sub(), rec.der, w.Plan.N(2)*16)
	var c *x509.Certificate
	var err error
	t.Do("ParseCertificate", func() { c, err = cert.ParseCertificate(in) })
	if err != nil || c == nil {
		w.Fail("unreadable", "%s: parsing the issued certificate: %v", desc, err)
		return
	}
	if s := g.changed(); s != "" {
		w.Fail("argument-changed", "parsing: %s", s)
	}
	if !bytes.Equal(c.RawTBSCertificate, rec.tbs) || !bytes.Contains(rec.der, rec.tbs) {
		w.Fail("wrong-signed-bytes", "%s: the certificate contains %s, signed was %s", desc, sim.Hex(c.RawTBSCertificate), sim.Hex(rec.tbs))
	}
	if !bytes.Equal(c.Raw, rec.der) {
		w.Fail("wrong-raw", "%s: the parsed bytes are not the certificate", desc)
	}
	if d := diffKey(rec.holder, c.PublicKey); d != "" {
		w.Fail("wrong-key", "%s: %s", desc, d)
	}
	if !bytes.Equal(c.RawSubjectPublicKeyInfo, spki(rec.holder)) {
		w.Fail("wrong-key", "%s: public key info %x", desc, c.RawSubjectPublicKeyInfo)
	}
	if d := rec.job.diff(c); d != "" {
		w.Fail("content-differs", "%s: the issued certificate has %s", desc, d)
	}
	if d := rec.job.critical(c); d != "" {
		w.Fail("content-differs", "%s: %s", desc, d)
	}
	if ok := x.verify(t, c); ok != rec.good {
		w.Fail("wrong-verdict", "%s: signed by the authority: %v, verifies: %v", desc, rec.good, ok)
	}
	if rec.good {
		r, s, err := ref.ParseSig(c.Signature)
		if err != nil || !ref.Verify(x.ca.c.r, x.ca.P, x.ca.d, sigID(x.id), rec.tbs, r, s) {
			w.Fail("bad-signature", "%s: the reference does not verify the certificate", desc)
		}
	}
	tree, ok := parseDER(rec.der)
	if !ok || len(tree) != 1 || len(tree[0].kids) != 3 || !bytes.Equal(encDER(tree), rec.der) {
		w.Fail("not-DER", "%s: %s", desc, sim.Hex(rec.der))
		return
	}
	alg := ref.Enc(0x30, ref.Enc(6, base128of(oidSM3SM2)))
	if !bytes.Equal(tree[0].kids[1].enc(), alg) || !bytes.Contains(rec.tbs, alg) {
		w.Fail("wrong-algorithm", "%s: signature algorithm %x", desc, tree[0].kids[1].enc())
	}
	rec.parsed = c
	if rec.job.want.SerialNumber.Sign() > 0 && rec.job.want.SerialNumber.BitLen() <= 159 {
		p, err := x509.ParseCertificate(asP256(rec.holder, rec.der))
		if err != nil {
			w.Fail("foreign-reader-refuses", "%s: crypto/x509: %v", desc, err)
			return
		}
		w.Probe("x509-compared")
		if d := rec.job.diff(p); d != "" {
			w.Fail("foreign-reader-disagrees", "%s: crypto/x509 reads %s", desc, d)
		}
	}
}

// critical checks the flags RFC 5280 gives generated extensions.
func (j *certJob) critical(c *x509.Certificate) string {
	given := map[string]bool{}
	for _, e := range j.extra {
		given[e.Id.String()] = true
	}
	for _, e := range c.Extensions {
		id := e.Id.String()
		if given[id] {
			continue
		}
		want := id == "2.5.29.15" || id == "2.5.29.19" || id == "2.5.29.17" && bytes.Equal(j.subject, []byte{0x30, 0}) ||
			id == "2.5.29.30" && j.want.PermittedDNSDomainsCritical
		if e.Critical != want {
			return fmt.Sprintf("extension %s critical: %v", id, e.Critical)
		}
	}
	return ""
}

// readBack takes one certificate out of faulty storage.
func (x *c12) readBack(t *sim.T) {
	w, L, F := x.w, x.w.Plan, x.w.Fault
	rec := x.store[L.N(len(x.store))]
	other := x.store[L.N(len(x.store))]
	der := append([]byte(nil), rec.der...)
	what := "nothing"
	switch F.N(9) {
	case 0:
	case 1:
		what = "bytes"
		der = damageMessage(w, F, der)
	case 2:
		what = "length"
		if F.N(3) == 0 {
			der = append(der, F.Sub().Bytes(1+F.N(5))...)
			w.Fired("extended")
		} else {
			der = der[:F.N(len(der))]
			w.Fired("cut-short")
		}
	case 3, 4, 5:
		what = "elements"
		der = damageDER(w, F, der)
	case 6:
		what = "spliced"
		a, _ := parseDER(rec.der)
		b, _ := parseDER(other.der)
		if len(a) == 1 && len(b) == 1 {
			switch F.N(3) {
			case 0:
				a[0].kids[2] = b[0].kids[2]
			case 1: // one field of the other's content
				p, q := a[0].kids[0].kids, b[0].kids[0].kids
				if i := F.N(len(p)); i < len(q) {
					p[i] = q[i]
				}
			case 2:
				p, q := a[0].kids[0].kids, b[0].kids[0].kids
				i, j := F.N(len(p)), F.N(len(q))
				p[i] = q[j]
			}
			der = encDER(a)
			w.Fired("spliced")
		}
	case 7:
		what = "tail"
		for i := F.N(len(der)); i < len(der); i++ {
			der[i] = 0
		}
		w.Fired("torn-write")
	case 8:
		what = "block"
		n := 1 + F.N(64)
		p := F.N(len(der))
		copy(der[p:min(p+n, len(der))], other.der[min(p, len(other.der)):])
		w.Fired("misdirected-block")
	}
	desc := fmt.Sprintf("certificate %s after damage to %s", sim.Hex(der), what)
	var c *x509.Certificate
	var err error
	t.Do("ParseCertificate", func() { c, err = cert.ParseCertificate(der) })
	same := bytes.Equal(der, rec.der)
	if err != nil {
		if same {
			w.Fail("refused", "%s: %v", desc, err)
		}
		if c != nil {
			w.Fail("result-with-error", "%s: both a certificate and %v", desc, err)
		}
		w.Probe("damaged-refused")
		return
	}
	ok := x.verify(t, c)
	want := false
	if r, s, e := ref.ParseSig(c.Signature); e == nil {
		want = ref.Verify(x.ca.c.r, x.ca.P, x.ca.d, sigID(x.id), c.RawTBSCertificate, r, s)
	}
	if ok != want {
		w.Fail("wrong-verdict", "%s: verified %v, the standard says %v", desc, ok, want)
	}
	if !ok {
		if same && rec.good {
			w.Fail("refused", "%s: does not verify", desc)
		}
		w.Probe("damaged-does-not-verify")
		return
	}
	w.Probe("verified")
	var src *issued
	for _, r := range x.store {
		if bytes.Equal(r.tbs, c.RawTBSCertificate) {
			src = r
		}
	}
	if src == nil || !bytes.Contains(der, c.RawTBSCertificate) {
		w.Fail("accepted-damaged", "%s verifies with content nobody signed", desc)
		return
	}
	if d := src.job.diff(c); d != "" {
		w.Fail("accepted-damaged", "%s verifies but has %s", desc, d)
	}
	if d := diffKey(src.holder, c.PublicKey); d != "" {
		w.Fail("accepted-damaged", "%s verifies but %s", desc, d)
	}
	a, b := *c, *src.parsed
	a.Raw, b.Raw, a.Signature, b.Signature = nil, nil, nil, nil
	if !reflect.DeepEqual(a, b) {
		w.Fail("accepted-damaged", "%s verifies but reads differently", desc)
	}
	if !same {
		w.Probe("verified-with-unsigned-part-altered")
	}
}
