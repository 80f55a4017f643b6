package checks

import (
	"bytes"
	"crypto/hmac"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"hash"
	"math/big"
	"sort"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"gmverif/ref"
	"gmverif/sim"
	"gmverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C21", Quick: 2500, Thor: 50000, Chunk: 10,
		Run:    runC21,
		Rule:   "each run is a deployment: an authority and 2-3 parties that keep their private key, certificate, agreed session keys, outbox and delivery log on a simulated disk in the library's own encodings, sealed with an SM3 sum. Parties enrol with a certificate request, fetch each other's certificates, and exchange messages, some in signed SM2 envelopes of SM4-CBC records, some under session keys agreed with the SM2 key exchange and protected with SM4-CBC and HMAC-SM3; all framing goes through the message builder and reader. Until a moment in simulated time the network loses, delays, duplicates, reorders and damages messages, randomness fails, and parties crash at disk and network operations and restart with only what reached the disk (unsynced writes are lost, kept or torn). Checked while it runs: what is delivered was sent, by whom it claims, exactly as sent, once; an undamaged message that can be processed is; reloaded keys are the saved ones. At the end: every message has been delivered within a bounded simulated time after the faults stopped. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2 key generation, import, export, signatures, encryption, encodings, key exchange", "sm2/cert", "sm3 and HMAC over it", "sm4 CBC", "util padding", "cryptobyte builder and reader"},
		Stub:   []string{stubRand, stubSched, stubClock, "network", "disk", "directory of certificates", "the parties' protocol itself"},
		Assume: []string{"identities are shorter than 8192 bytes"},
	})
}

type crash21 struct{}

// disk21 is what survives a crash, and what may not.
type disk21 struct {
	safe map[string][]byte
	open map[string][]byte // written, not synced
}

type pkt21 struct {
	to   int
	raw  []byte
	orig []byte // as sent; nil if nobody sent it
}

type sess21 struct {
	peer int
	id   int64
	key  []byte
}

type hand21 struct {
	peer int
	id   int64
	init bool
	eph  *sm2.PrivateKey
	res  *sm2.ExchangeResult
	bits int
}

type party21 struct {
	n     int
	name  string
	id    []byte
	disk  *disk21
	inbox []*pkt21
	// lost in a crash
	priv  *sm2.PrivateKey
	pub   *sm2.PublicKey
	peers map[int]*sm2.PublicKey
	sess  map[int64]*sess21
	hands map[int64]*hand21
	out   map[int64][]byte
	got   map[string]bool
	next  int64 // next retransmission
	pumps int
	boots int
	// what the model knows
	saved []byte // the raw private key that must come back
}

type msg21 struct {
	from, to  int
	seq       int64
	body      []byte
	delivered int
}

type world21 struct {
	w       *sim.World
	ps      []*party21
	ca      *key
	caID    []byte
	root    *x509.Certificate
	rootDER []byte
	dir     map[int][]byte // published certificates
	msgs    map[string]*msg21
	faults  bool
	stop    bool
	nextID  int64
	agreed  map[int64][]byte // session keys the responder confirmed
	made    map[int64][]byte // session keys the initiator accepted
	mode    sm2.Sm2CipherTextType
	serial  int64
}

func runC21(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &world21{w: w, dir: map[int][]byte{}, msgs: map[string]*msg21{}, faults: true, agreed: map[int64][]byte{}, made: map[int64][]byte{}, serial: 1}
	x.ca, x.caID = pickKey(L, realCurve), pickID(L)
	x.mode = []sm2.Sm2CipherTextType{sm2.C1C3C2, sm2.C1C2C3}[L.N(2)]
	t.Rand = w.NewRand(L.Sub())
	x.makeRoot(t)
	n := 2 + L.N(2)
	for i := 0; i < n; i++ {
		p := &party21{n: i, name: fmt.Sprintf("party %d", i), id: pickID(L), disk: &disk21{map[string][]byte{}, map[string][]byte{}}}
		if L.N(3) == 0 { // an operator has provided a key
			p.saved = ref.B32(pickScalar(L, realCurve))
			p.disk.safe["key"] = seal21(t, p.saved)
		}
		x.ps = append(x.ps, p)
	}
	var ts []*sim.T
	for _, p := range x.ps {
		p := p
		ts = append(ts, w.Go(p.name, func(t *sim.T) { x.life(t, p) }))
	}
	for i, m := 0, 1+L.N(5); i < m; i++ {
		from := L.N(n)
		to := (from + 1 + L.N(n-1)) % n
		x.serial++
		m := &msg21{from: from, to: to, seq: x.serial, body: body21(L)}
		x.msgs[fmt.Sprint(from, to, m.seq)] = m
		// The application hands the message over by putting it in the outbox, durably.
		x.ps[from].disk.safe[fmt.Sprintf("out/%d/%d", to, m.seq)] = seal21(t, m.body)
		t.Sleep(int64(L.N(300)) * ms)
	}
	t.Sleep(int64(200+L.N(3000)) * ms)
	x.faults = false
	w.Logf("faults stop")
	limit := w.K.Now + 20000*ms
	for w.K.Now < limit && !x.allDone() {
		t.Sleep(100 * ms)
	}
	x.stop = true
	for _, p := range x.ps {
		p.inbox = append(p.inbox, nil)
	}
	t.Join(ts...)
	for _, m := range x.sorted() {
		if m.delivered == 0 {
			w.Fail("not-delivered", "message %d from party %d to party %d was not delivered within 20 s of simulated time after the faults stopped", m.seq, m.from, m.to)
		}
	}
	for _, p := range x.ps {
		if left := p.files("out/"); len(left) > 0 {
			w.Fail("not-acknowledged", "%s still has %v in its outbox 20 s of simulated time after the faults stopped", p.name, left)
		}
	}
	w.Probe("all-delivered")
}

func body21(L *sim.Lane) []byte {
	b := L.Sub().Bytes(pickLen(L, 300))
	switch L.N(12) {
	case 9: // already padded
		b = append(b, bytes.Repeat([]byte{byte(16 - len(b)%16)}, 16-len(b)%16)...)
	case 10:
		b = make([]byte, len(b))
	case 11:
		if L.N(8) == 0 {
			b = L.Sub().Bytes(65520 + L.N(40))
		}
	}
	return b
}

func (x *world21) sorted() (out []*msg21) {
	var ks []string
	for k := range x.msgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, x.msgs[k])
	}
	return
}

func (x *world21) allDone() bool {
	for _, m := range x.msgs {
		if m.delivered == 0 {
			return false
		}
	}
	for _, p := range x.ps {
		if len(p.files("out/")) > 0 {
			return false
		}
	}
	return true
}

func seal21(t *sim.T, b []byte) []byte {
	var s [32]byte
	t.Do("sm3.Sum", func() { s = sm3.Sum(b) })
	return append(append([]byte(nil), b...), s[:]...)
}

// ---- disk ----

func (x *world21) maybeCrash(p *party21, at string) {
	if x.faults && x.w.Fault.P(25) {
		x.w.Fired("crash-" + at)
		panic(crash21{})
	}
}

func (x *world21) write(t *sim.T, p *party21, name string, b []byte) {
	p.disk.open[name] = seal21(t, b)
	x.maybeCrash(p, "after-write")
}

func (x *world21) sync(p *party21) {
	x.maybeCrash(p, "before-sync")
	for k, v := range p.disk.open {
		p.disk.safe[k] = v
	}
	p.disk.open = map[string][]byte{}
	x.maybeCrash(p, "after-sync")
}

// read returns a file, or false if it is missing or its sum is wrong.
func (x *world21) read(t *sim.T, p *party21, name string) ([]byte, bool) {
	b, ok := p.disk.open[name]
	if !ok {
		b, ok = p.disk.safe[name]
	}
	if !ok || len(b) < 32 {
		return nil, false
	}
	body := b[:len(b)-32]
	var s [32]byte
	t.Do("sm3.Sum", func() { s = sm3.Sum(body) })
	if !bytes.Equal(s[:], b[len(b)-32:]) {
		x.w.Probe("torn-file-detected")
		return nil, false
	}
	return append([]byte(nil), body...), true
}

func (x *world21) remove(p *party21, name string) {
	delete(p.disk.open, name)
	delete(p.disk.safe, name)
}

// crashed decides what of the unsynced writes reached the disk.
func (x *world21) crashed(p *party21) {
	F := x.w.Fault
	var ks []string
	for k := range p.disk.open {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := p.disk.open[k]
		switch F.N(4) {
		case 0:
			p.disk.safe[k] = v
			x.w.Fired("unsynced-write-kept")
		case 1:
			n := F.N(len(v))
			old := p.disk.safe[k]
			nv := append([]byte(nil), v[:n]...)
			if len(old) > n && F.N(2) == 0 {
				nv = append(nv, old[n:]...)
			}
			p.disk.safe[k] = nv
			x.w.Fired("torn-write")
		default:
			x.w.Fired("unsynced-write-lost")
		}
	}
	p.disk.open = map[string][]byte{}
}

func (p *party21) files(prefix string) (out []string) {
	for k := range p.disk.safe {
		if len(k) > len(prefix) && k[:len(prefix)] == prefix {
			out = append(out, k)
		}
	}
	for k := range p.disk.open {
		if _, dup := p.disk.safe[k]; !dup && len(k) > len(prefix) && k[:len(prefix)] == prefix {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// ---- one party's life ----

func (x *world21) life(t *sim.T, p *party21) {
	for !x.stop {
		if x.run(t, p) {
			return
		}
		x.crashed(p)
		x.w.Logf("%s crashes", p.name)
		p.inbox = nil
		t.Sleep(int64(x.w.Fault.N(400)) * ms)
	}
}

// run is one incarnation; it returns false if it ended in a crash.
func (x *world21) run(t *sim.T, p *party21) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(crash21); !is {
				panic(r)
			}
		}
	}()
	p.boots++
	p.peers, p.sess, p.hands = map[int]*sm2.PublicKey{}, map[int64]*sess21{}, map[int64]*hand21{}
	p.out, p.got, p.pumps, p.next = map[int64][]byte{}, map[string]bool{}, 0, 0
	x.boot(t, p)
	for {
		due := x.w.K.Now + 280*ms
		simrt.Block("inbox", func() bool { return x.stop || len(p.inbox) > 0 })
		if x.stop {
			return true
		}
		m := p.inbox[0]
		p.inbox = p.inbox[1:]
		if m != nil {
			x.handle(t, p, m)
		}
		if x.w.K.Now >= p.next {
			p.next = due + 200*ms*int64(min(p.pumps, 5))
			p.pumps++
			x.pump(t, p)
		}
	}
}

// tick wakes the party up regularly.
func (x *world21) tick(p *party21, boot int) {
	if x.stop || p.boots != boot {
		return
	}
	if len(p.inbox) == 0 {
		p.inbox = append(p.inbox, nil)
	}
	x.w.K.After(150*ms, func() { x.tick(p, boot) })
}

func (x *world21) rand(t *sim.T) {
	rs := flakyRand(x.w, t, x.faults && x.w.Fault.P(8))
	if !x.faults {
		rs.Short, rs.Empty, rs.Stall = 0, 0, 0
	}
}

// boot loads or creates everything the party needs.
func (x *world21) boot(t *sim.T, p *party21) {
	w := x.w
	raw, ok := x.read(t, p, "key")
	if ok {
		if p.saved != nil && !bytes.Equal(raw, p.saved) {
			w.Fail("key-differs", "%s reads private key %x, saved was %x", p.name, raw, p.saved)
		}
		var err error
		t.Do("RawBytesToPrivateKey", func() { p.priv, err = sm2.RawBytesToPrivateKey(raw) })
		if err != nil {
			w.Fail("key-refused", "%s cannot load its private key %x: %v", p.name, raw, err)
			return
		}
		t.Do("CalculatePubKey", func() { p.pub = sm2.CalculatePubKey(p.priv) })
		if p.saved == nil { // a key that had not been synced but reached the disk
			p.saved = raw
		}
	} else {
		if p.saved != nil {
			w.Fail("key-lost", "%s finds no usable private key, though one was saved", p.name)
			return
		}
		for {
			x.rand(t)
			var err error
			t.Do("GenerateKey", func() { p.priv, p.pub, err = sm2.GenerateKey(t.Rand) })
			if err == nil {
				break
			}
		}
		t.Do("GetRawBytes", func() { raw = p.priv.GetRawBytes() })
		x.write(t, p, "key", raw)
		x.sync(p)
		p.saved = raw
	}
	d := new(big.Int).SetBytes(p.saved)
	P := realCurve.r.BaseMul(d)
	if p.pub == nil || p.pub.X.Cmp(P.X) != 0 || p.pub.Y.Cmp(P.Y) != 0 || p.priv.D.Cmp(d) != 0 {
		w.Fail("key-differs", "%s has private key %x and public key %v, saved was %x", p.name, p.priv.D, p.pub, p.saved)
		return
	}
	if der, ok := x.read(t, p, "cert"); !ok {
		x.enrol(t, p)
	} else {
		var c *x509.Certificate
		var err error
		t.Do("ParseCertificate", func() { c, err = cert.ParseCertificate(der) })
		if err != nil || c == nil {
			w.Fail("cert-refused", "%s cannot read the certificate it saved: %v", p.name, err)
			return
		}
		if q, _ := c.PublicKey.(*sm2.PublicKey); q == nil || q.X.Cmp(P.X) != 0 || q.Y.Cmp(P.Y) != 0 {
			w.Fail("cert-differs", "%s: the certificate it saved has another key", p.name)
		}
		x.dir[p.n] = der
		w.Probe("restarted-with-certificate")
	}
	for _, f := range p.files("sess/") {
		b, ok := x.read(t, p, f)
		if !ok {
			continue
		}
		var s sess21
		fmt.Sscanf(f, "sess/%d/%d", &s.peer, &s.id)
		s.key = b
		if want, ok := x.agreed[s.id]; ok && !bytes.Equal(want, b) {
			w.Fail("session-key-differs", "%s reads session key %x, agreed was %x", p.name, b, want)
		}
		p.sess[s.id] = &s
		w.Probe("session-reloaded")
	}
	for _, f := range p.files("got/") {
		if _, ok := x.read(t, p, f); ok {
			p.got[f[4:]] = true
			var from int
			var seq int64
			fmt.Sscanf(f, "got/%d/%d", &from, &seq)
			if m := x.msgs[fmt.Sprint(from, p.n, seq)]; m != nil && m.delivered == 0 {
				m.delivered = 1 // it reached the disk just before the crash
			}
		}
	}
	x.tick(p, p.boots)
}

func (x *world21) makeRoot(t *sim.T) {
	w := x.w
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "Root"}, NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(2000000000, 0),
		BasicConstraintsValid: true, IsCA: true, KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: []byte{1, 2, 3}}
	var err error
	t.Do("root certificate", func() {
		var info *cert.TBSCertificate
		if info, err = cert.CreateCertificateInfo(tpl, tpl, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spki(x.ca)}); err != nil {
			return
		}
		if x.rootDER, err = cert.IssueCertificateBySoftCAKey(info, x.ca.priv, x.caID); err != nil {
			return
		}
		x.root, err = cert.ParseCertificate(x.rootDER)
	})
	if err != nil || x.root == nil {
		w.Fail("no-root", "%v", err)
	}
}

// enrol gets a certificate from the authority, which may refuse what was damaged
// on the way; the party then asks again.
func (x *world21) enrol(t *sim.T, p *party21) {
	w, F := x.w, x.w.Fault
	for try := 0; ; try++ {
		x.rand(t)
		var der []byte
		var err error
		tpl := &x509.CertificateRequest{Subject: pkix.Name{CommonName: p.name, Organization: []string{"Σ Acme Co"}}, DNSNames: []string{"p.example"}}
		t.Do("CreateCertificateRequest", func() { der, err = cert.CreateCertificateRequest(tpl, p.pub, p.priv, p.id) })
		if err != nil {
			if !t.Rand.Failed {
				w.Fail("refused", "%s: request: %v", p.name, err)
				return
			}
			continue
		}
		sent := der
		damaged := false
		if x.faults && F.P(4) {
			der = damageMessage(w, F, der)
			damaged = !bytes.Equal(der, sent)
		}
		x.maybeCrash(p, "enrolling")
		// The authority.
		var ok bool
		t.Do("VerifyDERCSRSign", func() { ok, err = cert.VerifyDERCSRSign(der, p.id) })
		if !ok || err != nil {
			if !damaged {
				w.Fail("refused", "the authority refuses the request of %s: %v, %v", p.name, ok, err)
				return
			}
			continue
		}
		var out []byte
		x.rand(t)
		var csr *x509.CertificateRequest
		t.Do("issue", func() {
			if csr, err = cert.ParseCertificateRequest(der); err != nil {
				return
			}
			x.serial++
			c := &x509.Certificate{SerialNumber: big.NewInt(x.serial), NotBefore: time.Unix(1700000000, 0), NotAfter: time.Unix(1800000000, 0), KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyAgreement}
			cert.FillCertificateTemplateByCSR(c, csr)
			var info *cert.TBSCertificate
			if info, err = cert.CreateCertificateInfo(c, x.root, csr); err != nil {
				return
			}
			out, err = cert.IssueCertificateBySoftCAKey(info, x.ca.priv, x.caID)
		})
		if err != nil {
			if !t.Rand.Failed {
				w.Fail("refused", "the authority cannot issue for %s: %v", p.name, err)
				return
			}
			continue
		}
		x.maybeCrash(p, "enrolling")
		x.write(t, p, "cert", out)
		x.sync(p)
		x.dir[p.n] = out
		w.Probe("enrolled")
		return
	}
}

// peer fetches another party's certificate from the directory.
func (x *world21) peer(t *sim.T, p *party21, n int) *sm2.PublicKey {
	w, F := x.w, x.w.Fault
	if k := p.peers[n]; k != nil {
		return k
	}
	der := x.dir[n]
	if der == nil {
		return nil
	}
	good := der
	if x.faults && F.P(3) {
		switch F.N(3) {
		case 0:
			der = damageMessage(w, F, der)
		case 1:
			der = damageDER(w, F, der)
		case 2:
			der = x.dir[F.N(len(x.ps))]
			w.Fired("wrong-certificate")
		}
		if der == nil {
			return nil
		}
	}
	var c *x509.Certificate
	var err error
	t.Do("ParseCertificate", func() { c, err = cert.ParseCertificate(der) })
	ok := false
	if err == nil && c != nil {
		ca := x.root.PublicKey.(*sm2.PublicKey)
		t.Do("Verify", func() { ok = sm2.Verify(ca, x.caID, c.RawTBSCertificate, c.Signature) })
	}
	if !ok || c.Subject.CommonName != x.ps[n].name || !bytes.Equal(c.RawIssuer, x.root.RawSubject) {
		if bytes.Equal(der, good) {
			w.Fail("refused", "%s refuses the certificate of party %d: %v", p.name, n, err)
		}
		w.Probe("certificate-refused")
		return nil
	}
	k, _ := c.PublicKey.(*sm2.PublicKey)
	P := realCurve.r.BaseMul(new(big.Int).SetBytes(x.ps[n].saved))
	if k == nil || k.X.Cmp(P.X) != 0 || k.Y.Cmp(P.Y) != 0 {
		w.Fail("wrong-key", "%s takes %v for the key of party %d", p.name, k, n)
		return nil
	}
	p.peers[n] = k
	return k
}

// ---- network ----

func (x *world21) send(p *party21, to int, raw []byte) {
	w, F := x.w, x.w.Fault
	x.maybeCrash(p, "sending")
	m := &pkt21{to: to, raw: raw, orig: raw}
	copies := 1
	d := int64(F.N(20))
	if x.faults {
		switch F.W(10, 2, 2, 2, 2) {
		case 1:
			w.Fired("net-drop")
			return
		case 2:
			copies = 2
			w.Fired("net-duplicate")
		case 3:
			m = &pkt21{to: to, raw: damageMessage(w, F, raw), orig: raw}
		case 4:
			d = int64(F.N(1500))
			w.Fired("net-delay")
		}
	}
	for i := 0; i < copies; i++ {
		w.K.After((d+int64(i*F.N(300)))*ms, func() {
			q := x.ps[to]
			if len(q.inbox) < 50 {
				q.inbox = append(q.inbox, m)
			}
		})
	}
}

// frame builds a message: kind, sender, number and fields.
func (x *world21) frame(t *sim.T, kind, from int, num int64, fields ...[]byte) []byte {
	var out []byte
	var err error
	t.Do("Builder", func() {
		var b cryptobyte.Builder
		b.AddASN1(cbasn1.SEQUENCE, func(b *cryptobyte.Builder) {
			b.AddASN1Int64(int64(kind))
			b.AddASN1Uint64(uint64(from))
			b.AddASN1Int64(num)
			b.AddUint24LengthPrefixed(func(b *cryptobyte.Builder) {
				for _, f := range fields {
					b.AddASN1OctetString(f)
				}
			})
		})
		out, err = b.Bytes()
	})
	if err != nil {
		x.w.Fail("framing", "building a message: %v", err)
	}
	return out
}

func (x *world21) unframe(t *sim.T, raw []byte) (kind, from int, num int64, fields [][]byte, ok bool) {
	t.Do("String", func() {
		in := cryptobyte.String(raw)
		var body, list cryptobyte.String
		var u uint64
		if !in.ReadASN1(&body, cbasn1.SEQUENCE) || !in.Empty() || !body.ReadASN1Integer(&kind) || !body.ReadASN1Integer(&u) || !body.ReadASN1Integer(&num) ||
			!body.ReadUint24LengthPrefixed(&list) || !body.Empty() {
			return
		}
		from = int(u)
		for !list.Empty() {
			var f cryptobyte.String
			if !list.ReadASN1(&f, cbasn1.OCTET_STRING) {
				return
			}
			fields = append(fields, append([]byte{}, f...))
		}
		ok = true
	})
	return
}

const (
	envelope21 = 1
	record21   = 2
	ack21      = 3
	hello21    = 4
	answer21   = 5
	confirm21  = 6
	unknown21  = 7
)

func i64(v int64) []byte { return big.NewInt(v).Bytes() }

// digest21 is the SM3 value of fields, written in pieces.
func digest21(t *sim.T, l *sim.Lane, fields ...[]byte) (out []byte) {
	t.Do("SM3", func() {
		h := sm3.New()
		for _, f := range fields {
			h.Write([]byte{byte(len(f) >> 16), byte(len(f) >> 8), byte(len(f))})
			n := len(f) / 2
			h.Write(f[:n])
			h.Sum(nil)
			h.Write(f[n:])
		}
		out = h.Sum(nil)
	})
	return
}

func mac21(t *sim.T, key []byte, fields ...[]byte) (out []byte) {
	t.Do("HMAC", func() {
		h := hmac.New(func() hash.Hash { return sm3.New() }, key)
		for _, f := range fields {
			h.Write([]byte{byte(len(f) >> 16), byte(len(f) >> 8), byte(len(f))})
			h.Write(f)
		}
		out = h.Sum(nil)
	})
	return
}

// pump sends what is in the outbox, and picks up what the application added.
func (x *world21) pump(t *sim.T, p *party21) {
	w, L := x.w, x.w.Plan
	p.out = map[int64][]byte{}
	for _, f := range p.files("out/") {
		var to int
		var seq int64
		fmt.Sscanf(f, "out/%d/%d", &to, &seq)
		body, ok := x.read(t, p, f)
		if !ok {
			w.Fail("outbox-lost", "%s cannot read %s", p.name, f)
			return
		}
		p.out[seq] = body
		pub := x.peer(t, p, to)
		if pub == nil {
			continue
		}
		var s *sess21
		for _, id := range sortedIDs(p.sess) {
			if p.sess[id].peer == to {
				s = p.sess[id]
			}
		}
		switch {
		case s != nil && L.N(4) < 3:
			x.sendRecord(t, p, s, to, seq, body)
		case L.N(3) == 2:
			x.hello(t, p, to)
		default:
			x.sendEnvelope(t, p, pub, to, seq, body)
		}
	}
}

func sortedIDs(m map[int64]*sess21) (out []int64) {
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func (x *world21) cbc(t *sim.T, enc bool, key, iv, b []byte) (out []byte, err error) {
	t.Do("CBC", func() {
		if enc {
			out, err = sm4.CBCEncrypt(key, iv, util.PKCS5Padding(b, sm4.BlockSize))
		} else if out, err = sm4.CBCDecrypt(key, iv, b); err == nil {
			out = util.PKCS5UnPadding(out)
		}
	})
	return
}

func (x *world21) sendEnvelope(t *sim.T, p *party21, pub *sm2.PublicKey, to int, seq int64, body []byte) {
	w, L := x.w, x.w.Plan
	r := L.Sub()
	key, iv := r.Bytes(16), r.Bytes(16)
	ct, err := x.cbc(t, true, key, iv, body)
	if err != nil {
		w.Fail("refused", "%s: SM4: %v", p.name, err)
		return
	}
	x.rand(t)
	var ek, sig []byte
	t.Do("Encrypt", func() {
		if ek, err = sm2.Encrypt(pub, key, x.mode); err == nil {
			ek, err = sm2.MarshalCipher(ek, x.mode)
		}
	})
	if err != nil {
		if !t.Rand.Failed {
			w.Fail("refused", "%s: SM2 encryption: %v", p.name, err)
		}
		return
	}
	d := digest21(t, L, []byte{envelope21}, i64(seq), i64(int64(to)), ek, iv, ct)
	x.rand(t)
	t.Do("Sign", func() { sig, err = sm2.Sign(p.priv, p.id, d) })
	if err != nil {
		if !t.Rand.Failed {
			w.Fail("refused", "%s: signing: %v", p.name, err)
		}
		return
	}
	x.send(p, to, x.frame(t, envelope21, p.n, seq, ek, iv, ct, sig))
}

func (x *world21) sendRecord(t *sim.T, p *party21, s *sess21, to int, seq int64, body []byte) {
	iv := x.w.Plan.Sub().Bytes(16)
	ct, err := x.cbc(t, true, s.key[:16], iv, body)
	if err != nil {
		x.w.Fail("refused", "%s: SM4: %v", p.name, err)
		return
	}
	tag := mac21(t, s.key[16:], []byte{record21, byte(p.n)}, i64(seq), iv, ct)
	x.send(p, to, x.frame(t, record21, p.n, seq, i64(s.id), iv, ct, tag))
}

// bits21 is the length of a session's key: nothing in the exchange protects a
// length sent along, so both sides derive it.
func bits21(id int64) int { return 8 * (32 + int(uint64(id)*7%60)) }

// hello starts a key exchange.
func (x *world21) hello(t *sim.T, p *party21, to int) {
	x.rand(t)
	var eph *sm2.PrivateKey
	var err error
	var R []byte
	t.Do("GenerateKey", func() {
		var pub *sm2.PublicKey
		if eph, pub, err = sm2.GenerateKey(t.Rand); err == nil {
			R = pub.GetRawBytes()
		}
	})
	if err != nil {
		return
	}
	x.nextID++
	h := &hand21{peer: to, id: x.nextID, init: true, eph: eph, bits: bits21(x.nextID)}
	p.hands[h.id] = h
	x.send(p, to, x.frame(t, hello21, p.n, h.id, R))
}

// handle processes one message; whatever arrived undamaged and can be
// understood must be.
func (x *world21) handle(t *sim.T, p *party21, m *pkt21) {
	w := x.w
	same := bytes.Equal(m.raw, m.orig)
	kind, from, num, f, ok := x.unframe(t, append([]byte(nil), m.raw...))
	if !ok {
		if same {
			w.Fail("refused", "%s cannot read an undamaged message %s", p.name, sim.Hex(m.raw))
		}
		w.Probe("damaged-refused")
		return
	}
	if from < 0 || from >= len(x.ps) || from == p.n {
		return
	}
	need := map[int]int{envelope21: 4, record21: 4, ack21: 1, hello21: 1, answer21: 2, confirm21: 1, unknown21: 1}[kind]
	if need == 0 || len(f) != need {
		return
	}
	bad := func(what string) {
		if same {
			w.Fail("refused", "%s refuses an undamaged message %s: %s", p.name, sim.Hex(m.raw), what)
		}
		w.Probe("damaged-refused")
	}
	switch kind {
	case envelope21:
		pub := x.peer(t, p, from)
		if pub == nil {
			return
		}
		d := digest21(t, w.Plan, []byte{envelope21}, i64(num), i64(int64(p.n)), f[0], f[1], f[2])
		var ok bool
		t.Do("Verify", func() { ok = sm2.Verify(pub, x.ps[from].id, d, f[3]) })
		if !ok {
			bad("signature")
			return
		}
		var key []byte
		var err error
		t.Do("Decrypt", func() {
			var raw []byte
			if raw, err = sm2.UnmarshalCipher(f[0], x.mode); err == nil {
				key, err = sm2.Decrypt(p.priv, raw, x.mode)
			}
		})
		if err != nil || len(key) != 16 {
			w.Fail("refused", "%s: an envelope whose signature verifies does not open: %v", p.name, err)
			return
		}
		body, err := x.cbc(t, false, key, f[1], f[2])
		if err != nil {
			w.Fail("refused", "%s: SM4: %v", p.name, err)
			return
		}
		x.deliver(t, p, from, num, body, "envelope")
	case record21:
		s := p.sess[new(big.Int).SetBytes(f[0]).Int64()]
		if s == nil || s.peer != from {
			if same {
				x.send(p, from, x.frame(t, unknown21, p.n, num, f[0]))
			}
			return
		}
		if tag := mac21(t, s.key[16:], []byte{record21, byte(from)}, i64(num), f[1], f[2]); !hmac.Equal(tag, f[3]) {
			bad("HMAC")
			return
		}
		body, err := x.cbc(t, false, s.key[:16], f[1], f[2])
		if err != nil {
			w.Fail("refused", "%s: SM4: %v", p.name, err)
			return
		}
		x.deliver(t, p, from, num, body, "record")
	case ack21:
		pub := x.peer(t, p, from)
		name := fmt.Sprintf("out/%d/%d", from, num)
		if _, have := p.disk.safe[name]; pub == nil || !have {
			return
		}
		d := digest21(t, w.Plan, []byte{ack21}, i64(num), i64(int64(p.n)))
		var ok bool
		t.Do("Verify", func() { ok = sm2.Verify(pub, x.ps[from].id, d, f[0]) })
		if !ok {
			bad("acknowledgement")
			return
		}
		if g := x.msgs[fmt.Sprint(p.n, from, num)]; g == nil || g.delivered == 0 {
			w.Fail("false-acknowledgement", "%s: message %d to party %d is acknowledged and was not delivered", p.name, num, from)
		}
		x.remove(p, name)
		delete(p.out, num)
	case hello21:
		pub := x.peer(t, p, from)
		if pub == nil {
			return
		}
		x.rand(t)
		h := &hand21{peer: from, id: num, bits: bits21(num)}
		var err error
		var R []byte
		t.Do("GenerateKey", func() {
			var ep *sm2.PublicKey
			if h.eph, ep, err = sm2.GenerateKey(t.Rand); err == nil {
				R = ep.GetRawBytes()
			}
		})
		if err != nil {
			return
		}
		if !x.exchange(t, p, h, pub, f[0], nil) {
			bad("exchange")
			return
		}
		p.hands[-num] = h
		x.send(p, from, x.frame(t, answer21, p.n, num, R, h.res.S1))
	case answer21:
		h := p.hands[num]
		if h == nil || h.peer != from || h.res != nil {
			return
		}
		pub := x.peer(t, p, from)
		if pub == nil {
			return
		}
		if !x.exchange(t, p, h, pub, f[0], f[1]) {
			// The hello itself may have been damaged on its way.
			w.Probe("exchange-refused")
			return
		}
		x.made[num] = h.res.Key
		x.write(t, p, fmt.Sprintf("sess/%d/%d", from, num), h.res.Key)
		x.sync(p)
		p.sess[num] = &sess21{peer: from, id: num, key: h.res.Key}
		x.send(p, from, x.frame(t, confirm21, p.n, num, h.res.S2))
	case confirm21:
		h := p.hands[-num]
		if h == nil || h.peer != from {
			return
		}
		var ok bool
		t.Do("ResponderConfirm", func() { ok = sm2.ResponderConfirm(h.res.S2, f[0]) })
		if !ok {
			// Possibly the confirmation of another answer to a repeated hello.
			w.Probe("confirmation-refused")
			return
		}
		if b := x.made[num]; !bytes.Equal(b, h.res.Key) {
			w.Fail("keys-differ", "session %d: %s confirms key %x, its peer has %x", num, p.name, h.res.Key, b)
		}
		x.write(t, p, fmt.Sprintf("sess/%d/%d", from, num), h.res.Key)
		x.sync(p)
		x.agreed[num] = h.res.Key
		p.sess[num] = &sess21{peer: from, id: num, key: h.res.Key}
		delete(p.hands, -num)
		w.Probe("session-agreed")
	case unknown21: // the peer does not have the session
		id := new(big.Int).SetBytes(f[0]).Int64()
		if s := p.sess[id]; s != nil && s.peer == from {
			delete(p.sess, id)
			x.remove(p, fmt.Sprintf("sess/%d/%d", from, id))
			w.Probe("session-dropped")
		}
	}
}

func (x *world21) exchange(t *sim.T, p *party21, h *hand21, pub *sm2.PublicKey, R, tag []byte) bool {
	var ep *sm2.PublicKey
	var err error
	t.Do("RawBytesToPublicKey", func() { ep, err = sm2.RawBytesToPublicKey(R) })
	if err != nil {
		return false
	}
	t.Do("CalculateKeyWithConfirmation", func() {
		h.res, err = sm2.CalculateKeyWithConfirmation(h.init, h.bits, tag, p.priv, h.eph, p.id, pub, ep, x.ps[h.peer].id)
	})
	if err != nil {
		h.res = nil
		return false
	}
	if len(h.res.Key) != h.bits/8 {
		x.w.Fail("key-length", "%s: %d bytes for %d bits", p.name, len(h.res.Key), h.bits)
	}
	return true
}

// deliver hands a message to the application, once, and acknowledges it.
func (x *world21) deliver(t *sim.T, p *party21, from int, seq int64, body []byte, how string) {
	w := x.w
	m := x.msgs[fmt.Sprint(from, p.n, seq)]
	if m == nil {
		w.Fail("invented", "%s accepts message %d from party %d, which was never sent", p.name, seq, from)
		return
	}
	if !bytes.Equal(m.body, body) {
		w.Fail("altered", "%s: message %d from party %d arrives by %s as %s, sent was %s", p.name, seq, from, how, sim.Hex(body), sim.Hex(m.body))
	}
	k := fmt.Sprintf("%d/%d", from, seq)
	if !p.got[k] {
		if _, dup := x.read(t, p, "got/"+k); dup {
			w.Fail("twice", "%s would deliver message %d from party %d twice", p.name, seq, from)
		}
		x.write(t, p, "got/"+k, []byte{1})
		x.sync(p)
		p.got[k] = true
		m.delivered++
		w.Probe("delivered-by-" + how)
	}
	d := digest21(t, w.Plan, []byte{ack21}, i64(seq), i64(int64(from)))
	x.rand(t)
	var sig []byte
	var err error
	t.Do("Sign", func() { sig, err = sm2.Sign(p.priv, p.id, d) })
	if err == nil {
		x.send(p, from, x.frame(t, ack21, p.n, seq, sig))
	} else if !t.Rand.Failed {
		w.Fail("refused", "%s: signing: %v", p.name, err)
	}
}
