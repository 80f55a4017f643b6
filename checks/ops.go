package checks

import (
	"bytes"
	"crypto/cipher"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"hash"
	"io"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"gmverif/ref"
	"gmverif/sim"
)

// This file is the library of single operations that C09 runs side by side and
// C10 runs in every order: each operation is a value that can be executed any
// number of times, on its own copies of its arguments or on shared ones, with
// the same randomness, and knows from the reference model what it may return.

// env holds what several callers use and none may modify. Two environments
// made from the same seed are equal and share no memory.
type env struct {
	seed    uint64
	keys    []*key
	pool    []byte
	msgs    [][]byte // adjacent pieces of pool, each with capacity up to its end
	skeys   [][]byte
	blocks  []cipher.Block
	csrJobs []*csrJob
	csrDER  [][]byte
	csrs    []*x509.CertificateRequest
	csrID   [][]byte
	jobs    []*certJob // templates
	wants   []*certJob // what a certificate from template i and the issuer says
	parent  *x509.Certificate
	infos   []*cert.TBSCertificate // info i is for template i and request i%len
	certDER [][]byte
	certs   bool
}

const (
	poolPieces = 5              // pieces that serve as messages
	poolBlocks = poolPieces - 1 // and from here on they are whole blocks; the last two, one each, are keys
)

// newEnv calls gm only to prepare requests, certificates and ciphers.
func newEnv(w *sim.World, t *sim.T, seed uint64, certs bool) *env {
	l := sim.NewLane(seed, nil, false)
	e := &env{seed: seed, certs: certs}
	for i, n := 0, 2+l.N(2); i < n; i++ {
		e.keys = append(e.keys, pickKey(l, realCurve))
	}
	e.pool = l.Sub().Bytes(800)
	off := 0
	for i := 0; i < poolPieces+4; i++ {
		n := 1 + l.N(110)
		if i >= poolBlocks {
			n = 16 * (1 + l.N(4))
		}
		if i >= poolPieces+2 {
			n = 16
		}
		e.msgs = append(e.msgs, e.pool[off:off+n])
		off += n
	}
	for i := 0; i < 2; i++ {
		k := e.msgs[poolPieces+2+i]
		e.skeys = append(e.skeys, k)
		var b cipher.Block
		t.Do("NewCipher", func() { b, _ = sm4.NewCipher(append([]byte(nil), k...)) })
		if b == nil {
			w.Fail("refused", "NewCipher refused a 16-byte key")
		}
		e.blocks = append(e.blocks, b)
	}
	if !certs {
		return e
	}
	g := &certGen{l: l}
	old := t.Rand
	t.Rand = w.NewRand(sim.NewPRNG(seed + 1))
	defer func() { t.Rand = old }()
	for i := 0; i < 2; i++ {
		j := g.csr()
		for j.bad {
			j = g.csr()
		}
		id := pickID(l)
		k := e.keys[i]
		var der []byte
		var c *x509.CertificateRequest
		var err error
		p := t.Try("prepare request", func() {
			if der, err = cert.CreateCertificateRequest(j.tpl, k.pub, k.priv, id); err == nil {
				c, err = cert.ParseCertificateRequest(append([]byte(nil), der...))
			}
		})
		if p != nil || err != nil || c == nil {
			e.certs = false
			return e
		}
		e.csrJobs, e.csrDER, e.csrs, e.csrID = append(e.csrJobs, j), append(e.csrDER, der), append(e.csrs, c), append(e.csrID, id)
	}
	e.parent = &x509.Certificate{Subject: g.name(), SubjectKeyId: l.Sub().Bytes(20)}
	now := time.Date(2025, 3, 4, 5, 6, 7, 0, time.UTC)
	for i := 0; i < 2; i++ {
		var j, want *certJob
		for j == nil || j.bad || want.bad {
			j = g.cert(now)
			j.tpl.SerialNumber = big.NewInt(int64(1 + l.N(1<<30)))
			if !j.bad {
				want = expect(j.tpl, e.parent)
			}
		}
		var info *cert.TBSCertificate
		var der []byte
		var err error
		p := t.Try("prepare certificate", func() {
			if info, err = cert.CreateCertificateInfo(j.tpl, e.parent, e.csrs[i]); err == nil {
				der, err = cert.IssueCertificateBySoftCAKey(info, e.ca().priv, nil)
			}
		})
		if p != nil || err != nil || info == nil {
			e.certs = false
			return e
		}
		e.jobs, e.wants, e.infos, e.certDER = append(e.jobs, j), append(e.wants, want), append(e.infos, info), append(e.certDER, der)
	}
	return e
}

func (e *env) ca() *key { return e.keys[len(e.keys)-1] }

// state describes everything shared.
func (e *env) state() string {
	var b bytes.Buffer
	for _, k := range e.keys {
		b.WriteString(dump(k.priv) + dump(k.pub))
	}
	fmt.Fprintf(&b, "%x", e.pool)
	for _, j := range e.csrJobs {
		b.WriteString(dump(j.tpl))
	}
	for _, j := range e.jobs {
		b.WriteString(dump(j.tpl))
	}
	b.WriteString(dump(e.csrs) + dump(e.parent) + dump(e.infos) + dump(e.csrDER) + dump(e.certDER))
	return b.String()
}

// arg is a byte argument: private content, or piece shared-1 of the pool.
type arg struct {
	b      []byte
	shared int
}

// live is a returned object that the caller keeps.
type live struct {
	name  string
	state func() string
	spoil func() // the caller overwrites it
	// An object in use: what state must be, and that state, which uses it, is
	// to be asked only after the caller has reused the arguments or at the end.
	late string
}

// call is one execution of an operation.
type call struct {
	touched string // a change to memory of the caller outside bufs and objs
	o       *op
	t       *sim.T
	e       *env
	r       *sim.PRNG
	spare   bool // private arguments have spare capacity
	again   *recycle
	slot    int
	nkey    [2]int
	bufs    []*Guard
	objs    []interface{}
	was     []string
	out     []live

	text string // the outcome
	bad  string // what the reference says against it
	pan  *sim.Panic
	err  error
	fail bool // the randomness failed
}

// op is one operation with its arguments and randomness.
type op struct {
	name  string
	rseed uint64
	stall int64
	fails int // 1-based read that fails; 0 none
	failN int
	short int
	uses  bool // consumes randomness
	run   func(c *call)
}

func (o *op) String() string { return o.name }

// recycle is the memory of a caller that passes every call's arguments in the
// same buffers and objects, overwriting what earlier calls were given.
type recycle struct {
	bufs [6][]byte
	priv [2]*sm2.PrivateKey
	pub  [2]*sm2.PublicKey
	csr  x509.CertificateRequest
	req  x509.CertificateRequest
	tpl  x509.Certificate
	info cert.TBSCertificate
}

func newRecycle() *recycle {
	r := &recycle{}
	for i := range r.bufs {
		r.bufs[i] = make([]byte, 1<<14)
	}
	for i := range r.priv {
		r.priv[i] = &sm2.PrivateKey{D: new(big.Int)}
		r.pub[i] = &sm2.PublicKey{X: new(big.Int), Y: new(big.Int)}
	}
	return r
}

// priv, pub and the following hand out keys and certificate data.
func (c *call) priv(i int) *sm2.PrivateKey {
	k := c.e.keys[i]
	if c.again == nil || c.nkey[0] > 1 {
		return k.priv
	}
	p := c.again.priv[c.nkey[0]]
	c.nkey[0]++
	p.D.Set(k.d)
	p.Curve = k.priv.Curve
	c.obj(p)
	return p
}

func (c *call) pub(i int) *sm2.PublicKey {
	k := c.e.keys[i]
	if c.again == nil || c.nkey[1] > 1 {
		return k.pub
	}
	p := c.again.pub[c.nkey[1]]
	c.nkey[1]++
	p.X.Set(k.P.X)
	p.Y.Set(k.P.Y)
	p.Curve = k.pub.Curve
	c.obj(p)
	return p
}

func (c *call) reqTpl(i int) *x509.CertificateRequest {
	if c.again == nil {
		return c.e.csrJobs[i].tpl
	}
	c.again.req = *c.e.csrJobs[i].tpl
	c.obj(&c.again.req)
	return &c.again.req
}

func (c *call) csr(i int) *x509.CertificateRequest {
	if c.again == nil {
		return c.e.csrs[i]
	}
	c.again.csr = *c.e.csrs[i]
	c.obj(&c.again.csr)
	return &c.again.csr
}

func (c *call) tpl(i int) *x509.Certificate {
	if c.again == nil {
		return c.e.jobs[i].tpl
	}
	c.again.tpl = *c.e.jobs[i].tpl
	c.obj(&c.again.tpl)
	return &c.again.tpl
}

func (c *call) info(i int) *cert.TBSCertificate {
	if c.again == nil {
		return c.e.infos[i]
	}
	c.again.info = *c.e.infos[i]
	c.obj(&c.again.info)
	return &c.again.info
}

// do executes the operation once.
func (o *op) do(t *sim.T, e *env, spare, stall bool, again *recycle) *call {
	c := &call{o: o, t: t, e: e, r: sim.NewPRNG(o.rseed ^ 0xabcdef), spare: spare, again: again}
	s := t.W.NewRand(sim.NewPRNG(o.rseed))
	if o.uses {
		s.Short = o.short
		if stall && o.stall > 0 {
			s.Stall, s.StallAt = o.stall, 1
		}
		if o.fails > 0 {
			s.FailAt, s.FailN, s.FailErr = o.fails, o.failN, io.ErrUnexpectedEOF
		}
	}
	old := t.Rand
	t.Rand = s
	o.run(c)
	t.Rand = old
	c.fail = s.Failed
	if c.pan != nil {
		c.text, c.bad = c.pan.Class(), c.pan.String()
	} else if c.err != nil {
		if c.text != "" {
			c.bad = fmt.Sprintf("returned an error and also a result: %v", c.err)
		} else if c.fail {
			c.bad = ""
		}
		c.text = "error " + c.text
	}
	h := ref.SM3([]byte(c.text))
	t.W.Logf("%s: outcome %x", o.name, h[:6])
	return c
}

// gm runs the part of an operation that is gm's.
func (c *call) gm(f func()) bool {
	c.pan = c.t.Try(c.o.name, f)
	return c.pan == nil
}

func (c *call) wrong(f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = fmt.Sprintf(f, a...)
	}
}

// b hands out an argument.
func (c *call) b(a arg) []byte {
	if a.shared > 0 {
		return c.e.msgs[a.shared-1]
	}
	if a.b == nil {
		return nil
	}
	n := 0
	if c.spare {
		n = []int{0, 1, 16, 64, 200}[c.r.N(5)]
	}
	if c.again != nil && c.slot < len(c.again.bufs) {
		m := c.again.bufs[c.slot]
		c.slot++
		if 8+len(a.b)+n+8 <= len(m) {
			g := &Guard{whole: m[: 8+len(a.b)+n+8 : 8+len(a.b)+n+8], lo: 8, hi: 8 + len(a.b), cap: 8 + len(a.b) + n}
			copy(g.whole[8:], a.b)
			g.save = append([]byte(nil), g.whole...)
			c.bufs = append(c.bufs, g)
			return g.whole[g.lo:g.hi:g.cap]
		}
	}
	g, s := guarded(c.r, a.b, n)
	c.bufs = append(c.bufs, g)
	return s
}

// obj watches a private object argument.
func (c *call) obj(v interface{}) {
	c.objs = append(c.objs, v)
	c.was = append(c.was, dump(v))
}

// argsChanged describes a change to the call's private arguments.
func (c *call) argsChanged() string {
	if c.touched != "" {
		return c.touched
	}
	for _, g := range c.bufs {
		if s := g.changed(); s != "" {
			return s
		}
	}
	for i, v := range c.objs {
		if s := dump(v); s != c.was[i] {
			return dumpDiff(c.was[i], s)
		}
	}
	return ""
}

// spoilArgs is the caller reusing its buffers.
func (c *call) spoilArgs(r *sim.PRNG) {
	for _, g := range c.bufs {
		r.Fill(g.whole)
		g.save = append(g.save[:0], g.whole...)
	}
	for i, v := range c.objs {
		switch k := v.(type) {
		case *big.Int:
			spoilInt(k)
		case *sm2.PublicKey:
			spoilInt(k.X)
			spoilInt(k.Y)
		case *sm2.PrivateKey:
			spoilInt(k.D)
		}
		c.was[i] = dump(v)
	}
}

func spoilInt(v *big.Int) {
	b := v.Bits()
	for i := range b {
		b[i] ^= 0x55aa
	}
	if len(b) > 0 && b[len(b)-1] == 0 {
		b[len(b)-1] = 1
	}
}

// bytes keeps a returned slice.
func (c *call) bytes(name string, b []byte) {
	c.text += " " + name + "=" + hex.EncodeToString(b)
	if b == nil {
		c.text += "nil"
	}
	if c.err == nil {
		c.out = append(c.out, live{name, func() string { return hex.EncodeToString(b) }, func() { c.r.Fill(b[:cap(b)]) }, ""})
	}
}

func (c *call) int(name string, v *big.Int) {
	if v == nil {
		c.text += " " + name + "=nil"
		return
	}
	c.text += fmt.Sprintf(" %s=%x", name, v)
	c.out = append(c.out, live{name, func() string { return v.Text(16) }, func() { spoilInt(v) }, ""})
}

func (c *call) val(name string, v interface{}) { c.text += fmt.Sprintf(" %s=%v", name, v) }

// ---- generation ----

type opGen struct {
	l    *sim.Lane
	e    *env
	past [][]byte // what earlier operations were given
	sigs []genSig
	cts  []genCipher
}

type genSig struct {
	ki    int
	id, m arg
	r, s  *big.Int
}

type genCipher struct {
	ki  int
	m   arg
	old bool
	ct  []byte
}

// bytes draws n bytes: random ones, those an earlier operation was given, or
// their near relatives.
func (g *opGen) bytes(n int) []byte {
	b := g.l.Sub().Bytes(n)
	if len(g.past) > 0 && g.l.N(3) == 2 {
		p := g.past[g.l.N(len(g.past))]
		copy(b, p)
		if n > 0 && g.l.N(2) == 1 {
			b[g.l.N(n)] ^= 1 << uint(g.l.N(8))
		}
	}
	if len(g.past) < 40 {
		g.past = append(g.past, b)
	}
	return b
}

func (g *opGen) key() int { return g.l.N(len(g.e.keys)) }

// msg is a message of at least min bytes.
func (g *opGen) msg(min, max int) arg {
	if g.l.N(2) == 0 {
		i := g.l.N(poolPieces)
		if len(g.e.msgs[i]) >= min && len(g.e.msgs[i]) <= max {
			return arg{g.e.msgs[i], i + 1}
		}
	}
	n := g.l.LogSize(max)
	if n < min {
		n = min
	}
	return arg{b: g.bytes(n)}
}

func (g *opGen) id() arg {
	switch g.l.N(4) {
	case 0:
		return arg{}
	case 1:
		return arg{b: []byte{}}
	}
	return g.msg(0, 120)
}

func (g *opGen) typ() (sm2.Sm2CipherTextType, bool) {
	if g.l.N(2) == 0 {
		return sm2.C1C2C3, true
	}
	return sm2.C1C3C2, false
}

func (g *opGen) random(o *op) {
	o.uses = true
	if g.l.P(5) {
		o.fails, o.failN = 1+g.l.N(2), g.l.N(20)
	}
	if g.l.P(6) {
		o.short = 1 + g.l.N(20)
	}
	if g.l.P(4) {
		o.stall = int64(1+g.l.N(500)) * ms
	}
}

func (g *opGen) refSig(k *key, id, msg []byte) (r, s *big.Int) {
	e := ref.E(realCurve.r, sigID(id), k.P, msg)
	for {
		if r, s, ok := ref.SignK(realCurve.r, k.d, randScalar(realCurve, g.l.Sub()), e); ok {
			return r, s
		}
	}
}

func (g *opGen) refCipher(k *key, msg []byte, c1c2c3 bool) []byte {
	for {
		if ct, ok := ref.EncryptK(realCurve.r, k.P, k.d, randScalar(realCurve, g.l.Sub()), msg, c1c2c3); ok {
			return ct
		}
	}
}

// flip damages a copy of b.
func flip(l *sim.Lane, b []byte) []byte {
	c := append([]byte(nil), b...)
	if len(c) == 0 {
		return append(c, 1)
	}
	switch l.N(4) {
	case 0:
		return c[:l.N(len(c))]
	case 1:
		return append(c, byte(l.N(256)))
	}
	i := l.N(8 * len(c))
	c[i/8] ^= 1 << (i % 8)
	return c
}

type opKind struct {
	name  string
	certs bool
	make  func(g *opGen) *op
}

var opKinds = []opKind{
	{"hash", false, opHash}, {"digest", false, opDigest}, {"sign", false, opSign}, {"verify", false, opVerify},
	{"encrypt", false, opEncrypt}, {"decrypt", false, opDecrypt}, {"cipher-form", false, opCipherForm}, {"sign-form", false, opSignForm},
	{"key-form", false, opKeyForm}, {"generate", false, opGenerate}, {"exchange", false, opExchange}, {"block", false, opBlock},
	{"mode", false, opMode}, {"padding", false, opPadding}, {"build", false, opBuild}, {"read", false, opRead}, {"math", false, opMath},
	{"request", true, opRequest}, {"parse-request", true, opParseRequest}, {"issue", true, opIssue}, {"assemble", true, opAssemble}, {"parse-cert", true, opParseCert},
	{"fill", true, opFill},
	{"keep-cipher", false, opKeepCipher}, {"keep-hash", false, opKeepHash}, {"keep-builder", false, opKeepBuilder},
}

func (g *opGen) op(kind int) *op {
	o := opKinds[kind].make(g)
	if o.name == "" {
		o.name = opKinds[kind].name
	}
	o.rseed = uint64(g.l.N(1<<31-1)) + 1
	return o
}

// ---- SM3 ----

func opHash(g *opGen) *op {
	m, m2 := g.msg(0, 300), g.msg(0, 100)
	cut := g.l.N(len(m.b) + 1)
	pre := arg{b: g.l.Sub().Bytes(g.l.N(20))}
	mid := g.l.N(2) == 0
	room := []int{0, 31, 32, 33, 70}[g.l.N(5)]
	return &op{run: func(c *call) {
		a, b, p := c.b(m), c.b(m2), append([]byte(nil), pre.b...)
		p = append(p, bytes.Repeat([]byte{0xA7}, room)...)[:len(p)] // Sum appends to it by contract
		var half, full, other []byte
		if !c.gm(func() {
			h := sm3.New()
			h.Write(a[:cut])
			if mid {
				half = h.Sum(nil)
			}
			h.Write(a[cut:])
			full = h.Sum(p)
			h.Reset()
			h.Write(b)
			other = h.Sum(nil)
		}) {
			return
		}
		if mid {
			c.bytes("half", half)
			if w := ref.SM3(m.b[:cut]); !bytes.Equal(half, w[:]) {
				c.wrong("digest of the first part is %x, want %x", half, w)
			}
		}
		if room > 32 {
			for i, b := range p[:len(p)+room][len(p)+32:] {
				if b != 0xA7 {
					c.touched = fmt.Sprintf("Sum changed byte %d behind the digest it appended", i)
					break
				}
			}
		}
		c.bytes("full", full)
		c.bytes("other", other)
		if w := ref.SM3(m.b); !bytes.Equal(full, append(append([]byte(nil), pre.b...), w[:]...)) {
			c.wrong("digest is %x, want %x", full, w)
		}
		if w := ref.SM3(m2.b); !bytes.Equal(other, w[:]) {
			c.wrong("digest after Reset is %x, want %x", other, w)
		}
	}}
}

func opDigest(g *opGen) *op {
	m := g.msg(0, 300)
	want := ref.SM3(m.b)
	return &op{run: func(c *call) {
		a := c.b(m)
		var d [32]byte
		if c.gm(func() { d = sm3.Sum(a) }) {
			c.bytes("digest", append([]byte(nil), d[:]...))
			if d != want {
				c.wrong("digest is %x, want %x", d, want)
			}
		}
	}}
}

// ---- SM2 ----

func opSign(g *opGen) *op {
	ki, id, m := g.key(), g.id(), g.msg(0, 300)
	toRS := g.l.N(2) == 0
	o := &op{name: "Sign"}
	if toRS {
		o.name = "SignToRS"
	}
	g.random(o)
	o.run = func(c *call) {
		k := c.e.keys[ki]
		priv := c.priv(ki)
		i, a := c.b(id), c.b(m)
		var r, s *big.Int
		if toRS {
			if !c.gm(func() { r, s, c.err = sm2.SignToRS(priv, i, a) }) {
				return
			}
			if c.err != nil && r == nil && s == nil {
				c.wrong("%v", c.err)
				return
			}
			c.int("r", r)
			c.int("s", s)
		} else {
			var sig []byte
			if !c.gm(func() { sig, c.err = sm2.Sign(priv, i, a) }) {
				return
			}
			if c.err != nil && sig == nil {
				c.wrong("%v", c.err)
				return
			}
			c.bytes("sig", sig)
			var e2 error
			if r, s, e2 = ref.ParseSig(sig); e2 != nil {
				c.wrong("signature %x is not DER", sig)
				return
			}
		}
		if !ref.Verify(realCurve.r, k.P, k.d, sigID(id.b), m.b, r, s) {
			c.wrong("signature %x, %x does not verify", r, s)
		}
	}
	return o
}

func opVerify(g *opGen) *op {
	ki, id, m := g.key(), g.id(), g.msg(0, 300)
	var r, s *big.Int
	if n := len(g.sigs); n > 0 && g.l.N(2) == 1 { // one that an earlier operation verifies
		p := g.sigs[g.l.N(n)]
		ki, id, m, r, s = p.ki, p.id, p.m, p.r, p.s
	} else {
		r, s = g.refSig(g.e.keys[ki], id.b, m.b)
		g.sigs = append(g.sigs, genSig{ki, id, m, r, s})
	}
	sig := ref.EncSig(r, s)
	m2 := m
	switch g.l.N(4) {
	case 0:
		sig = flip(g.l, sig)
	case 1:
		m2 = g.msg(0, 300)
	case 2:
		ki = g.key()
	}
	rs := g.l.N(3) == 0
	var want bool
	a, b, err := ref.ParseSig(sig)
	if rs && err != nil {
		a, b = big.NewInt(0), new(big.Int).Set(realCurve.r.N)
	}
	if rs || err == nil {
		want = ref.Verify(realCurve.r, g.e.keys[ki].P, g.e.keys[ki].d, sigID(id.b), m2.b, a, b)
	}
	o := &op{name: "Verify"}
	if rs {
		o.name = "VerifyByRS"
	}
	o.run = func(c *call) {
		pub := c.pub(ki)
		i, x := c.b(id), c.b(m2)
		var got bool
		if rs {
			r, s := new(big.Int).Set(a), new(big.Int).Set(b)
			c.obj(r)
			c.obj(s)
			if !c.gm(func() { got = sm2.VerifyByRS(pub, i, x, r, s) }) {
				return
			}
		} else {
			z := c.b(arg{b: sig})
			if !c.gm(func() { got = sm2.Verify(pub, i, x, z) }) {
				return
			}
		}
		c.val("verdict", got)
		if got != want {
			c.wrong("verdict is %v, want %v", got, want)
		}
	}
	return o
}

func opEncrypt(g *opGen) *op {
	ki, m := g.key(), g.msg(1, 200)
	typ, old := g.typ()
	bad := g.l.P(8)
	o := &op{name: "Encrypt"}
	g.random(o)
	o.run = func(c *call) {
		k := c.e.keys[ki]
		pub := c.pub(ki)
		if bad {
			pub = &sm2.PublicKey{X: new(big.Int).Set(k.P.X), Y: new(big.Int).Add(k.P.Y, one), Curve: k.c.gm}
			c.obj(pub)
		}
		a := c.b(m)
		var ct []byte
		if !c.gm(func() { ct, c.err = sm2.Encrypt(pub, a, typ) }) {
			return
		}
		if c.err != nil && ct == nil {
			if !bad {
				c.wrong("%v", c.err)
			}
			return
		}
		c.bytes("ct", ct)
		if bad {
			return
		}
		got, _, err := ref.Decrypt(realCurve.r, k.d, ct, old)
		if err != nil || !bytes.Equal(got, m.b) {
			c.wrong("ciphertext decrypts to %x (%v), want %x", got, err, m.b)
		}
	}
	return o
}

func opDecrypt(g *opGen) *op {
	ki, m := g.key(), g.msg(1, 200)
	typ, old := g.typ()
	var ct []byte
	if n := len(g.cts); n > 0 && g.l.N(2) == 1 { // one that an earlier operation decrypts
		p := g.cts[g.l.N(n)]
		ki, m, old, ct = p.ki, p.m, p.old, p.ct
		if typ = sm2.C1C3C2; old {
			typ = sm2.C1C2C3
		}
	} else {
		ct = g.refCipher(g.e.keys[ki], m.b, old)
		g.cts = append(g.cts, genCipher{ki, m, old, ct})
	}
	switch g.l.N(5) {
	case 0:
		ct = flip(g.l, ct)
	case 1:
		ki = g.key()
	}
	want, zero, err := ref.Decrypt(realCurve.r, g.e.keys[ki].d, ct, old)
	return &op{name: "Decrypt", run: func(c *call) {
		priv := c.priv(ki)
		a := c.b(arg{b: ct})
		var got []byte
		if !c.gm(func() { got, c.err = sm2.Decrypt(priv, a, typ) }) {
			return
		}
		if c.err != nil && got == nil {
			if err == nil && !zero && len(want) > 0 {
				c.wrong("%v", c.err)
			}
			return
		}
		c.bytes("msg", got)
		if err != nil || !bytes.Equal(got, want) {
			c.wrong("decrypts to %x, want %x (%v)", got, want, err)
		}
	}}
}

func opCipherForm(g *opGen) *op {
	ki, m := g.key(), g.msg(1, 200)
	typ, old := g.typ()
	raw := g.refCipher(g.e.keys[ki], m.b, old)
	der := ref.CipherDER(raw, old)
	in, want, toDER := raw, der, g.l.N(2) == 0
	if !toDER {
		in, want = der, raw
	}
	sure := true
	if g.l.N(5) == 0 {
		in, sure = flip(g.l, in), false
	}
	o := &op{name: "MarshalCipher"}
	if !toDER {
		o.name = "UnmarshalCipher"
	}
	o.run = func(c *call) {
		a := c.b(arg{b: in})
		var got []byte
		if !c.gm(func() {
			if toDER {
				got, c.err = sm2.MarshalCipher(a, typ)
			} else {
				got, c.err = sm2.UnmarshalCipher(a, typ)
			}
		}) {
			return
		}
		if c.err != nil && got == nil {
			if sure {
				c.wrong("%v", c.err)
			}
			return
		}
		c.bytes("out", got)
		if sure && !bytes.Equal(got, want) {
			c.wrong("converts to %x, want %x", got, want)
		}
	}
	return o
}

func opSignForm(g *opGen) *op {
	r, s := randScalar(realCurve, g.l.Sub()), randScalar(realCurve, g.l.Sub())
	der := ref.EncSig(r, s)
	back := g.l.N(2) == 0
	if back && g.l.N(4) == 0 {
		der = flip(g.l, der)
	}
	pr, ps, perr := ref.ParseSig(der)
	o := &op{name: "MarshalSign"}
	if back {
		o.name = "UnmarshalSign"
	}
	o.run = func(c *call) {
		if back {
			in := c.b(arg{b: der})
			var a, b *big.Int
			if !c.gm(func() { a, b, c.err = sm2.UnmarshalSign(in) }) {
				return
			}
			if c.err != nil && a == nil && b == nil {
				if perr == nil {
					c.wrong("%v", c.err)
				}
				return
			}
			c.int("r", a)
			c.int("s", b)
			if perr == nil && (a.Cmp(pr) != 0 || b.Cmp(ps) != 0) {
				c.wrong("decoded %x, %x, want %x, %x", a, b, pr, ps)
			}
			return
		}
		a, b := new(big.Int).Set(r), new(big.Int).Set(s)
		c.obj(a)
		c.obj(b)
		var out []byte
		if !c.gm(func() { out, c.err = sm2.MarshalSign(a, b) }) {
			return
		}
		if c.err != nil && out == nil {
			c.wrong("%v", c.err)
			return
		}
		c.bytes("der", out)
		if !bytes.Equal(out, der) {
			c.wrong("encoded %x, want %x", out, der)
		}
	}
	return o
}

func opKeyForm(g *opGen) *op {
	ki := g.key()
	k := g.e.keys[ki]
	what := g.l.N(6)
	o := &op{name: []string{"RawBytesToPublicKey", "RawBytesToPrivateKey", "GetUnCompressBytes", "PublicKey.GetRawBytes", "PrivateKey.GetRawBytes", "CalculatePubKey"}[what]}
	in := k.raw()
	if what == 1 {
		in = ref.B32(k.d)
	}
	sure := true
	if g.l.N(4) == 0 {
		in, sure = flip(g.l, in), false
	}
	o.run = func(c *call) {
		k := c.e.keys[ki]
		switch what {
		case 0:
			a := c.b(arg{b: in})
			var p *sm2.PublicKey
			if !c.gm(func() { p, c.err = sm2.RawBytesToPublicKey(a) }) {
				return
			}
			if c.err != nil {
				if sure {
					c.wrong("%v", c.err)
				}
				return
			}
			c.int("x", p.X)
			c.int("y", p.Y)
			if sure && (p.X.Cmp(k.P.X) != 0 || p.Y.Cmp(k.P.Y) != 0) {
				c.wrong("another key")
			}
		case 1:
			a := c.b(arg{b: in})
			var p *sm2.PrivateKey
			if !c.gm(func() { p, c.err = sm2.RawBytesToPrivateKey(a) }) {
				return
			}
			if c.err != nil {
				if sure {
					c.wrong("%v", c.err)
				}
				return
			}
			c.int("d", p.D)
			if sure && p.D.Cmp(k.d) != 0 {
				c.wrong("another key")
			}
		case 2, 3, 4:
			var b []byte
			want := k.raw()
			pub, priv := c.pub(ki), c.priv(ki)
			if !c.gm(func() {
				switch what {
				case 2:
					b, want = pub.GetUnCompressBytes(), append([]byte{4}, want...)
				case 3:
					b = pub.GetRawBytes()
				case 4:
					b, want = priv.GetRawBytes(), ref.B32(k.d)
				}
			}) {
				return
			}
			c.bytes("raw", b)
			if !bytes.Equal(b, want) {
				c.wrong("%x, want %x", b, want)
			}
		case 5:
			var p *sm2.PublicKey
			priv := c.priv(ki)
			if !c.gm(func() { p = sm2.CalculatePubKey(priv) }) {
				return
			}
			c.int("x", p.X)
			c.int("y", p.Y)
			if p.X.Cmp(k.P.X) != 0 || p.Y.Cmp(k.P.Y) != 0 {
				c.wrong("another key")
			}
		}
	}
	return o
}

func opGenerate(g *opGen) *op {
	o := &op{name: "GenerateKey"}
	g.random(o)
	o.run = func(c *call) {
		var d *sm2.PrivateKey
		var p *sm2.PublicKey
		if !c.gm(func() { d, p, c.err = sm2.GenerateKey(c.t.Rand) }) {
			return
		}
		if c.err != nil && d == nil && p == nil {
			c.wrong("%v", c.err)
			return
		}
		c.int("d", d.D)
		c.int("x", p.X)
		c.int("y", p.Y)
		if q := realCurve.r.BaseMul(d.D); d.D.Sign() <= 0 || d.D.Cmp(realCurve.r.N) >= 0 || q.X.Cmp(p.X) != 0 || q.Y.Cmp(p.Y) != 0 {
			c.wrong("key %x does not fit (%x, %x)", d.D, p.X, p.Y)
		}
	}
	return o
}

func opExchange(g *opGen) *op {
	self, selfE, other, otherE := g.key(), g.key(), g.key(), g.key()
	init := g.l.N(2) == 0
	sid, oid := g.id(), g.id()
	kl := 1 + g.l.N(70)
	want := ref.Exchange(realCurve.r, init, kl, g.e.keys[self].d, g.e.keys[selfE].d, sid.b, g.e.keys[other].P, g.e.keys[otherE].P, oid.b)
	tag := []byte(nil)
	right := true
	if init {
		tag = want.S1
		if tag == nil || g.l.N(4) == 0 {
			tag, right = flip(g.l, g.l.Sub().Bytes(32)), false
		}
	}
	return &op{name: "CalculateKeyWithConfirmation", run: func(c *call) {
		ds, de, ps, pe := c.priv(self), c.priv(selfE), c.pub(other), c.pub(otherE)
		a, b, s := c.b(sid), c.b(oid), c.b(arg{b: tag})
		var x *sm2.ExchangeResult
		if !c.gm(func() {
			x, c.err = sm2.CalculateKeyWithConfirmation(init, 8*kl, s, ds, de, a, ps, pe, b)
		}) {
			return
		}
		if c.err != nil && x == nil {
			if right && !want.Inf {
				c.wrong("%v", c.err)
			}
			return
		}
		c.bytes("key", x.Key)
		if x.S1 != nil {
			c.bytes("s1", x.S1)
		}
		c.bytes("s2", x.S2)
		if want.Inf || !right || !bytes.Equal(x.Key, want.Key) || !bytes.Equal(x.S2, want.S2) || !init && !bytes.Equal(x.S1, want.S1) {
			c.wrong("key %x, want %x; tags %x %x, want %x %x", x.Key, want.Key, x.S1, x.S2, want.S1, want.S2)
		}
	}}
}

// ---- SM4 and padding ----

func opBlock(g *opGen) *op {
	i := g.l.N(2)
	in := arg{b: g.bytes(16)}
	r := ref.NewSM4(g.e.skeys[i])
	dec, fresh := g.l.N(2) == 0, g.l.N(3) == 0
	want := r.Enc(in.b)
	if dec {
		want = r.Dec(in.b)
	}
	return &op{name: "SM4 block", run: func(c *call) {
		src, dst := c.b(in), make([]byte, 16)
		key := c.b(arg{b: c.e.skeys[i]})
		if !c.gm(func() {
			b := c.e.blocks[i]
			if fresh {
				if b, c.err = sm4.NewCipher(key); c.err != nil {
					return
				}
			}
			if dec {
				b.Decrypt(dst, src)
			} else {
				b.Encrypt(dst, src)
			}
		}) {
			return
		}
		if c.err != nil {
			c.wrong("%v", c.err)
			return
		}
		c.val("out", hex.EncodeToString(dst))
		if !bytes.Equal(dst, want) {
			c.wrong("block %x, want %x", dst, want)
		}
	}}
}

func opMode(g *opGen) *op {
	key, iv := arg{b: g.bytes(16)}, arg{b: g.bytes(16)}
	if g.l.N(2) == 0 { // the same key as others use, perhaps in the same memory
		i := g.l.N(2)
		key.b = g.e.skeys[i]
		if g.l.N(2) == 1 {
			key.shared = poolPieces + 2 + i + 1
		}
	}
	if g.l.N(4) == 3 {
		i := g.l.N(2)
		iv = arg{g.e.skeys[i], poolPieces + 2 + i + 1}
	}
	r := ref.NewSM4(key.b)
	n := 16 * (1 + g.l.N(8))
	good := true
	if g.l.N(8) == 0 {
		n, good = n-1, false
	}
	in := arg{b: g.bytes(n)}
	if good && g.l.N(2) == 1 {
		i := poolBlocks + g.l.N(3)
		in = arg{g.e.msgs[i], i + 1}
	}
	k := g.l.N(4)
	var want []byte
	if good {
		want = [][]byte{r.ECB(in.b, false), r.ECB(in.b, true), r.CBCEnc(iv.b, in.b), r.CBCDec(iv.b, in.b)}[k]
	}
	return &op{name: []string{"ECBEncrypt", "ECBDecrypt", "CBCEncrypt", "CBCDecrypt"}[k], run: func(c *call) {
		a, v, x := c.b(key), c.b(iv), c.b(in)
		var out []byte
		if !c.gm(func() {
			switch k {
			case 0:
				out, c.err = sm4.ECBEncrypt(a, x)
			case 1:
				out, c.err = sm4.ECBDecrypt(a, x)
			case 2:
				out, c.err = sm4.CBCEncrypt(a, v, x)
			case 3:
				out, c.err = sm4.CBCDecrypt(a, v, x)
			}
		}) {
			return
		}
		if c.err != nil && out == nil {
			if good {
				c.wrong("%v", c.err)
			}
			return
		}
		c.bytes("out", out)
		if good && !bytes.Equal(out, want) {
			c.wrong("gives %x, want %x", out, want)
		}
	}}
}

// opKeepCipher makes a cipher that the caller goes on using.
func opKeepCipher(g *opGen) *op {
	key := arg{b: g.bytes(16)}
	x := g.bytes(16)
	r := ref.NewSM4(key.b)
	used, dir := g.l.N(4), 1+g.l.N(3)
	want := func(dir int) (s string) {
		if dir&1 != 0 {
			s += hex.EncodeToString(r.Dec(x))
		}
		if dir&2 != 0 {
			s += " " + hex.EncodeToString(r.Enc(x))
		}
		return
	}
	return &op{name: "NewCipher", run: func(c *call) {
		k := c.b(key)
		var b cipher.Block
		use := func(dir int) (s string) {
			d := make([]byte, 16)
			if dir&1 != 0 {
				b.Decrypt(d, x)
				s += hex.EncodeToString(d)
			}
			if dir&2 != 0 {
				b.Encrypt(d, x)
				s += " " + hex.EncodeToString(d)
			}
			return
		}
		if !c.gm(func() {
			if b, c.err = sm4.NewCipher(k); c.err == nil {
				c.text = use(used)
			}
		}) {
			return
		}
		if c.err != nil || c.text != want(used) {
			c.wrong("%v, %s, want %s", c.err, c.text, want(used))
			return
		}
		c.out = append(c.out, live{"cipher", func() string { return quiet(func() string { return use(dir) }) }, func() {}, want(dir)})
	}}
}

// quiet is f's result, or how it failed.
func quiet(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// opKeepHash starts a digest that the caller continues later.
func opKeepHash(g *opGen) *op {
	m := g.msg(0, 300)
	pre := g.l.N(2) == 0
	var all []byte
	if pre {
		all = append(all, 1, 2, 3)
	}
	all = append(all, m.b...)
	now := g.l.N(2) == 0
	d, d2 := ref.SM3(all), ref.SM3(append(append([]byte(nil), all...), "tail"...))
	return &op{name: "Write", run: func(c *call) {
		a := c.b(m)
		var h hash.Hash
		var out []byte
		if !c.gm(func() {
			h = sm3.New()
			if pre {
				h.Write([]byte{1, 2, 3})
			}
			h.Write(a)
			if now {
				out = h.Sum(nil)
			}
		}) {
			return
		}
		if now {
			c.bytes("digest", out)
			if !bytes.Equal(out, d[:]) {
				c.wrong("digest %x, want %x", out, d)
			}
		}
		// Asked more than once, the tail is there more than once: start over.
		asked := false
		c.out = append(c.out, live{"hash", func() string {
			return quiet(func() string {
				if !asked {
					asked = true
					s := hex.EncodeToString(h.Sum(nil))
					h.Write([]byte("tail"))
					return s + " " + hex.EncodeToString(h.Sum(nil))
				}
				return hex.EncodeToString(d[:]) + " " + hex.EncodeToString(h.Sum(nil))
			})
		}, func() {}, fmt.Sprintf("%x %x", d, d2)})
	}}
}

// opKeepBuilder writes a message that the caller completes later.
func opKeepBuilder(g *opGen) *op {
	b1, b2 := g.msg(0, 60), arg{b: g.l.Sub().Bytes(g.l.N(30))}
	v := new(big.Int).SetBytes(g.l.Sub().Bytes(1 + g.l.N(30)))
	if g.l.N(2) == 0 {
		v.Neg(v)
	}
	tag := asn1.SEQUENCE
	body := append(append(append(append([]byte(nil), b1.b...), ref.Enc(4, b2.b)...), ref.EncInt(v)...), 3, byte(len(b2.b)+1), 0)
	body = append(body, b2.b...)
	want := append(ref.Enc(byte(tag), body), 7)
	return &op{name: "building", run: func(c *call) {
		a, a2 := c.b(b1), c.b(b2)
		n := new(big.Int).Set(v)
		c.obj(n)
		b := cryptobyte.NewBuilder(nil)
		if !c.gm(func() {
			b.AddASN1(tag, func(b *cryptobyte.Builder) {
				b.AddBytes(a)
				b.AddASN1OctetString(a2)
				b.AddASN1BigInt(n)
				b.AddASN1BitString(a2)
			})
		}) {
			return
		}
		done := false
		c.out = append(c.out, live{"builder", func() string {
			return quiet(func() string {
				if !done {
					b.AddUint8(7)
					done = true
				}
				r, err := b.Bytes()
				return fmt.Sprintf("%x %v", r, err)
			})
		}, func() {}, fmt.Sprintf("%x %v", want, error(nil))})
	}}
}

func opPadding(g *opGen) *op {
	m := g.msg(0, 120)
	n := []int{1, 8, 16, 16, 32, 255}[g.l.N(6)]
	k := g.l.N(3)
	pk := append([]byte(nil), m.b...)
	for i := 0; i < n-len(m.b)%n; i++ {
		pk = append(pk, byte(n-len(m.b)%n))
	}
	return &op{name: []string{"PKCS5Padding", "ZeroPadding", "PKCS5UnPadding"}[k], run: func(c *call) {
		var out []byte
		switch k {
		case 0:
			a := c.b(m)
			if !c.gm(func() { out = util.PKCS5Padding(a, n) }) {
				return
			}
			c.bytes("out", out)
			if !bytes.Equal(out, pk) {
				c.wrong("padded to %x, want %x", out, pk)
			}
		case 1:
			a := c.b(m)
			if !c.gm(func() { out = util.ZeroPadding(a, n) }) {
				return
			}
			c.bytes("out", out)
			if len(out)%n != 0 || len(out) < len(m.b) || !bytes.Equal(out[:len(m.b)], m.b) {
				c.wrong("padded to %x", out)
			}
		case 2: // the result is a view of the argument
			a := c.b(arg{b: pk})
			if !c.gm(func() { out = util.PKCS5UnPadding(a) }) {
				return
			}
			c.val("out", hex.EncodeToString(out))
			if !bytes.Equal(out, m.b) {
				c.wrong("unpadded to %x, want %x", out, m.b)
			}
		}
	}}
}

// ---- messages ----

func opBuild(g *opGen) *op {
	tg := &treeGen{l: g.l, left: 1 + g.l.N(10), max: 200, valid: true}
	tree := tg.list(0)
	want, ok := encKids(tree)
	lenient := mayRefuse(tree)
	pre := g.l.N(3)
	return &op{name: "Builder", run: func(c *call) {
		var out []byte
		if !c.gm(func() {
			b := cryptobyte.NewBuilder(nil)
			switch pre {
			case 1:
				b = &cryptobyte.Builder{}
			case 2:
				b = cryptobyte.NewBuilder(make([]byte, 0, 7))
			}
			for _, n := range tree {
				n.add(c.t, b)
			}
			out, c.err = b.Bytes()
		}) {
			return
		}
		if c.err != nil && out == nil {
			if ok && !lenient {
				c.wrong("%v", c.err)
			}
			return
		}
		// Bytes is the builder's own buffer; a finished builder does not use it again.
		c.bytes("out", out)
		if ok && !bytes.Equal(out, want) {
			c.wrong("built %x, want %x", out, want)
		}
	}}
}

// opRead reads a message of random values, each with a fitting read, checking
// results with the model reader of C14.
func opRead(g *opGen) *op {
	tg := &treeGen{l: g.l, left: 1 + g.l.N(8), max: 60, valid: true}
	var in []byte
	var plan []readOp
	for _, n := range flat(sprinkle(g.l, tg.list(0))) {
		e, ok := encKids([]*node{n})
		if !ok {
			continue
		}
		in = append(in, e...)
		plan = append(plan, fitting(g.l, n, e))
	}
	if g.l.N(5) == 0 {
		in = flip(g.l, in)
	}
	return &op{name: "String reads", run: func(c *call) {
		s := cryptobyte.String(c.b(arg{b: in}))
		var got []rd
		if !c.gm(func() {
			for _, o := range plan {
				r := o.gm(&s)
				r.rest = append([]byte(nil), s...)
				got = append(got, r)
				if !r.ok {
					break
				}
			}
		}) {
			return
		}
		b := in
		for i, r := range got {
			m := plan[i].model(b)
			c.text += fmt.Sprintf(" %v", r.ok)
			if r.ok {
				c.text += fmt.Sprintf(" %x %d", r.val, len(r.rest))
			}
			if r.ok != m.ok && !m.either || r.ok && (r.val != m.val || !bytes.Equal(r.rest, m.rest)) {
				c.wrong("%s of %x gives %v %q, want %v %q", plan[i].name, b, r.ok, r.val, m.ok, m.val)
				return
			}
			if !r.ok {
				return
			}
			b = m.rest
		}
	}}
}

func opMath(g *opGen) *op {
	a := new(big.Int).SetBytes(g.l.Sub().Bytes(1 + g.l.N(40)))
	b := new(big.Int).SetBytes(g.l.Sub().Bytes(1 + g.l.N(32)))
	b.Add(b, one)
	k := g.l.N(8)
	n := g.l.N(300)
	want := new(big.Int)
	switch k {
	case 0:
		want.Add(a, b)
	case 1:
		want.Sub(a, b)
	case 2:
		want.Mod(a, b)
	case 3:
		if want.ModInverse(a, b) == nil {
			k = 4
			want = new(big.Int).Mul(a, b)
		}
	case 4:
		want.Mul(a, b)
	case 5:
		want.Lsh(a, uint(n))
	case 6:
		want.SetBit(a, n, 1)
	case 7:
		want.And(a, b)
	}
	return &op{name: "util arithmetic", run: func(c *call) {
		x, y := new(big.Int).Set(a), new(big.Int).Set(b)
		c.obj(x)
		c.obj(y)
		var out *big.Int
		if !c.gm(func() {
			switch k {
			case 0:
				out = util.Add(x, y)
			case 1:
				out = util.Sub(x, y)
			case 2:
				out = util.Mod(x, y)
			case 3:
				out = util.ModInverse(x, y)
			case 4:
				out = util.Mul(x, y)
			case 5:
				out = util.Lsh(x, uint(n))
			case 6:
				out = util.SetBit(x, n, 1)
			case 7:
				out = util.And(x, y)
			}
		}) {
			return
		}
		c.int("out", out)
		if out == nil || out.Cmp(want) != 0 {
			c.wrong("operation %d gives %v, want %v", k, out, want)
		}
	}}
}

// ---- certificates ----

func opRequest(g *opGen) *op {
	ti, ki, id := g.l.N(2), g.key(), g.id()
	o := &op{name: "CreateCertificateRequest"}
	g.random(o)
	o.run = func(c *call) {
		j, k := c.e.csrJobs[ti], c.e.keys[ki]
		a := c.b(id)
		tpl, pub, priv := c.reqTpl(ti), c.pub(ki), c.priv(ki)
		var der []byte
		if !c.gm(func() { der, c.err = cert.CreateCertificateRequest(tpl, pub, priv, a) }) {
			return
		}
		if c.err != nil && der == nil {
			c.wrong("%v", c.err)
			return
		}
		c.bytes("der", der)
		c.bad = checkSigned(der, k, k, id.b)
		if c.bad != "" {
			return
		}
		p, err := x509.ParseCertificateRequest(asP256(k, der))
		if err != nil {
			c.wrong("crypto/x509: %v", err)
			return
		}
		p.PublicKey = k.pub
		if d := j.diff(k, p); d != "" {
			c.wrong("the request has %s", d)
		}
	}
	return o
}

// checkSigned examines the outer structure and signature of a request or
// certificate with the reference model.
func checkSigned(der []byte, holder, signer *key, id []byte) string {
	tree, ok := parseDER(der)
	if !ok || len(tree) != 1 || len(tree[0].kids) != 3 || len(tree[0].kids[2].enc()) < 5 {
		return fmt.Sprintf("%x is not DER", der)
	}
	if !bytes.Contains(der, spki(holder)) {
		return "the public key is another"
	}
	_, bits, _, _, _ := ref.TLV(tree[0].kids[2].enc())
	r, s, err := ref.ParseSig(bits[1:])
	if err != nil || !ref.Verify(realCurve.r, signer.P, signer.d, sigID(id), tree[0].kids[0].enc(), r, s) {
		return "the signature does not verify"
	}
	return ""
}

func opParseRequest(g *opGen) *op {
	ti := g.l.N(2)
	damaged := g.l.N(4) == 0
	der := g.e.csrDER[ti]
	if damaged {
		der = flip(g.l, der)
	}
	shared := !damaged && g.l.N(2) == 0
	check := g.l.N(3)
	return &op{name: "request reading", run: func(c *call) {
		e := c.e
		k := e.keys[ti]
		in := e.csrDER[ti]
		if !shared {
			in = c.b(arg{b: der})
		}
		id := c.b(arg{b: e.csrID[ti]})
		csr := c.csr(ti)
		var p *x509.CertificateRequest
		ok := true
		if !c.gm(func() {
			switch check {
			case 0:
				p, c.err = cert.ParseCertificateRequest(in)
			case 1:
				ok, c.err = cert.VerifyDERCSRSign(in, id)
			case 2:
				ok = cert.VerifyCSRSign(csr, id)
			}
		}) {
			return
		}
		if c.err != nil {
			if !damaged {
				c.wrong("%v", c.err)
			}
			return
		}
		if p != nil {
			c.val("request", dumpVal(p))
			if !damaged {
				if d := e.csrJobs[ti].diff(k, p); d != "" {
					c.wrong("the parsed request has %s", d)
				}
			}
		} else {
			c.val("verdict", ok)
			if !ok && (!damaged || check == 2) {
				c.wrong("the request does not verify")
			}
		}
	}}
}

func opIssue(g *opGen) *op {
	ti := g.l.N(2)
	id := g.id()
	o := &op{name: "certificate issue"}
	g.random(o)
	bad := g.l.N(8) == 0
	o.run = func(c *call) {
		e := c.e
		tpl, csr, ca := c.tpl(ti), c.csr(ti), c.priv(len(e.keys)-1)
		if bad {
			t2 := *tpl
			t2.ExtKeyUsage = []x509.ExtKeyUsage{999}
			t2.ExtraExtensions = nil
			tpl = &t2
		}
		a := c.b(id)
		var info *cert.TBSCertificate
		var der []byte
		if !c.gm(func() {
			if info, c.err = cert.CreateCertificateInfo(tpl, e.parent, csr); c.err == nil {
				der, c.err = cert.IssueCertificateBySoftCAKey(info, ca, a)
			}
		}) {
			return
		}
		if c.err != nil && der == nil {
			if !bad {
				c.wrong("%v", c.err)
			}
			return
		}
		if bad {
			c.wrong("a template with an unknown usage was accepted")
			return
		}
		c.bytes("content", info.Raw)
		c.bytes("der", der)
		c.bad = e.checkCert(ti, der, id.b)
	}
	return o
}

func (e *env) checkCert(ti int, der, id []byte) string {
	k := e.keys[ti]
	if s := checkSigned(der, k, e.ca(), id); s != "" {
		return s
	}
	p, err := x509.ParseCertificate(asP256(k, der))
	if err != nil {
		return fmt.Sprintf("crypto/x509: %v", err)
	}
	if d := e.wants[ti].diff(p); d != "" {
		return "the certificate has " + d
	}
	return ""
}

// opAssemble completes a certificate whose content several callers share.
func opAssemble(g *opGen) *op {
	ti, id := g.l.N(2), g.id()
	soft := g.l.N(2) == 0
	ca := g.e.ca()
	r, s := g.refSig(ca, id.b, g.e.infos[ti].Raw)
	sig := ref.EncSig(r, s)
	o := &op{name: "CreateCertificate"}
	if soft {
		o.name = "IssueCertificateBySoftCAKey"
		g.random(o)
	}
	o.run = func(c *call) {
		e := c.e
		a, b := c.b(id), c.b(arg{b: sig})
		info, ca := c.info(ti), c.priv(len(e.keys)-1)
		var der []byte
		if !c.gm(func() {
			if soft {
				der, c.err = cert.IssueCertificateBySoftCAKey(info, ca, a)
			} else {
				der, c.err = cert.CreateCertificate(info, b)
			}
		}) {
			return
		}
		if c.err != nil && der == nil {
			c.wrong("%v", c.err)
			return
		}
		c.bytes("der", der)
		c.bad = e.checkCert(ti, der, id.b)
	}
	return o
}

func opParseCert(g *opGen) *op {
	ti := g.l.N(2)
	der := g.e.certDER[ti]
	damaged := g.l.N(4) == 0
	if damaged {
		der = flip(g.l, der)
	}
	shared := !damaged && g.l.N(2) == 0
	return &op{name: "ParseCertificate", run: func(c *call) {
		e := c.e
		in := e.certDER[ti]
		if !shared {
			in = c.b(arg{b: der})
		}
		var p *x509.Certificate
		if !c.gm(func() { p, c.err = cert.ParseCertificate(in) }) {
			return
		}
		if c.err != nil {
			if !damaged {
				c.wrong("%v", c.err)
			}
			return
		}
		c.val("cert", dumpVal(p))
		if damaged {
			return
		}
		if d := diffKey(e.keys[ti], p.PublicKey); d != "" {
			c.wrong("%s", d)
		}
		if d := e.wants[ti].diff(p); d != "" {
			c.wrong("the parsed certificate has %s", d)
		}
	}}
}

func opFill(g *opGen) *op {
	ti, jj := g.l.N(2), g.l.N(2)
	from := g.l.N(3) == 2
	return &op{name: "FillCertificateTemplateByCSR", run: func(c *call) {
		e := c.e
		t2 := *e.jobs[jj].tpl
		csr := c.csr(ti)
		if from { // the template has served another request
			o := e.csrs[1-ti]
			t2.Extensions, t2.DNSNames, t2.EmailAddresses, t2.IPAddresses, t2.URIs, t2.Subject = o.Extensions, o.DNSNames, o.EmailAddresses, o.IPAddresses, o.URIs, o.Subject
		}
		if !c.gm(func() { cert.FillCertificateTemplateByCSR(&t2, csr) }) {
			return
		}
		c.text = dumpVal(&t2)
		if d := diffName("filled subject", csr.RawSubject, t2.Subject, csr.RawSubject); d != "" {
			c.wrong("%s", d)
		}
		if d := diffSANs(sans{csr.DNSNames, csr.EmailAddresses, csr.IPAddresses, csr.URIs}, t2.DNSNames, t2.EmailAddresses, t2.IPAddresses, t2.URIs); d != "" {
			c.wrong("template filled from request has %s", d)
		}
	}}
}
