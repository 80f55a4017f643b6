package checks

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"

	"gmverif/ref"
	"gmverif/sim"
)

// spare returns s with spare capacity behind it, as slices that grew by append
// have.
func spare[E any](l *sim.Lane, s []E) []E {
	if s == nil {
		return nil
	}
	out := make([]E, len(s), len(s)+l.N(4))
	copy(out, s)
	return out
}

// subset draws up to max items of a list, in random order.
func subset[E any](l *sim.Lane, all []E, max int) []E {
	n := l.N(max + 1)
	if n == 0 {
		return nil
	}
	var out []E
	for _, i := range perm(l.Sub(), len(all)) {
		if len(out) < n {
			out = append(out, all[i])
		}
	}
	return spare(l, out)
}

func perm(r *sim.PRNG, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var (
	oidSAN         = asn1.ObjectIdentifier{2, 5, 29, 17}
	oidExtReq      = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	oidSM3SM2      = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 501}
	nameStrings    = []string{"test.example.com", "Σ Acme Co", "CN", "Beijing", "北京", "a*b", "a@b", "x&y", "ID=Mock Root CA", "q\"uote", "comma, plus+", " lead", "trail ", "ß", strings.Repeat("long ", 30), "0", "tab\there"}
	dnsStrings     = []string{"test.example.com", "example.com", "*.example.org", "a.b.c.d.e.f", "localhost", "xn--bcher-kva.example", strings.Repeat("l", 60) + ".example", "absolute.example.", "_srv._tcp.example.com", "Mixed.Example", "host", "1.2.3.4", strings.Repeat("l.", 120) + "x"}
	emailStrings   = []string{"gopher@golang.org", "a@b.c", "first.last@example.com", "o'brien+tag@example.net", "\"quo ted\"@example.com", "A@B.C", "root@localhost"}
	uriStrings     = []string{"https://foo.com/wibble#foo", "http://example.com:8080/a?b=c", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "ldap://ldap.example.com/cn=x", "spiffe://trust/workload", "http://[2001:db8::1]:8080/x", "https://us%20er:pw@host.example/p%20a;b/?q=%2F&r=1#fr%20ag", "mailto:a@b.c", "http://host/?", "file:///etc/x", "HTTP://UPPER.example/A"}
	ipv4s          = []net.IP{{127, 0, 0, 1}, {10, 1, 2, 3}, {255, 255, 255, 255}, {0, 0, 0, 0}}
	ipv6s          = []net.IP{net.ParseIP("2001:4860:0:2001::68"), net.ParseIP("::1"), net.ParseIP("fe80::1"), net.ParseIP("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff")}
	urlStrings     = []string{"http://crl1.example.com/ca1.crl", "http://crl2.example.com/ca1.crl", "ldap://x/y", "http://ocsp.example.com", "http://crt.example.com/ca1.crt", "http://e/" + strings.Repeat("p", 130)}
	constraintDNS  = []string{".example.com", "example.com", "foo.bar", "", "a.b.c"}
	constraintMail = []string{"example.com", ".example.com", "user@host.com", "\"quo ted\"@host.com", "a!b@x.y"}
	constraintURI  = []string{".bar.com", "bar.com", "x.y.z"}
)

var freeOIDs = []asn1.ObjectIdentifier{{1, 2, 3, 4}, {1, 2, 3, 5}, {2, 59, 1}, {2, 5, 29, 99}, {1, 3, 6, 1, 4, 1, 99999, 1}, {2, 999, 1 << 27}, {0, 9, 2342}, {2, 5, 29, 98}, {1, 2, 840, 113549, 1, 9, 15}, {2, 5, 4, 97}}

type certGen struct {
	l      *sim.Lane
	strict bool // only what crypto/x509 accepts as well
	bad    bool // must be refused at creation
}

// strs draws strings like those of all: some altered, in another case, repeated,
// and now and then many of them.
func (g *certGen) strs(all []string, max int) []string {
	l := g.l
	out := subset(l, all, max)
	if len(out) > 0 && l.P(12) {
		for n := l.N(40); n > 0; n-- {
			out = append(out, all[l.N(len(all))])
		}
	}
	if len(out) == 0 || !l.P(3) {
		return out
	}
	for i := range out {
		switch l.W(4, 3, 2, 2) {
		case 1:
			out[i] = letters(out[i], l.Sub())
		case 2:
			out[i] = recase(out[i], l.Sub())
		case 3:
			out[i] = out[l.N(i+1)]
			if l.N(2) == 0 {
				out[i] = recase(out[i], l.Sub())
			}
		}
	}
	return out
}

// letters replaces some of the letters, recase their case.
func letters(s string, r *sim.PRNG) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && r.N(2) == 0 {
			b[i] = 'a' + byte(r.N(26))
		}
	}
	return string(b)
}

func recase(s string, r *sim.PRNG) string {
	b := []byte(s)
	all := r.N(2) == 0
	for i, c := range b {
		if (c|32) >= 'a' && (c|32) <= 'z' && (all || r.N(3) == 0) {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

func (g *certGen) name() pkix.Name {
	l := g.l
	var n pkix.Name
	if l.P(8) {
		return n
	}
	one := func() string {
		if l.N(3) == 0 {
			return ""
		}
		return nameStrings[l.N(len(nameStrings))]
	}
	n.CommonName = one()
	for _, f := range []*[]string{&n.Country, &n.Organization, &n.OrganizationalUnit, &n.Locality, &n.Province, &n.StreetAddress, &n.PostalCode} {
		switch l.W(5, 3, 1) {
		case 1:
			*f = spare(l, []string{nameStrings[l.N(len(nameStrings))]})
		case 2:
			*f = g.strs(nameStrings, 3)
		}
	}
	if l.N(3) == 0 {
		n.SerialNumber = one()
	}
	if l.N(4) == 0 {
		n.ExtraNames = spare(l, []pkix.AttributeTypeAndValue{
			{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: "mail@example.com"},
			{Type: freeOIDs[l.N(len(freeOIDs))], Value: nameStrings[l.N(len(nameStrings))]},
			{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "second common name"},
		}[l.N(3):])
	}
	if l.N(4) == 0 { // ignored on output
		n.Names = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "not me"}}
	}
	return n
}

func (g *certGen) ips() []net.IP {
	l := g.l
	var out []net.IP
	for i, n := 0, l.N(4); i < n; i++ {
		switch l.N(3) {
		case 0:
			out = append(out, append(net.IP(nil), ipv4s[l.N(len(ipv4s))]...))
		case 1:
			out = append(out, append(net.IP(nil), ipv6s[l.N(len(ipv6s))]...))
		case 2: // IPv4 in its 16-byte form
			out = append(out, append(net.IP(nil), ipv4s[l.N(len(ipv4s))].To16()...))
		}
	}
	return spare(l, out)
}

func (g *certGen) uris() []*url.URL {
	var out []*url.URL
	for _, s := range g.strs(uriStrings, 2) {
		if u, err := url.Parse(s); err == nil {
			out = append(out, u)
		}
	}
	return spare(g.l, out)
}

type sans struct {
	dns, mail []string
	ip        []net.IP
	uri       []*url.URL
}

func (s sans) empty() bool { return len(s.dns)+len(s.mail)+len(s.ip)+len(s.uri) == 0 }

func (g *certGen) sans() sans {
	var s sans
	if g.l.N(3) == 0 {
		return s
	}
	s.dns = g.strs(dnsStrings, 3)
	s.mail = g.strs(emailStrings, 2)
	if g.l.N(2) == 0 {
		s.ip = g.ips()
	}
	if g.l.N(3) == 0 {
		s.uri = g.uris()
	}
	return s
}

// encSAN is the model encoding of alternative names.
func encSAN(s sans) []byte {
	var b []byte
	for _, v := range s.dns {
		b = append(b, ref.Enc(0x82, []byte(v))...)
	}
	for _, v := range s.mail {
		b = append(b, ref.Enc(0x81, []byte(v))...)
	}
	for _, v := range s.ip {
		if x := v.To4(); x != nil {
			v = x
		}
		b = append(b, ref.Enc(0x87, v)...)
	}
	for _, v := range s.uri {
		b = append(b, ref.Enc(0x86, []byte(v.String()))...)
	}
	return ref.Enc(0x30, b)
}

// extras draws explicit extensions; one may replace the alternative names, and
// then over tells what they are.
func (g *certGen) extras() (out []pkix.Extension, over *sans) {
	l := g.l
	if l.N(2) == 0 {
		return nil, nil
	}
	for _, id := range subset(l, freeOIDs, 4) {
		out = append(out, pkix.Extension{Id: id, Critical: l.N(3) == 0, Value: spare(l, l.Sub().Bytes(pickLen(l, 200)))})
	}
	if l.N(3) == 0 {
		s := g.sans()
		if s.empty() {
			s.dns = []string{"override.example"}
		}
		over = &s
		e := pkix.Extension{Id: oidSAN, Critical: l.N(2) == 0, Value: spare(l, encSAN(s))}
		i := l.N(len(out) + 1)
		out = append(out[:i], append([]pkix.Extension{e}, out[i:]...)...)
	}
	return spare(l, out), over
}

func (g *certGen) attrValue() interface{} {
	l := g.l
	switch l.N(6) {
	case 0:
		return nameStrings[l.N(len(nameStrings))]
	case 1:
		return l.N(1000) - 500
	case 2:
		return l.Sub().Bytes(l.N(20))
	case 3:
		return freeOIDs[l.N(len(freeOIDs))]
	case 4:
		return time.Date(2001+l.N(40), 5, 6, 7, 8, 9, 0, time.UTC)
	}
	return "plain"
}

// csrJob is one requested certificate request, with what it must say.
type csrJob struct {
	tpl     *x509.CertificateRequest
	bad     bool // creation must fail
	strict  bool
	subject []byte // expected DER
	exts    []pkix.Extension
	names   sans
	attrs   []pkix.AttributeTypeAndValueSET
	// The template has an attribute for extensions without any.
	emptyReq bool
}

func (g *certGen) csr() *csrJob {
	l := g.l
	t := &x509.CertificateRequest{Subject: g.name()}
	j := &csrJob{tpl: t, strict: true}
	s := g.sans()
	t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = s.dns, s.mail, s.ip, s.uri
	var over *sans
	t.ExtraExtensions, over = g.extras()
	// Attributes, one of which may itself ask for extensions.
	reqAt := -1
	var asked []pkix.AttributeTypeAndValue
	if l.N(2) == 0 {
		for i, n := 0, l.N(4); i < n; i++ {
			a := pkix.AttributeTypeAndValueSET{Type: freeOIDs[l.N(len(freeOIDs))]}
			for k, m := 0, 1+l.N(2); k < m; k++ {
				var set []pkix.AttributeTypeAndValue
				for q, z := 0, 1+l.N(2); q < z; q++ {
					set = append(set, pkix.AttributeTypeAndValue{Type: freeOIDs[l.N(len(freeOIDs))], Value: g.attrValue()})
				}
				a.Value = append(a.Value, spare(l, set))
			}
			a.Value = spare(l, a.Value)
			t.Attributes = append(t.Attributes, a)
		}
		if l.N(2) == 0 {
			for _, id := range subset(l, freeOIDs, 3) {
				asked = append(asked, pkix.AttributeTypeAndValue{Type: id, Value: l.Sub().Bytes(l.N(30))})
			}
			if l.N(3) == 0 {
				s := g.sans()
				if s.empty() {
					s.dns = []string{"attribute.example"}
				}
				over = &s
				asked = append(asked, pkix.AttributeTypeAndValue{Type: oidSAN, Value: encSAN(s)})
			}
			if len(asked) > 0 {
				asked = spare(l, asked)
				reqAt = l.N(len(t.Attributes) + 1)
				a := pkix.AttributeTypeAndValueSET{Type: oidExtReq, Value: spare(l, [][]pkix.AttributeTypeAndValue{asked})}
				t.Attributes = append(t.Attributes[:reqAt], append([]pkix.AttributeTypeAndValueSET{a}, t.Attributes[reqAt:]...)...)
			} else if l.P(30) {
				// An attribute for extensions that asks for none.
				t.Attributes = append(t.Attributes, pkix.AttributeTypeAndValueSET{Type: oidExtReq})
				j.strict = false
				j.emptyReq = true
			}
		}
		t.Attributes = spare(l, t.Attributes)
	}
	// What the request must say.
	specified := map[string]bool{}
	for _, a := range asked {
		specified[a.Type.String()] = true
		j.exts = append(j.exts, pkix.Extension{Id: a.Type, Value: a.Value.([]byte)})
	}
	var add []pkix.Extension
	haveSAN := false
	for _, e := range t.ExtraExtensions {
		haveSAN = haveSAN || e.Id.Equal(oidSAN)
	}
	if !s.empty() && !haveSAN {
		add = append(add, pkix.Extension{Id: oidSAN, Value: encSAN(s)})
	}
	for _, e := range t.ExtraExtensions {
		add = append(add, pkix.Extension{Id: e.Id, Value: e.Value})
	}
	for _, e := range add {
		if !specified[e.Id.String()] {
			j.exts = append(j.exts, e)
		}
	}
	if over != nil {
		j.names = *over
	} else {
		j.names = s
	}
	for i, a := range t.Attributes {
		if i != reqAt && !a.Type.Equal(oidExtReq) {
			j.attrs = append(j.attrs, a)
		}
	}
	if l.P(25) {
		switch l.N(3) {
		case 0:
			t.Subject.CommonName, t.Subject.ExtraNames = "bad \xff", nil
		case 1:
			t.Attributes = append(t.Attributes, pkix.AttributeTypeAndValueSET{Type: freeOIDs[0], Value: [][]pkix.AttributeTypeAndValue{{{Type: freeOIDs[1], Value: make(chan int)}}}})
		case 2:
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{7, 8}, Value: []byte{1}})
		}
		j.bad = true
		return j
	}
	b, err := asn1.Marshal(t.Subject.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	if l.P(6) {
		t.RawSubject = spare(l, b)
		t.Subject = pkix.Name{CommonName: "ignored because of RawSubject"}
	}
	j.subject = b
	return j
}

func parsedName(der []byte) (n pkix.Name) {
	var rdn pkix.RDNSequence
	if _, err := asn1.Unmarshal(der, &rdn); err != nil {
		panic(err)
	}
	n.FillFromRDNSequence(&rdn)
	return n
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameSet compares without regard to order: values of one RDN are a set.
func sameSet(a, b []string) bool {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return sameStrings(x, y)
}

func sameIPs(a, b []net.IP) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(b[i]) {
			return false
		}
	}
	return true
}

func uriList(us []*url.URL) (out []string) {
	for _, u := range us {
		out = append(out, u.String())
	}
	return
}

func diffSANs(want sans, dns, mail []string, ip []net.IP, uri []*url.URL) string {
	switch {
	case !sameStrings(want.dns, dns):
		return fmt.Sprintf("DNS names %q, want %q", dns, want.dns)
	case !sameStrings(want.mail, mail):
		return fmt.Sprintf("mail addresses %q, want %q", mail, want.mail)
	case !sameIPs(want.ip, ip):
		return fmt.Sprintf("IP addresses %v, want %v", ip, want.ip)
	case !sameStrings(uriList(want.uri), uriList(uri)):
		return fmt.Sprintf("URIs %q, want %q", uriList(uri), uriList(want.uri))
	}
	return ""
}

// diffName compares a parsed name with the DER it must have come from.
func diffName(what string, der []byte, got pkix.Name, raw []byte) string {
	if !bytes.Equal(raw, der) {
		return fmt.Sprintf("%s is %x, want %x", what, raw, der)
	}
	if want := parsedName(der); !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s is %+v, want %+v", what, got, want)
	}
	return ""
}

// diffExts compares extensions as a set of id, value and, for certificates,
// the critical flag: their order is not part of the promise.
func diffExts(want, got []pkix.Extension, critical bool) string {
	key := func(e pkix.Extension) string {
		s := fmt.Sprintf("%s=%x", e.Id, e.Value)
		if critical && e.Critical {
			s += "!"
		}
		return s
	}
	var a, b []string
	for _, e := range want {
		a = append(a, key(e))
	}
	for _, e := range got {
		b = append(b, key(e))
	}
	if !sameSet(a, b) {
		return fmt.Sprintf("extensions %q, want %q", b, a)
	}
	return ""
}

func diffKey(k *key, pub interface{}) string {
	p, ok := pub.(*sm2.PublicKey)
	if !ok || p == nil || p.X == nil || p.Y == nil {
		return fmt.Sprintf("public key is %T", pub)
	}
	if p.X.Cmp(k.P.X) != 0 || p.Y.Cmp(k.P.Y) != 0 {
		return fmt.Sprintf("public key is %x,%x, want %x,%x", p.X, p.Y, k.P.X, k.P.Y)
	}
	return ""
}

// diff compares a parsed request with what was asked for.
func (j *csrJob) diff(k *key, c *x509.CertificateRequest) string {
	if d := diffName("subject", j.subject, c.Subject, c.RawSubject); d != "" {
		return d
	}
	if d := diffKey(k, c.PublicKey); d != "" {
		return d
	}
	if d := diffExts(j.exts, c.Extensions, false); d != "" {
		return d
	}
	if d := diffSANs(j.names, c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs); d != "" {
		return d
	}
	if c.Version != 0 {
		return fmt.Sprintf("version %d", c.Version)
	}
	var rest []pkix.AttributeTypeAndValueSET
	n := 0
	for _, a := range c.Attributes {
		if a.Type.Equal(oidExtReq) {
			n++
		} else {
			rest = append(rest, a)
		}
	}
	if n > 1 && !j.emptyReq || n > 2 || n == 0 && len(j.exts) > 0 {
		return fmt.Sprintf("%d extension request attributes", n)
	}
	a, err1 := asn1.Marshal(j.attrs)
	b, err2 := asn1.Marshal(rest)
	if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
		return fmt.Sprintf("attributes %v, want %v", rest, j.attrs)
	}
	return ""
}

// ---- certificates ----

type certJob struct {
	tpl      *x509.Certificate
	bad      bool
	strict   bool
	want     *x509.Certificate
	subject  []byte
	names    sans
	unhandld []string
	extra    []pkix.Extension
	version  int // 0 is 3
}

func (g *certGen) ipnets() []*net.IPNet {
	l := g.l
	var out []*net.IPNet
	for i, n := 0, l.N(3); i < n; i++ {
		switch l.N(3) {
		case 0:
			out = append(out, &net.IPNet{IP: append(net.IP(nil), ipv4s[l.N(4)]...), Mask: net.CIDRMask(l.N(33), 32)})
		case 1:
			out = append(out, &net.IPNet{IP: append(net.IP(nil), ipv6s[l.N(4)]...), Mask: net.CIDRMask(l.N(129), 128)})
		case 2:
			out = append(out, &net.IPNet{IP: append(net.IP(nil), ipv4s[l.N(4)].To16()...), Mask: net.CIDRMask(l.N(33), 32)})
		}
	}
	return spare(l, out)
}

var allEKU = []x509.ExtKeyUsage{x509.ExtKeyUsageAny, x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageCodeSigning,
	x509.ExtKeyUsageEmailProtection, x509.ExtKeyUsageIPSECEndSystem, x509.ExtKeyUsageIPSECTunnel, x509.ExtKeyUsageIPSECUser, x509.ExtKeyUsageTimeStamping,
	x509.ExtKeyUsageOCSPSigning, x509.ExtKeyUsageMicrosoftServerGatedCrypto, x509.ExtKeyUsageNetscapeServerGatedCrypto,
	x509.ExtKeyUsageMicrosoftCommercialCodeSigning, x509.ExtKeyUsageMicrosoftKernelCodeSigning}

// instant draws a validity limit around the simulated clock reading now.
func (g *certGen) instant(now time.Time) time.Time {
	l := g.l
	t := now
	switch l.N(5) {
	case 0: // at the edges of the two time forms
		t = []time.Time{time.Date(1949, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC),
			time.Date(2000, 2, 29, 12, 0, 0, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC)}[l.N(8)]
	case 1:
		t = t.AddDate(l.N(60), l.N(12), l.N(31))
	case 2:
		t = t.Add(-time.Duration(l.N(1 << 30)))
	}
	if l.N(3) == 0 {
		t = t.Add(time.Duration(l.N(999999999)))
	}
	if l.N(2) == 0 {
		t = t.In(time.FixedZone("z", 60*l.Range(-14*60, 14*60)))
	}
	return t
}

// cert draws a template. Subject and names may be left for the request to fill.
func (g *certGen) cert(now time.Time) *certJob {
	l := g.l
	t := &x509.Certificate{}
	j := &certJob{tpl: t, strict: true}
	switch l.N(6) {
	case 0:
		t.SerialNumber = big.NewInt(int64(l.N(300)) - 20)
	case 1:
		t.SerialNumber = new(big.Int).Lsh(one, uint(l.N(160)))
		if l.N(2) == 0 {
			t.SerialNumber.Sub(t.SerialNumber, one)
		}
	case 2:
		t.SerialNumber = new(big.Int).Neg(new(big.Int).Lsh(one, uint(l.N(160))))
	default:
		t.SerialNumber = new(big.Int).SetBytes(l.Sub().Bytes(1 + l.N(20)))
	}
	if t.SerialNumber.Sign() <= 0 {
		j.strict = false
	}
	t.NotBefore, t.NotAfter = g.instant(now), g.instant(now)
	if l.N(3) > 0 {
		t.KeyUsage = x509.KeyUsage(l.N(512))
		if l.N(2) == 0 {
			t.KeyUsage = 1 << l.N(9)
		}
	}
	if l.N(2) == 0 {
		t.ExtKeyUsage = subset(l, allEKU, 4)
		t.UnknownExtKeyUsage = subset(l, freeOIDs, 2)
		if l.N(4) == 0 {
			t.UnknownExtKeyUsage = append(t.UnknownExtKeyUsage[:len(t.UnknownExtKeyUsage):len(t.UnknownExtKeyUsage)], nearOID(l, ekuOIDs))
		}
	}
	if l.N(2) == 0 {
		t.BasicConstraintsValid = true
		t.IsCA = l.N(2) == 0
		if t.IsCA {
			switch l.N(4) {
			case 0:
				t.MaxPathLenZero = true
			case 1:
				t.MaxPathLen = 1 + l.N(300)
				if l.N(4) == 0 {
					t.MaxPathLen = 1<<l.N(31) - l.N(2)
				}
			case 2:
				t.MaxPathLen = -1
			}
		}
	}
	if l.N(2) == 0 {
		t.SubjectKeyId = spare(l, l.Sub().Bytes(l.LogSize(300)))
	}
	if l.N(2) == 0 {
		t.AuthorityKeyId = spare(l, l.Sub().Bytes(l.LogSize(300)))
	}
	if l.N(3) == 0 {
		t.OCSPServer = g.strs(urlStrings, 2)
	}
	if l.N(3) == 0 {
		t.IssuingCertificateURL = g.strs(urlStrings, 2)
	}
	if l.N(3) == 0 {
		t.CRLDistributionPoints = g.strs(urlStrings, 3)
	}
	if l.N(3) == 0 {
		t.PolicyIdentifiers = subset(l, freeOIDs, 3)
		if len(t.PolicyIdentifiers) > 0 && l.P(6) {
			for n := l.N(30); n >= 0; n-- {
				t.PolicyIdentifiers = append(t.PolicyIdentifiers, append(append(asn1.ObjectIdentifier(nil), freeOIDs[l.N(len(freeOIDs))]...), n, l.LogSize(1<<27)))
			}
		}
	}
	if l.N(3) == 0 {
		t.PermittedDNSDomains = g.strs(constraintDNS, 2)
		t.ExcludedDNSDomains = g.strs(constraintDNS, 2)
		t.PermittedIPRanges = g.ipnets()
		t.ExcludedIPRanges = g.ipnets()
		t.PermittedEmailAddresses = g.strs(constraintMail, 2)
		t.ExcludedEmailAddresses = g.strs(constraintMail, 2)
		t.PermittedURIDomains = g.strs(constraintURI, 2)
		t.ExcludedURIDomains = g.strs(constraintURI, 1)
		t.PermittedDNSDomainsCritical = l.N(2) == 0
	}
	t.Subject = g.name()
	s := g.sans()
	t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = s.dns, s.mail, s.ip, s.uri
	g.certExtras(t, j)
	if l.P(25) {
		j.bad = true
		switch l.N(7) {
		case 0:
			t.SerialNumber = nil
		case 1:
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny, 1000}
		case 2:
			t.PermittedDNSDomains, t.ExtraExtensions = []string{"b\u00fccher.example"}, nil
		case 3:
			t.ExcludedEmailAddresses, t.ExtraExtensions = []string{"b\u00fccher@example.com"}, nil
		case 4:
			t.PolicyIdentifiers, t.ExtraExtensions = []asn1.ObjectIdentifier{{9, 9, 9}}, nil
		case 5:
			t.UnknownExtKeyUsage, t.ExtraExtensions = []asn1.ObjectIdentifier{{1}}, nil
		case 6:
			t.NotAfter = time.Date(10000, 1, 1, 12, 0, 0, 0, time.UTC)
		}
	}
	return j
}

// certExtras adds explicit extensions, some of which replace built-in ones.
func (g *certGen) certExtras(t *x509.Certificate, j *certJob) {
	t.ExtraExtensions, _ = g.extras()
	if g.l.N(4) == 0 {
		// An explicit key usage: digitalSignature and decipherOnly.
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Value: []byte{3, 3, 7, 0x80, 0x80}})
	}
}

// handled are the extensions a parsed certificate has fields for.
func handled(id asn1.ObjectIdentifier) bool {
	s := id.String()
	for _, n := range []string{"2.5.29.14", "2.5.29.15", "2.5.29.17", "2.5.29.19", "2.5.29.30", "2.5.29.31", "2.5.29.32", "2.5.29.35", "2.5.29.37", "1.3.6.1.5.5.7.1.1"} {
		if s == n {
			return true
		}
	}
	return false
}

// expect works out what an issued certificate must say.
func expect(tpl, parent *x509.Certificate) *certJob {
	c := *tpl
	j := &certJob{tpl: tpl, want: &c, strict: true}
	der := func(t *x509.Certificate) []byte {
		if len(t.RawSubject) > 0 {
			return append([]byte(nil), t.RawSubject...)
		}
		b, err := asn1.Marshal(t.Subject.ToRDNSequence())
		if err != nil {
			return nil
		}
		return b
	}
	j.subject = der(tpl)
	c.RawIssuer = der(parent)
	c.RawSubject = j.subject
	if len(c.RawIssuer) == 0 || len(c.RawSubject) == 0 {
		j.bad = true
		return j
	}
	if !bytes.Equal(j.subject, c.RawIssuer) && len(parent.SubjectKeyId) > 0 {
		c.AuthorityKeyId = parent.SubjectKeyId
	}
	j.names = sans{tpl.DNSNames, tpl.EmailAddresses, tpl.IPAddresses, tpl.URIs}
	if c.MaxPathLen == 0 && !c.MaxPathLenZero {
		c.MaxPathLen = -1
	}
	c.MaxPathLenZero = c.MaxPathLen == 0
	if !c.BasicConstraintsValid {
		c.IsCA, c.MaxPathLen, c.MaxPathLenZero = false, 0, false
	}
	c.SerialNumber = new(big.Int).Set(tpl.SerialNumber)
	if len(c.PermittedDNSDomains)+len(c.ExcludedDNSDomains)+len(c.PermittedIPRanges)+len(c.ExcludedIPRanges)+len(c.PermittedEmailAddresses)+
		len(c.ExcludedEmailAddresses)+len(c.PermittedURIDomains)+len(c.ExcludedURIDomains) == 0 {
		c.PermittedDNSDomainsCritical = false
	}
	for _, e := range tpl.ExtraExtensions {
		j.extra = append(j.extra, pkix.Extension{Id: e.Id, Critical: e.Critical, Value: append([]byte(nil), e.Value...)})
		switch {
		case e.Id.Equal(oidSAN):
			j.names = decodeSAN(e.Value)
		case e.Id.String() == "2.5.29.15":
			c.KeyUsage = 1 | 1<<8
		case e.Critical && !handled(e.Id):
			j.unhandld = append(j.unhandld, e.Id.String())
		}
	}
	return j
}

// decodeSAN reads back an encoding made by encSAN.
func decodeSAN(b []byte) (s sans) {
	_, c, _, _, err := ref.TLV(b)
	for len(c) > 0 && err == nil {
		var tag byte
		var v []byte
		tag, v, _, c, err = ref.TLV(c)
		switch tag {
		case 0x82:
			s.dns = append(s.dns, string(v))
		case 0x81:
			s.mail = append(s.mail, string(v))
		case 0x87:
			s.ip = append(s.ip, net.IP(v))
		case 0x86:
			u, err := url.Parse(string(v))
			if err != nil {
				panic(err)
			}
			s.uri = append(s.uri, u)
		}
	}
	return s
}

func oidList(o []asn1.ObjectIdentifier) (out []string) {
	for _, x := range o {
		out = append(out, x.String())
	}
	return
}

func netList(ns []*net.IPNet) (out []string) {
	for _, n := range ns {
		ip := n.IP
		if len(n.Mask) == 4 {
			ip = ip.To4()
		}
		ones, bits := n.Mask.Size()
		out = append(out, fmt.Sprintf("%x/%d of %d", []byte(ip.Mask(n.Mask)), ones, bits))
	}
	return
}

func sameInstant(a, b time.Time) bool { return a.Unix() == b.Unix() }

// diff compares a parsed certificate with what was to be issued. It also works
// on what crypto/x509 makes of it, except for the key.
func (j *certJob) diff(c *x509.Certificate) string {
	w := j.want
	if d := diffName("subject", j.subject, c.Subject, c.RawSubject); d != "" {
		return d
	}
	if d := diffName("issuer", w.RawIssuer, c.Issuer, c.RawIssuer); d != "" {
		return d
	}
	if c.SerialNumber == nil || c.SerialNumber.Cmp(w.SerialNumber) != 0 {
		return fmt.Sprintf("serial number %v, want %v", c.SerialNumber, w.SerialNumber)
	}
	if !sameInstant(c.NotBefore, w.NotBefore) || !sameInstant(c.NotAfter, w.NotAfter) {
		return fmt.Sprintf("validity %v to %v, want %v to %v", c.NotBefore, c.NotAfter, w.NotBefore, w.NotAfter)
	}
	if v := j.version; c.Version != v && (v != 0 || c.Version != 3) {
		return fmt.Sprintf("version %d", c.Version)
	}
	if d := diffSANs(j.names, c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs); d != "" {
		return d
	}
	eku := func(u []x509.ExtKeyUsage) (out []string) {
		for _, x := range u {
			out = append(out, fmt.Sprint(int(x)))
		}
		return
	}
	for _, f := range []struct {
		what      string
		got, want []string
	}{
		{"extended key usages", eku(c.ExtKeyUsage), eku(w.ExtKeyUsage)},
		{"unknown extended key usages", oidList(c.UnknownExtKeyUsage), oidList(w.UnknownExtKeyUsage)},
		{"OCSP servers", c.OCSPServer, w.OCSPServer},
		{"issuer URLs", c.IssuingCertificateURL, w.IssuingCertificateURL},
		{"CRL URLs", c.CRLDistributionPoints, w.CRLDistributionPoints},
		{"policies", oidList(c.PolicyIdentifiers), oidList(w.PolicyIdentifiers)},
		{"permitted domains", c.PermittedDNSDomains, w.PermittedDNSDomains},
		{"excluded domains", c.ExcludedDNSDomains, w.ExcludedDNSDomains},
		{"permitted addresses", netList(c.PermittedIPRanges), netList(w.PermittedIPRanges)},
		{"excluded addresses", netList(c.ExcludedIPRanges), netList(w.ExcludedIPRanges)},
		{"permitted mail", c.PermittedEmailAddresses, w.PermittedEmailAddresses},
		{"excluded mail", c.ExcludedEmailAddresses, w.ExcludedEmailAddresses},
		{"permitted URI domains", c.PermittedURIDomains, w.PermittedURIDomains},
		{"excluded URI domains", c.ExcludedURIDomains, w.ExcludedURIDomains},
	} {
		if !sameStrings(f.got, f.want) {
			return fmt.Sprintf("%s %q, want %q", f.what, f.got, f.want)
		}
	}
	if !sameSet(oidList(c.UnhandledCriticalExtensions), j.unhandld) {
		return fmt.Sprintf("unhandled critical extensions %v, want %v", c.UnhandledCriticalExtensions, j.unhandld)
	}
	switch {
	case c.KeyUsage != w.KeyUsage:
		return fmt.Sprintf("key usage %b, want %b", c.KeyUsage, w.KeyUsage)
	case c.BasicConstraintsValid != w.BasicConstraintsValid || c.IsCA != w.IsCA || w.BasicConstraintsValid && (c.MaxPathLen != w.MaxPathLen || c.MaxPathLenZero != w.MaxPathLenZero):
		return fmt.Sprintf("constraints valid=%v CA=%v path %d zero=%v, want %v %v %d %v", c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero,
			w.BasicConstraintsValid, w.IsCA, w.MaxPathLen, w.MaxPathLenZero)
	case !bytes.Equal(c.SubjectKeyId, w.SubjectKeyId):
		return fmt.Sprintf("subject key id %x, want %x", c.SubjectKeyId, w.SubjectKeyId)
	case !bytes.Equal(c.AuthorityKeyId, w.AuthorityKeyId):
		return fmt.Sprintf("authority key id %x, want %x", c.AuthorityKeyId, w.AuthorityKeyId)
	case c.PermittedDNSDomainsCritical != w.PermittedDNSDomainsCritical:
		return fmt.Sprintf("name constraints critical: %v", c.PermittedDNSDomainsCritical)
	}
	// Explicit extensions appear as they are, and every identifier once.
	seen := map[string]pkix.Extension{}
	for _, e := range c.Extensions {
		if _, dup := seen[e.Id.String()]; dup {
			return fmt.Sprintf("extension %v twice", e.Id)
		}
		seen[e.Id.String()] = e
	}
	for _, e := range j.extra {
		if g, ok := seen[e.Id.String()]; !ok || g.Critical != e.Critical || !bytes.Equal(g.Value, e.Value) {
			return fmt.Sprintf("extension %v is %v, want %v", e.Id, g, e)
		}
		delete(seen, e.Id.String())
	}
	for id := range seen {
		if !handled(seen[id].Id) {
			return fmt.Sprintf("extension %v was not asked for", id)
		}
	}
	return ""
}

// ---- DER trees, for patching and structured damage ----

type dnode struct {
	tag  byte
	val  []byte
	kids []*dnode
}

func parseDER(b []byte) ([]*dnode, bool) {
	var out []*dnode
	for len(b) > 0 {
		tag, c, _, rest, err := ref.TLV(b)
		if err != nil {
			return nil, false
		}
		n := &dnode{tag: tag, val: c}
		if tag&0x20 != 0 {
			var ok bool
			if n.kids, ok = parseDER(c); !ok {
				return nil, false
			}
		} else if tag == 4 && len(c) > 1 && (c[0] == 0x30 || c[0] == 3 || c[0] == 4) { // an extension's value
			if k, ok := parseDER(c); ok {
				n.kids = k
			}
		}
		out = append(out, n)
		b = rest
	}
	return out, true
}

func (n *dnode) enc() []byte {
	if n.kids == nil {
		return ref.Enc(n.tag, n.val)
	}
	return ref.Enc(n.tag, encDER(n.kids))
}

func encDER(ns []*dnode) (out []byte) {
	for _, n := range ns {
		out = append(out, n.enc()...)
	}
	return
}

func collect(ns []*dnode, out *[]**dnode, parents *[]*[]*dnode, in *[]*dnode) {
	for i := range ns {
		*out = append(*out, &ns[i])
		*parents = append(*parents, in)
		collect(ns[i].kids, out, parents, &ns[i].kids)
	}
}

// damageDER makes a structural change, keeping all enclosing lengths right.
func damageDER(w *sim.World, l *sim.Lane, b []byte) []byte {
	tree, ok := parseDER(append([]byte(nil), b...))
	if !ok || len(tree) == 0 {
		return b
	}
	r := l.Sub()
	for i, n := 0, 1+l.N(2); i < n; i++ {
		var at []**dnode
		var in []*[]*dnode
		collect(tree, &at, &in, &tree)
		if len(at) == 0 {
			break
		}
		k := l.N(len(at))
		p := at[k]
		switch l.N(11) {
		case 0:
			v := r.Bytes(l.N(12))
			*p = &dnode{tag: (*p).tag, val: v}
			w.Fired("element-replaced")
		case 1:
			*p = &dnode{tag: (*p).tag, val: nil}
			w.Fired("element-emptied")
		case 2:
			c := **p
			c.tag = []byte{0x30, 0x31, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0xa0, 0xa3, 0x80, 0x82, 0x87, 1}[l.N(18)]
			*p = &c
			w.Fired("element-retagged")
		case 3, 4:
			q := at[l.N(len(at))]
			c := &dnode{tag: (*q).tag, val: (*q).val}
			if (*q).kids != nil {
				c.val = encDER((*q).kids) // a copy: q may enclose p
			}
			*p = c
			w.Fired("element-spliced")
		case 5, 6:
			s := in[k]
			for m := range *s {
				if &(*s)[m] == p {
					*s = append(append([]*dnode(nil), (*s)[:m]...), (*s)[m+1:]...)
					break
				}
			}
			w.Fired("element-lost")
		case 7:
			s := in[k]
			for m := range *s {
				if &(*s)[m] == p {
					*s = append((*s)[:m+1:m+1], (*s)[m:]...)
					break
				}
			}
			w.Fired("element-repeated")
		case 8:
			c := **p
			if c.kids == nil && len(c.val) > 0 {
				c.val = append([]byte(nil), c.val...)
				c.val[l.N(len(c.val))] ^= 1 << l.N(8)
				*p = &c
				w.Fired("element-bit-flip")
			}
		case 9:
			s := in[k]
			if len(*s) > 1 {
				a, b := l.N(len(*s)), l.N(len(*s))
				(*s)[a], (*s)[b] = (*s)[b], (*s)[a]
				w.Fired("elements-swapped")
			}
		case 10:
			c := **p
			if c.kids == nil && len(c.val) > 0 {
				c.val = c.val[:l.N(len(c.val))]
				*p = &c
				w.Fired("element-cut")
			}
		}
	}
	return encDER(tree)
}

var (
	derSM2Curve = []byte{6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x82, 0x2d}
	derP256     = []byte{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}
	p256G, _    = new(big.Int).SetString("046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", 16)
)

// spki is the model encoding of a public key.
func spki(k *key) []byte {
	return ref.Enc(0x30, ref.Enc(0x30, []byte{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}, derSM2Curve), ref.Enc(3, []byte{0, 4}, k.raw()))
}

// asP256 rewrites the key of a certificate or request so that crypto/x509 reads
// it: the curve identifier and the point, both of the same size.
func asP256(k *key, der []byte) []byte {
	old := spki(k)
	g := p256G.FillBytes(make([]byte, 65))
	neu := ref.Enc(0x30, ref.Enc(0x30, []byte{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}, derP256), ref.Enc(3, []byte{0}, g))
	return bytes.Replace(der, old, neu, -1)
}
