package checks

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf16"

	"gmverif/ref"
	"gmverif/sim"
)

// Certificates and requests as other implementations write them, encoded here
// without any of gm's code, each with a model of what it says.

func eOID(o ...int) []byte            { return ref.Enc(6, base128of(o)) }
func eSeq(parts ...[]byte) []byte     { return ref.Enc(0x30, parts...) }
func eTag(t byte, p ...[]byte) []byte { return ref.Enc(t, p...) }

// eSet is a SET OF in DER order.
func eSet(tag byte, items [][]byte) []byte {
	s := append([][]byte(nil), items...)
	sort.Slice(s, func(i, j int) bool { return bytes.Compare(s[i], s[j]) < 0 })
	return ref.Enc(tag, s...)
}

func eBits(n int, at func(int) bool) []byte {
	for n > 0 && !at(n-1) {
		n--
	}
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if at(i) {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return ref.Enc(3, []byte{byte(len(b)*8 - n)}, b)
}

type fgName struct {
	der   []byte
	atvs  []pkix.AttributeTypeAndValue
	multi bool // has an RDN of several attributes
}

var fgAttrs = [][]int{{2, 5, 4, 3}, {2, 5, 4, 6}, {2, 5, 4, 7}, {2, 5, 4, 8}, {2, 5, 4, 9}, {2, 5, 4, 10}, {2, 5, 4, 11}, {2, 5, 4, 17}, {2, 5, 4, 5},
	{2, 5, 4, 4}, {2, 5, 4, 12}, {2, 5, 4, 42}, {2, 5, 4, 46}, {1, 2, 840, 113549, 1, 9, 1}, {0, 9, 2342, 19200300, 100, 1, 25}, {1, 2, 156, 10260, 4, 1, 1}}

// fgString draws a text in one of the string types names may use.
func fgString(l *sim.Lane) (der []byte, val interface{}) {
	printable := []string{"CN", "Example CA", "Beijing", "O'Neil (Test) +,-./:=?", "0", "A B", strings.Repeat("x", 127), strings.Repeat("y", 128)}
	switch l.W(5, 6, 1, 1, 1, 1) {
	case 0:
		s := printable[l.N(len(printable))]
		return ref.Enc(0x13, []byte(s)), s
	case 1:
		s := append(nameStrings, printable...)[l.N(len(nameStrings)+len(printable))]
		return ref.Enc(0x0c, []byte(s)), s
	case 2:
		s := emailStrings[l.N(len(emailStrings))]
		return ref.Enc(0x16, []byte(s)), s
	case 3:
		s := []string{"1234567890", "12 34", "7"}[l.N(3)]
		return ref.Enc(0x12, []byte(s)), s
	case 4:
		s := printable[l.N(len(printable))]
		return ref.Enc(0x14, []byte(s)), s
	}
	s := []string{"Beijing", "北京", "Σ Acme Co", "ß"}[l.N(4)]
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return ref.Enc(0x1e, b), s
}

func fgMakeName(l *sim.Lane) fgName {
	var n fgName
	var rdns [][]byte
	for i, k := 0, l.N(7); i < k; i++ {
		m := 1
		if l.N(6) == 0 {
			m, n.multi = 2+l.N(2), true
		}
		type atv struct {
			der []byte
			v   pkix.AttributeTypeAndValue
		}
		var set []atv
		for q := 0; q < m; q++ {
			t := fgAttrs[l.N(len(fgAttrs))]
			d, v := fgString(l)
			set = append(set, atv{eSeq(eOID(t...), d), pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier(t), Value: v}})
		}
		sort.SliceStable(set, func(i, j int) bool { return bytes.Compare(set[i].der, set[j].der) < 0 })
		var parts [][]byte
		for _, a := range set {
			parts = append(parts, a.der)
			n.atvs = append(n.atvs, a.v)
		}
		rdns = append(rdns, ref.Enc(0x31, parts...))
	}
	n.der = eSeq(rdns...)
	return n
}

// sibling is the name with one character in the middle replaced.
func (n fgName) sibling(l *sim.Lane) fgName {
	i := l.N(len(n.atvs) + 1)
	if i == len(n.atvs) || n.multi {
		return fgMakeName(l)
	}
	v := fmt.Sprint(n.atvs[i].Value)
	at := bytes.Index(n.der, []byte(v))
	if len(v) < 3 || at < 0 {
		return fgMakeName(l)
	}
	at, j := at+len(v)/2, len(v)/2
	c := v[j]
	if !(c >= 'a' && c <= 'y' || c >= 'A' && c <= 'Y' || c >= '0' && c <= '8') {
		return fgMakeName(l)
	}
	out := fgName{der: append([]byte(nil), n.der...), atvs: append([]pkix.AttributeTypeAndValue(nil), n.atvs...)}
	out.der[at]++
	first := true
	for k, a := range out.atvs { // the first attribute with that text is the one changed
		if first && fmt.Sprint(a.Value) == v {
			out.atvs[k].Value, first = v[:j]+string(c+1)+v[j+1:], false
		}
	}
	// The text may also have been found inside another value.
	if !reflect.DeepEqual(fgRead(out.der), out.atvs) {
		return fgMakeName(l)
	}
	return out
}

func fgSubject(l *sim.Lane, like fgName, isCA bool) fgName {
	if !isCA && l.N(3) == 2 {
		return like.sibling(l)
	}
	return fgMakeName(l)
}

// fgRead reads the plain string types back, to confirm a sibling.
func fgRead(der []byte) (out []pkix.AttributeTypeAndValue) {
	n, _ := parseDER(der)
	for _, rdn := range n[0].kids {
		for _, a := range rdn.kids {
			if len(a.kids) != 2 {
				return nil
			}
			var id asn1.ObjectIdentifier
			if _, err := asn1.Unmarshal(encDER(a.kids[:1]), &id); err != nil {
				return nil
			}
			out = append(out, pkix.AttributeTypeAndValue{Type: id, Value: string(a.kids[1].val)})
		}
	}
	return
}

// name is what a reader must make of it.
func (n fgName) name() (out pkix.Name) {
	for _, a := range n.atvs {
		out.Names = append(out.Names, a)
		t, s := a.Type, fmt.Sprint(a.Value)
		if len(t) != 4 || t[0] != 2 || t[1] != 5 || t[2] != 4 {
			continue
		}
		switch t[3] {
		case 3:
			out.CommonName = s
		case 5:
			out.SerialNumber = s
		case 6:
			out.Country = append(out.Country, s)
		case 7:
			out.Locality = append(out.Locality, s)
		case 8:
			out.Province = append(out.Province, s)
		case 9:
			out.StreetAddress = append(out.StreetAddress, s)
		case 10:
			out.Organization = append(out.Organization, s)
		case 11:
			out.OrganizationalUnit = append(out.OrganizationalUnit, s)
		case 17:
			out.PostalCode = append(out.PostalCode, s)
		}
	}
	return
}

func (n fgName) diff(what string, got pkix.Name, raw []byte) string {
	if !bytes.Equal(raw, n.der) {
		return fmt.Sprintf("%s is %x, want %x", what, raw, n.der)
	}
	if w := n.name(); !reflect.DeepEqual(w, got) {
		return fmt.Sprintf("%s reads %+v, want %+v", what, got, w)
	}
	return ""
}

// fgOther is a general name of a kind gm has no field for.
func fgOther(l *sim.Lane) []byte {
	switch l.N(5) {
	case 0:
		return eTag(0xa0, eOID(1, 3, 6, 1, 4, 1, 311, 20, 2, 3), eTag(0xa0, eTag(0x0c, []byte("user@realm"))))
	case 1:
		return eTag(0xa4, fgMakeName(l).der)
	case 2:
		return eTag(0x88, base128of(freeOIDs[l.N(len(freeOIDs))]))
	case 3:
		return eTag(0xa5, eTag(0xa1, eTag(0x13, []byte("party"))))
	}
	return eTag(0xa3, eSeq())
}

func fgSANs(l *sim.Lane) (der []byte, s sans) {
	var parts [][]byte
	for i, n := 0, 1+l.N(5); i < n; i++ {
		switch l.W(3, 2, 2, 2, 2, 2) {
		case 0:
			v := dnsStrings[l.N(len(dnsStrings))]
			s.dns, parts = append(s.dns, v), append(parts, eTag(0x82, []byte(v)))
		case 1:
			v := emailStrings[l.N(len(emailStrings))]
			s.mail, parts = append(s.mail, v), append(parts, eTag(0x81, []byte(v)))
		case 2:
			v := uriStrings[l.N(len(uriStrings))]
			u, err := url.Parse(v)
			if err != nil {
				panic(err)
			}
			s.uri, parts = append(s.uri, u), append(parts, eTag(0x86, []byte(v)))
		case 3:
			v := ipv4s[l.N(len(ipv4s))]
			s.ip, parts = append(s.ip, v), append(parts, eTag(0x87, v))
		case 4:
			v := ipv6s[l.N(len(ipv6s))]
			s.ip, parts = append(s.ip, v), append(parts, eTag(0x87, v))
		case 5:
			parts = append(parts, fgOther(l))
		}
	}
	return eSeq(parts...), s
}

// fgItem is one certificate or request with its meaning.
type fgItem struct {
	req     bool
	der     []byte
	tbs     []byte
	signer  *key
	id      []byte
	holder  *key
	good    bool   // carries the signer's signature
	bad     string // a reader must refuse it, and why
	may     string // a reader may refuse it, and why
	subject fgName
	issuer  fgName
	job     *certJob // certificates
	names   sans     // requests
	exts    []pkix.Extension
	attrs   [][]byte // requests: the attributes with a field, in order
	isCA    bool
}

func eExt(e pkix.Extension) []byte {
	if e.Critical {
		return eSeq(eOID(e.Id...), eTag(1, []byte{0xff}), eTag(4, e.Value))
	}
	return eSeq(eOID(e.Id...), eTag(4, e.Value))
}

func fgTime(l *sim.Lane, t time.Time) []byte {
	t = t.UTC()
	if y := t.Year(); y >= 1950 && y < 2050 && l.N(6) > 0 {
		return eTag(0x17, []byte(t.Format("060102150405Z")))
	}
	return eTag(0x18, []byte(t.Format("20060102150405Z")))
}

// fgKey writes the holder's public key, mostly as readers must accept it.
func fgKey(l *sim.Lane, it *fgItem) []byte {
	alg, curve, pt := eOID(1, 2, 840, 10045, 2, 1), derSM2Curve, append([]byte{4}, it.holder.raw()...)
	if !it.isCA && l.P(20) {
		switch l.N(7) {
		case 0:
			it.may, pt = "compressed key", append([]byte{2 + byte(it.holder.P.Y.Bit(0))}, ref.B32(it.holder.P.X)...)
		case 1:
			it.may, pt[0] = "hybrid key", 6+byte(it.holder.P.Y.Bit(0))
		case 2:
			it.bad, pt[64] = "key off the curve", pt[64]^1
		case 3:
			it.bad, pt = "key at infinity", []byte{0}
		case 4:
			it.bad, curve = "key on another curve", derP256
			if l.N(2) == 0 {
				curve = eOID(nearOID(l, [][]int{{1, 2, 156, 10197, 1, 301}})...)
			}
		case 5:
			it.bad, alg = "key of another algorithm", eOID([][]int{{1, 2, 840, 113549, 1, 1, 1}, nearOID(l, [][]int{{1, 2, 840, 10045, 2, 1}})}[l.N(2)]...)
		case 6:
			it.bad, pt = "key cut short", pt[:64]
		}
	}
	return eSeq(eSeq(alg, curve), eTag(3, []byte{0}, pt))
}

// fgSign seals the content.
func (it *fgItem) fgSign(l *sim.Lane) {
	e := ref.E(realCurve.r, sigID(it.id), it.signer.P, it.tbs)
	var sig []byte
	for sig == nil {
		if a, b, ok := ref.SignK(realCurve.r, it.signer.d, randScalar(realCurve, l.Sub()), e); ok {
			sig = ref.EncSig(a, b)
		}
	}
	alg := eSeq(eOID(oidSM3SM2...))
	if !it.isCA && l.P(12) {
		if l.N(2) == 0 {
			it.may, alg = "signature algorithm with parameters", eSeq(eOID(oidSM3SM2...), []byte{5, 0})
		} else {
			it.bad = "another signature algorithm"
			alg = eSeq(eOID([][]int{{1, 2, 840, 10045, 4, 3, 2}, {1, 2, 840, 113549, 1, 1, 11}, {1, 2, 156, 10197, 1, 504}, {1, 2, 156, 10197, 1, 301}, nearOID(l, [][]int{oidSM3SM2})}[l.N(5)]...))
		}
	}
	it.good = true
	it.der = eSeq(it.tbs, alg, eTag(3, []byte{0}, sig))
}

// fgOtherClass gives one of the direct strings of a sequence of general names a tag that no general name has.
func fgOtherClass(l *sim.Lane, names []byte) bool {
	var at []int
	for o := 0; o < len(names); {
		if t := names[o]; t == 0x81 || t == 0x82 || t == 0x86 || t == 0x87 {
			at = append(at, o)
		}
		_, h, n := derHead(names[o:])
		o += h + n
	}
	if len(at) == 0 {
		return false
	}
	o := at[l.N(len(at))]
	names[o] = []byte{names[o] & 0x1f, names[o]&0x1f | 0x40, names[o] | 0x40, names[o] | 0x20}[l.N(4)]
	return true
}

// derHead reads the tag, the length of the header and that of the content of an element the harness wrote.
func derHead(d []byte) (tag byte, head, n int) {
	if d[1] < 0x80 {
		return d[0], 2, int(d[1])
	}
	k := int(d[1] & 0x7f)
	for _, b := range d[2 : 2+k] {
		n = n<<8 | int(b)
	}
	return d[0], 2 + k, n
}

// fgSpoil makes the value of the extension id invalid.
func fgSpoil(l *sim.Lane, v []byte, id ...int) []byte {
	v = append([]byte(nil), v...)
	if l.N(2) == 0 {
		_, h, _ := derHead(v)
		switch {
		case id[len(id)-1] == 17 && fgOtherClass(l, v[h:]):
			return v
		case id[len(id)-1] == 19:
			yes, n := eTag(1, []byte{0xff}), eTag(2, []byte{byte(l.N(128))})
			return [][]byte{eSeq(n, yes), eSeq(yes, n, eTag(5)), eSeq(yes, eTag(2, []byte{byte(0x80 + l.N(128))})), eSeq(yes, n, n), eSeq(yes, yes), eSeq(eTag(4, n), yes)}[l.N(6)]
		case id[0] == 1: // access descriptions
			for o := h; o < len(v); {
				_, hh, n := derHead(v[o:])
				_, oh, on := derHead(v[o+hh:])
				if fgOtherClass(l, v[o+hh+oh+on:o+hh+n]) {
					return v
				}
				o += hh + n
			}
		case id[len(id)-1] == 31:
			if i := bytes.Index(v, []byte("http")); i > 2 && v[i-2] == 0x86 {
				v[i-2] = []byte{6, 0x46, 0xc6, 0xa6}[l.N(4)]
				return v
			}
		}
	}
	switch l.N(4) {
	case 0:
		return append(v, 5, 0)
	case 1:
		return v[:len(v)-1]
	case 2:
		v[0] = map[byte]byte{0x30: 0x31, 3: 4, 4: 3}[v[0]]
		return v
	}
	return append(v, l.Sub().Bytes(1+l.N(4))...)
}

func fgRequest(l *sim.Lane, holder *key, id []byte, like fgName) *fgItem {
	it := &fgItem{req: true, holder: holder, signer: holder, id: id, subject: fgSubject(l, like, false)}
	var attrs [][]byte
	fields := map[string]bool{}
	if l.N(3) > 0 {
		var exts [][]byte
		for _, id := range subset(l, freeOIDs, 4) {
			it.exts = append(it.exts, pkix.Extension{Id: id, Critical: l.N(3) == 0, Value: l.Sub().Bytes(pickLen(l, 100))})
		}
		if l.N(3) > 0 {
			e := pkix.Extension{Id: oidSAN, Critical: l.N(4) == 0}
			e.Value, it.names = fgSANs(l)
			if l.P(15) {
				e.Value, it.bad = fgSpoil(l, e.Value, e.Id...), "malformed alternative names"
			}
			i := l.N(len(it.exts) + 1)
			it.exts = append(it.exts[:i:i], append([]pkix.Extension{e}, it.exts[i:]...)...)
		}
		if l.N(3) == 0 {
			it.exts = append(it.exts, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Critical: true, Value: []byte{3, 2, 5, 0xa0}})
		}
		for _, e := range it.exts {
			exts = append(exts, eExt(e))
		}
		v := eSeq(exts...)
		if l.P(25) {
			v, it.bad = [][]byte{eTag(4, v), eTag(0x31, exts...), eSeq(eTag(4, []byte{1})), eSeq(eSeq(eOID(1, 2, 3))), eSeq(eSeq(eOID(1, 2, 3), eTag(1, []byte{255}))), eTag(5)}[l.N(6)], "malformed extension request"
		}
		attrs = append(attrs, eSeq(eOID(oidExtReq...), eTag(0x31, v)))
	}
	if l.N(2) == 0 { // challengePassword
		attrs = append(attrs, eSeq(eOID(1, 2, 840, 113549, 1, 9, 7), eTag(0x31, eTag(0x13, []byte("password")))))
	}
	if l.N(4) == 0 { // unstructuredName, with an unusual string type
		attrs = append(attrs, eSeq(eOID(1, 2, 840, 113549, 1, 9, 2), eTag(0x31, eTag(0x16, []byte("name.example")))))
	}
	if l.N(4) == 0 { // an attribute whose value is a plain structure
		attrs = append(attrs, eSeq(eOID(1, 3, 6, 1, 4, 1, 311, 13, 2, 3), eTag(0x31, eSeq(eTag(2, []byte{5}), eTag(0x0c, []byte("os"))))))
	}
	if l.N(4) == 0 { // an attribute that only resembles the extension request
		a := eSeq(eOID(nearOID(l, [][]int{oidExtReq})...), eTag(0x31, eSeq(eExt(pkix.Extension{Id: freeOIDs[l.N(len(freeOIDs))], Value: []byte{5, 0}}))))
		fields[string(a)] = true
		attrs = append(attrs, a)
	}
	for i, n := 0, l.N(3); i < n; i++ { // lists of identified values
		var atvs [][]byte
		for k, m := 0, 1+l.N(3); k < m; k++ {
			d, _ := fgString(l)
			atvs = append(atvs, eSeq(eOID(freeOIDs[l.N(len(freeOIDs))]...), d))
		}
		a := eSeq(eOID(1, 3, 6, 1, 4, 1, 99999, 7+i), eTag(0x31, eSeq(atvs...)))
		fields[string(a)] = true
		attrs = append(attrs, a)
	}
	sort.Slice(attrs, func(i, j int) bool { return bytes.Compare(attrs[i], attrs[j]) < 0 })
	for _, a := range attrs {
		if fields[string(a)] {
			it.attrs = append(it.attrs, a)
		}
	}
	it.tbs = eSeq(eTag(2, []byte{0}), it.subject.der, fgKey(l, it), ref.Enc(0xa0, attrs...))
	it.fgSign(l)
	return it
}

func fgCert(l *sim.Lane, now time.Time, issuer fgName, ca *key, id []byte, holder *key, isCA bool) *fgItem {
	it := &fgItem{holder: holder, signer: ca, id: id, issuer: issuer, subject: fgSubject(l, issuer, isCA), isCA: isCA}
	c := &x509.Certificate{}
	it.job = &certJob{want: c, version: 1 + l.W(1, 1, 8)}
	if isCA {
		it.job.version = 3
	}
	it.job.subject, c.RawSubject, c.RawIssuer = it.subject.der, it.subject.der, issuer.der
	c.SerialNumber = new(big.Int).SetBytes(l.Sub().Bytes(1 + l.N(20)))
	switch k := l.N(12); {
	case it.isCA:
	case k == 0:
		c.SerialNumber.Neg(c.SerialNumber)
		it.may = "negative serial number"
	case k == 1:
		c.SerialNumber = new(big.Int).SetBytes(l.Sub().Bytes(21 + l.N(20)))
		it.may = "long serial number"
	case k == 2:
		c.SerialNumber = new(big.Int).Lsh(one, uint(l.N(160)))
	}
	g := &certGen{l: l}
	c.NotBefore, c.NotAfter = g.instant(now).Truncate(time.Second), g.instant(now).Truncate(time.Second)
	parts := [][]byte{nil, ref.EncInt(c.SerialNumber), eSeq(eOID(oidSM3SM2...)), issuer.der, eSeq(fgTime(l, c.NotBefore), fgTime(l, c.NotAfter)), it.subject.der, fgKey(l, it)}
	if it.job.version > 1 {
		parts[0] = eTag(0xa0, eTag(2, []byte{byte(it.job.version - 1)}))
		if l.N(8) == 0 {
			parts = append(parts, eTag(0x81, []byte{0}, l.Sub().Bytes(l.N(9))))
		}
		if l.N(8) == 0 {
			parts = append(parts, eTag(0x82, []byte{0}, l.Sub().Bytes(l.N(9))))
		}
	}
	if it.job.version == 3 && l.N(8) > 0 {
		exts := fgExtensions(l, it, c)
		for _, i := range perm(l.Sub(), len(exts)) {
			it.exts = append(it.exts, exts[i])
		}
		var b [][]byte
		for _, e := range it.exts {
			it.job.extra = append(it.job.extra, e)
			b = append(b, eExt(e))
		}
		if len(b) > 0 {
			parts = append(parts, eTag(0xa3, eSeq(b...)))
		}
	}
	it.tbs = eSeq(parts...)
	it.fgSign(l)
	return it
}

// nearOID draws an identifier that differs from those known in one place.
func nearOID(l *sim.Lane, known [][]int) []int {
	for {
		o := append([]int(nil), known[l.N(len(known))]...)
		switch n := len(o); l.N(5) {
		case 0:
			o = append(o, l.N(3))
		case 1:
			o = append(o, 1, 1)
		case 2:
			o = o[:n-1]
		case 3:
			o[n-1] += 1 + l.N(300)
		case 4:
			o[2+l.N(n-2)] ^= 1 << l.N(9)
		}
		same := false
		for _, k := range known {
			same = same || asn1.ObjectIdentifier(k).Equal(o)
		}
		if !same {
			return o
		}
	}
}

var ekuOIDs = [][]int{{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {1, 3, 6, 1, 5, 5, 7, 3, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 4},
	{1, 3, 6, 1, 5, 5, 7, 3, 5}, {1, 3, 6, 1, 5, 5, 7, 3, 6}, {1, 3, 6, 1, 5, 5, 7, 3, 7}, {1, 3, 6, 1, 5, 5, 7, 3, 8}, {1, 3, 6, 1, 5, 5, 7, 3, 9},
	{1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, {2, 16, 840, 1, 113730, 4, 1}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1}}

// fgExtensions draws extensions and notes in c and it.job what they say.
func fgExtensions(l *sim.Lane, it *fgItem, c *x509.Certificate) (out []pkix.Extension) {
	dense := 2 + l.N(3)
	want := func() bool { return l.N(dense) == 0 }
	add := func(crit bool, val []byte, unhandled bool, id ...int) {
		if l.P(150) && !it.isCA {
			it.bad = fmt.Sprintf("malformed extension %v", id)
			val = fgSpoil(l, val, id...)
		}
		out = append(out, pkix.Extension{Id: id, Critical: crit, Value: val})
		if crit && unhandled {
			it.job.unhandld = append(it.job.unhandld, asn1.ObjectIdentifier(id).String())
		}
	}
	crit := func() bool { return l.N(3) == 0 }
	if want() {
		v := 1 + l.N(511)
		c.KeyUsage = x509.KeyUsage(v)
		add(crit(), eBits(9, func(i int) bool { return v>>i&1 == 1 }), false, 2, 5, 29, 15)
	}
	if want() || it.isCA {
		c.BasicConstraintsValid, c.IsCA, c.MaxPathLen = true, it.isCA || l.N(2) == 0, -1
		var p [][]byte
		if c.IsCA {
			p = append(p, eTag(1, []byte{0xff}))
			if l.N(2) == 0 {
				c.MaxPathLen = []int{0, 1, 2, 127, 128, 255, 256, 32767, 1 << 30}[l.N(9)]
				p = append(p, ref.EncInt(big.NewInt(int64(c.MaxPathLen))))
			}
		}
		c.MaxPathLenZero = c.MaxPathLen == 0
		add(crit(), eSeq(p...), false, 2, 5, 29, 19)
	}
	if want() || it.isCA && l.N(2) == 0 {
		c.SubjectKeyId = l.Sub().Bytes(1 + l.N(30))
		add(false, eTag(4, c.SubjectKeyId), false, 2, 5, 29, 14)
	}
	if want() {
		var p [][]byte
		if l.N(4) > 0 {
			c.AuthorityKeyId = l.Sub().Bytes(1 + l.N(30))
			p = append(p, eTag(0x80, c.AuthorityKeyId))
		}
		if l.N(3) == 0 {
			p = append(p, eTag(0xa1, eTag(0xa4, fgMakeName(l).der)), eTag(0x82, l.Sub().Bytes(8)[:1+l.N(7)]))
		}
		add(false, eSeq(p...), false, 2, 5, 29, 35)
	}
	if want() {
		var v []byte
		v, it.job.names = fgSANs(l)
		add(crit(), v, it.job.names.empty(), 2, 5, 29, 17)
	}
	if want() {
		var p [][]byte
		for _, i := range perm(l.Sub(), len(ekuOIDs))[:1+l.N(4)] {
			if l.N(4) == 0 {
				o := freeOIDs[l.N(len(freeOIDs))]
				if l.N(2) == 0 {
					o = nearOID(l, ekuOIDs)
				}
				if !strings.Contains(fmt.Sprint(oidList(c.UnknownExtKeyUsage)), o.String()) {
					c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, o)
					p = append(p, eOID(o...))
				}
			}
			c.ExtKeyUsage = append(c.ExtKeyUsage, x509.ExtKeyUsage(i))
			p = append(p, eOID(ekuOIDs[i]...))
		}
		add(crit(), eSeq(p...), false, 2, 5, 29, 37)
	}
	if want() {
		var p [][]byte
		for _, o := range append(subset(l, freeOIDs, 3), asn1.ObjectIdentifier{2, 5, 29, 32, 0}) {
			c.PolicyIdentifiers = append(c.PolicyIdentifiers, o)
			q := [][]byte{eOID(o...)}
			switch l.N(3) {
			case 0: // a CPS pointer
				q = append(q, eSeq(eSeq(eOID(1, 3, 6, 1, 5, 5, 7, 2, 1), eTag(0x16, []byte("http://cps.example/")))))
			case 1: // a user notice as well
				q = append(q, eSeq(eSeq(eOID(1, 3, 6, 1, 5, 5, 7, 2, 1), eTag(0x16, []byte("http://cps.example/"))),
					eSeq(eOID(1, 3, 6, 1, 5, 5, 7, 2, 2), eSeq(eTag(0x0c, []byte("notice"))))))
			}
			p = append(p, eSeq(q...))
		}
		add(crit(), eSeq(p...), false, 2, 5, 29, 32)
	}
	if want() {
		var p [][]byte
		for i, n := 0, 1+l.N(3); i < n; i++ {
			var dp [][]byte
			switch l.W(5, 1, 1) {
			case 0:
				var names [][]byte
				for k, m := 0, 1+l.N(2); k < m; k++ {
					if l.N(4) == 0 {
						names = append(names, eTag(0xa4, fgMakeName(l).der))
					} else {
						u := urlStrings[l.N(len(urlStrings))]
						c.CRLDistributionPoints = append(c.CRLDistributionPoints, u)
						names = append(names, eTag(0x86, []byte(u)))
					}
				}
				dp = append(dp, eTag(0xa0, ref.Enc(0xa0, names...)))
			case 1:
				d, _ := fgString(l)
				dp = append(dp, eTag(0xa0, eTag(0xa1, eSeq(eOID(2, 5, 4, 3), d))))
			}
			if l.N(3) == 0 {
				b := 1 + l.N(511)
				v := eBits(9, func(i int) bool { return b>>i&1 == 1 })
				dp = append(dp, append([]byte{0x81}, v[1:]...))
			}
			if len(dp) == 0 || l.N(4) == 0 {
				dp = append(dp, eTag(0xa2, eTag(0xa4, fgMakeName(l).der)))
			}
			p = append(p, eSeq(dp...))
		}
		add(crit(), eSeq(p...), false, 2, 5, 29, 31)
	}
	if want() {
		var p [][]byte
		for i, n := 0, 1+l.N(4); i < n; i++ {
			u := urlStrings[l.N(len(urlStrings))]
			loc, uri := eTag(0x86, []byte(u)), true
			if l.N(5) == 0 {
				loc, uri = fgOther(l), false
			}
			switch l.N(3) {
			case 0:
				p = append(p, eSeq(eOID(1, 3, 6, 1, 5, 5, 7, 48, 1), loc))
				if uri {
					c.OCSPServer = append(c.OCSPServer, u)
				}
			case 1:
				p = append(p, eSeq(eOID(1, 3, 6, 1, 5, 5, 7, 48, 2), loc))
				if uri {
					c.IssuingCertificateURL = append(c.IssuingCertificateURL, u)
				}
			case 2:
				p = append(p, eSeq(eOID([][]int{{1, 3, 6, 1, 5, 5, 7, 48, 3}, {1, 3, 6, 1, 5, 5, 7, 48, 5}, nearOID(l, [][]int{{1, 3, 6, 1, 5, 5, 7, 48, 1}, {1, 3, 6, 1, 5, 5, 7, 48, 2}})}[l.N(3)]...), loc))
			}
		}
		add(false, eSeq(p...), false, 1, 3, 6, 1, 5, 5, 7, 1, 1)
	}
	if l.N(dense+2) == 0 {
		fgConstraints(l, it, c, add)
	}
	others := [][]int{{2, 5, 29, 18}, {2, 5, 29, 33}, {2, 5, 29, 36}, {2, 5, 29, 46}, {2, 5, 29, 54}, {2, 5, 29, 9}, {2, 5, 29, 16}, {1, 3, 6, 1, 5, 5, 7, 1, 11},
		{1, 3, 6, 1, 5, 5, 7, 1, 24}, {2, 5, 30, 15}, {2, 5, 4, 15}, {2, 5, 29, 15, 1}, {2, 6, 29, 19}, {1, 5, 29, 17}, {1, 2, 156, 10260, 4, 1, 1}, {2, 5, 29, 128}, {2, 5, 29, 143}}
	near := nearOID(l, [][]int{{2, 5, 29, 15}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 35}, {2, 5, 29, 17}, {2, 5, 29, 37}, {2, 5, 29, 32}, {2, 5, 29, 31}, {2, 5, 29, 30}, {1, 3, 6, 1, 5, 5, 7, 1, 1}})
	known := false
	for _, o := range others {
		known = known || asn1.ObjectIdentifier(o).Equal(near)
	}
	if !known {
		others = append(others, near)
	}
	for _, i := range perm(l.Sub(), len(others))[:l.N(4)] {
		cr := crit()
		out = append(out, pkix.Extension{Id: others[i], Critical: cr, Value: l.Sub().Bytes(pickLen(l, 300))})
		if cr {
			it.job.unhandld = append(it.job.unhandld, asn1.ObjectIdentifier(others[i]).String())
		}
	}
	return out
}

// fgMailbox draws a mailbox of RFC 2821's grammar.
func fgMailbox(l *sim.Lane) string {
	const atext = "!#$%&'*+-/=?^_`{|}~0189AMZamz"
	r := l.Sub()
	var b []byte
	if l.N(2) == 0 {
		b = append(b, '"')
		for i, n := 0, 1+r.N(6); i < n; i++ {
			c := byte(1 + r.N(127))
			switch {
			case r.N(4) == 0 && c != 10 && c != 13: // quoted pair
				b = append(b, '\\', c)
			case c <= 8 || c == 11 || c == 12 || c >= 14 && c <= 31 || c == 33 || c >= 35 && c <= 91 || c >= 93:
				b = append(b, c)
			}
		}
		b = append(b, '"')
	} else {
		for i, n := 0, 1+r.N(3); i < n; i++ {
			if i > 0 {
				b = append(b, '.')
			}
			for k, m := 0, 1+r.N(4); k < m; k++ {
				b = append(b, atext[r.N(len(atext))])
			}
		}
	}
	return string(b) + "@" + fgDomain(l)
}

func fgDomain(l *sim.Lane) string {
	const ldh = "-_09AZaz"
	r := l.Sub()
	var b []byte
	for i, n := 0, 1+r.N(4); i < n; i++ {
		if i > 0 {
			b = append(b, '.')
		}
		b = append(b, "09azAZ"[r.N(6)])
		for k, m := 0, r.N(5); k < m; k++ {
			b = append(b, ldh[r.N(len(ldh))])
		}
	}
	return string(b)
}

// fgNoMailbox draws what is not a mailbox, though it has an @.
func fgNoMailbox(l *sim.Lane) string {
	d := "@" + fgDomain(l)
	// The characters that may not appear, quoted, escaped or in an atom.
	switch l.N(5) {
	case 3:
		return "\"" + []string{"", "a", "\\\"", "\\a"}[l.N(4)] + string([]byte{[]byte{0, 9, 10, 13, 128, 255}[l.N(6)]}) + "\"" + d
	case 4:
		if l.N(2) == 0 {
			return "\"" + []string{"", "a", " "}[l.N(3)] + "\\" + string([]byte{[]byte{0, 10, 13, 128, 255}[l.N(5)]}) + "\"" + d
		}
		return "a" + string([]byte{" \"(),:;<>[]\x00\x01\x1f\x7f\x80"[l.N(15)]}) + "b" + d
	}
	return []string{d, "." + fgMailboxAtom(l) + d, fgMailboxAtom(l) + "." + d, "a.." + fgMailboxAtom(l) + d, ".." + d, "\"abc" + d, "\"a\nb\"" + d, "\"a\\\r\"" + d, "\"a\x00\"" + d,
		"\"a\\\x00\"" + d, "\"a\"b\"" + d, "\"a\"b" + d, "a b" + d, "a(b)" + d, "a,b" + d, "a;b" + d, "a:b" + d, "a<b" + d, "a>b" + d, "a[b" + d, "a]b" + d, "a\"b" + d, "a\x7fb" + d, "a@" + fgDomain(l) + ".", "a@b..c",
		"a@.b", "a@b c", "a@b\x7f", "a@b\tc", "\"@", "\"\\@", "a@" + fgDomain(l) + " "}[l.N(32)]
}

func fgMailboxAtom(l *sim.Lane) string { return []string{"a", "Zz9", "x-y", "~"}[l.N(4)] }

// fgConstraints draws name constraints.
func fgConstraints(l *sim.Lane, it *fgItem, c *x509.Certificate, add func(bool, []byte, bool, ...int)) {
	unhandled := false
	dns := []string{"example.com", ".example.com", "", "a.b", "xn--p1ai"}
	mail := []string{"example.com", ".example.com", "user@host.com", "\"quo ted\"@host.com", "\"a\\\"b@\"@host.com", "a!b@x.y", "first.last@a.b.c", ""}
	uri := []string{"example.com", ".example.com", "h", "a.b.c.d"}
	half := func(d, m, u *[]string, n *[]*net.IPNet) []byte {
		var p [][]byte
		for i, k := 0, l.N(5); i < k; i++ {
			var base []byte
			d0, m0, u0, n0 := len(*d), len(*m), len(*u), len(*n)
			back := func() { *d, *m, *u, *n = (*d)[:d0], (*m)[:m0], (*u)[:u0], (*n)[:n0] }
			switch l.W(3, 3, 3, 2, 1) {
			case 0:
				v := dns[l.N(len(dns))]
				if l.N(3) == 2 {
					v = []string{"", "."}[l.N(2)] + fgDomain(l)
				}
				*d, base = append(*d, v), eTag(0x82, []byte(v))
			case 1:
				v := mail[l.N(len(mail))]
				if l.N(2) == 1 {
					v = fgMailbox(l)
				} else if l.N(4) == 3 {
					v = []string{"", "."}[l.N(2)] + fgDomain(l)
				}
				*m, base = append(*m, v), eTag(0x81, []byte(v))
			case 2:
				ip, mask := ipv4s[l.N(4)], net.CIDRMask(l.N(33), 32)
				if l.N(2) == 0 {
					ip, mask = ipv6s[l.N(4)], net.CIDRMask(l.N(129), 128)
				}
				*n, base = append(*n, &net.IPNet{IP: ip, Mask: mask}), eTag(0x87, ip, mask)
			case 3:
				v := uri[l.N(len(uri))]
				if l.N(3) == 2 {
					v = []string{"", "."}[l.N(2)] + fgDomain(l)
					if net.ParseIP(v) != nil {
						v = "h"
					}
				}
				*u, base = append(*u, v), eTag(0x86, []byte(v))
			case 4:
				base, unhandled = fgOther(l), true
			}
			if l.P(40) { // limits of a subtree's depth, which RFC 5280 does not use
				back()
				if base, unhandled = append(base, eTag(0x80+byte(l.N(2)), []byte{byte(1 + l.N(9))})...), true; l.N(3) == 0 {
					base = append(base[:len(base)-3:len(base)-3], append(eTag(0x80, []byte{1}), eTag(0x81, []byte{2})...)...)
				}
			}
			p = append(p, eSeq(base))
		}
		if len(p) == 0 {
			return nil
		}
		return bytes.Join(p, nil)
	}
	var p [][]byte
	if b := half(&c.PermittedDNSDomains, &c.PermittedEmailAddresses, &c.PermittedURIDomains, &c.PermittedIPRanges); b != nil {
		p = append(p, eTag(0xa0, b))
	}
	if b := half(&c.ExcludedDNSDomains, &c.ExcludedEmailAddresses, &c.ExcludedURIDomains, &c.ExcludedIPRanges); b != nil {
		p = append(p, eTag(0xa1, b))
	}
	if len(p) == 0 {
		it.bad = "empty name constraints"
	} else if l.P(6) && !it.isCA {
		it.bad = "invalid name constraint"
		v := eTag(0x81, []byte(fgNoMailbox(l)))
		if o := [][]byte{eTag(0x87, []byte{10, 0, 0, 0, 255, 0, 255, 0}), eTag(0x87, []byte{10, 0, 0, 0}), eTag(0x87, []byte{1, 2, 3, 4, 5, 6, 7}), eTag(0x82, []byte("b\xc3\xbccher.example")),
			eTag(0x82, []byte("a..b")), eTag(0x82, []byte("with space")), eTag(0x81, []byte("a@b@c d")), eTag(0x81, []byte("@b")), eTag(0x81, []byte("\"open@b")), eTag(0x81, []byte(".a@b")),
			eTag(0x86, []byte("10.1.2.3")), eTag(0x86, []byte("a..b")), eTag(0x86, []byte("a\xc3\xbc")), eTag(0x86, []byte(fgDomain(l)+".")), eTag(0x82, []byte("."+fgDomain(l)+"\x7f")), eTag(0x82, []byte(fgDomain(l)+".")),
			eTag(0x82, []byte("..a")), eTag(0x81, []byte("..a")), eTag(0x81, []byte("a b")), eTag(0x86, []byte("..a")), eTag(0x86, []byte("a b")), eTag(0x86, []byte("2001:db8::1")), eTag(0x81, []byte("\xc3\xbc@b")),
			eTag(0x87, ipv6s[0], net.IPMask{15: 1}), eTag(0x87, []byte{10, 0, 0, 0, 255, 128, 1, 0}), eTag(0x87, []byte{10, 0, 0, 0, 255, 5, 0, 0}), eTag(0x87, bytes.Repeat([]byte{9}, 31)), eTag(0x87),
			append(eTag(0x82, []byte("a.b")), 5, 0), append(eTag(0x82, []byte("a.b")), 0x81, 1, 1, 0x80, 1, 1), append(eTag(0x87, []byte{10, 0, 0, 0, 255, 0, 0, 0}), 4, 0)}; l.N(2) == 0 {
			v = o[l.N(len(o))]
		}
		it.bad = fmt.Sprintf("invalid name constraint %q", v)
		p = append(p[:0:0], eTag(0xa0+byte(l.N(2)), eSeq(v)))
	}
	if it.isCA && it.bad != "" {
		it.bad = ""
		return
	}
	c.PermittedDNSDomainsCritical = l.N(2) == 0
	add(c.PermittedDNSDomainsCritical, eSeq(p...), unhandled, 2, 5, 29, 30)
}

// diffCert compares a parsed certificate with what its issuer wrote.
func (it *fgItem) diffCert(c *x509.Certificate) string {
	if d := it.subject.diff("subject", c.Subject, c.RawSubject); d != "" {
		return d
	}
	if d := it.issuer.diff("issuer", c.Issuer, c.RawIssuer); d != "" {
		return d
	}
	if d := diffKey(it.holder, c.PublicKey); d != "" {
		return d
	}
	if d := it.job.diff(c); d != "" {
		return d
	}
	if len(c.Extensions) != len(it.exts) {
		return fmt.Sprintf("%d extensions, want %d", len(c.Extensions), len(it.exts))
	}
	for i, e := range it.exts {
		if g := c.Extensions[i]; !g.Id.Equal(e.Id) || g.Critical != e.Critical || !bytes.Equal(g.Value, e.Value) {
			return fmt.Sprintf("extension %d is %v, want %v", i, g, e)
		}
	}
	return ""
}

// diffReq compares a parsed request with what its requester wrote.
func (it *fgItem) diffReq(c *x509.CertificateRequest) string {
	if d := it.subject.diff("subject", c.Subject, c.RawSubject); d != "" {
		return d
	}
	if d := diffKey(it.holder, c.PublicKey); d != "" {
		return d
	}
	if len(c.Extensions) != len(it.exts) {
		return fmt.Sprintf("%d extensions, want %d", len(c.Extensions), len(it.exts))
	}
	for i, e := range it.exts {
		if g := c.Extensions[i]; !g.Id.Equal(e.Id) || g.Critical != e.Critical || !bytes.Equal(g.Value, e.Value) {
			return fmt.Sprintf("extension %d is %v, want %v", i, g, e)
		}
	}
	if d := diffSANs(it.names, c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs); d != "" {
		return d
	}
	if c.Version != 0 {
		return fmt.Sprintf("version %d", c.Version)
	}
	var got []string
	for _, a := range c.Attributes {
		if a.Type.Equal(oidExtReq) {
			continue
		}
		got = append(got, attrText(a))
	}
	var want []string
	for _, d := range it.attrs {
		var a pkix.AttributeTypeAndValueSET
		if _, err := asn1.Unmarshal(d, &a); err != nil {
			panic(err)
		}
		want = append(want, attrText(a))
	}
	if !sameStrings(got, want) {
		return fmt.Sprintf("attributes %q, want %q", got, want)
	}
	return ""
}

func attrText(a pkix.AttributeTypeAndValueSET) string {
	s := a.Type.String()
	for _, v := range a.Value {
		s += " ["
		for _, q := range v {
			s += fmt.Sprintf("%v=%v;", q.Type, q.Value)
		}
		s += "]"
	}
	return s
}
