package checks

import (
	easn1 "encoding/asn1"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C14", Quick: 400000, Thor: 12000000, Chunk: 1000, Special: 8,
		Run:    runC14,
		Rule:   "each run encodes a random tree of values (plus hand-made non-canonical integers, booleans, identifiers, bit strings, times and lengths), damages it (bit flips, lost, repeated, replaced and swapped bytes, spliced lengths) or not, and delivers it to 1-3 reading threads in fragments of any size over a simulated connection that may end early. A thread reads with any of 40 operations, mostly the one that fits, descends into nested content, and after a failed read waits for more data and reads again from where it was. Result, value, and remaining bytes of every read are compared with a model reader; the bytes not yet delivered lie behind the slice's length. Non-trivial: damage, a cut, or a read tried on incomplete data. Distinct by event-log hash.",
		Real:   []string{"cryptobyte String"},
		Stub:   []string{stubSched, stubClock, "connection delivering the message"},
		Assume: []string{"identifier components of 2^28 and more may be refused", "a time with second 60 or a zone of 24 hours or more may be refused", "reading zero bytes from an empty string may fail", "a failed read may have advanced"},
	})
}

// elem is the model of an element header: definite, minimal lengths, low tags.
type elem struct {
	tag     byte
	content []byte
	whole   []byte
}

func parseElem(b []byte) (e elem, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return e, false
	}
	h, n := 2, uint64(b[1])
	if n >= 0x80 {
		k := int(n & 0x7f)
		if k == 0 || k > 4 || len(b) < 2+k {
			return e, false
		}
		n = 0
		for _, c := range b[2 : 2+k] {
			n = n<<8 | uint64(c)
		}
		if b[2] == 0 || n < 128 {
			return e, false
		}
		h += k
	}
	if n > uint64(len(b)-h) {
		return e, false
	}
	return elem{b[0], b[h : h+int(n)], b[:h+int(n)]}, true
}

func modelInt(c []byte) (*big.Int, bool) {
	if len(c) == 0 || len(c) > 1 && (c[0] == 0 && c[1] < 0x80 || c[0] == 0xff && c[1] >= 0x80) {
		return nil, false
	}
	v := new(big.Int).SetBytes(c)
	if c[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(one, uint(8*len(c))))
	}
	return v, true
}

// modelOID: large means some component is so large that it may be refused.
func modelOID(c []byte) (s string, large, ok bool) {
	if len(c) == 0 || c[len(c)-1] >= 0x80 {
		return "", false, false
	}
	var cs []*big.Int
	v, start := new(big.Int), true
	for _, b := range c {
		if start && b == 0x80 {
			return "", false, false
		}
		v.Lsh(v, 7).Or(v, big.NewInt(int64(b&0x7f)))
		start = b < 0x80
		if start {
			large = large || v.BitLen() > 28
			if len(cs) == 0 {
				a := int64(2)
				if v.Cmp(big.NewInt(80)) < 0 {
					a = v.Int64() / 40
				}
				cs = append(cs, big.NewInt(a))
				v.Sub(v, big.NewInt(40*a))
			}
			cs = append(cs, v)
			v = new(big.Int)
		}
	}
	for i, x := range cs {
		if i > 0 {
			s += "."
		}
		s += x.String()
	}
	return s, large, true
}

func modelTime(c []byte) (t time.Time, either, ok bool) {
	d := make([]int, 0, 18)
	num := func(i, n int) int {
		v := 0
		for _, x := range c[i : i+n] {
			if x < '0' || x > '9' {
				return -1
			}
			v = v*10 + int(x-'0')
		}
		return v
	}
	if len(c) != 15 && len(c) != 19 {
		return
	}
	for _, p := range [][2]int{{0, 4}, {4, 2}, {6, 2}, {8, 2}, {10, 2}, {12, 2}} {
		v := num(p[0], p[1])
		if v < 0 {
			return
		}
		d = append(d, v)
	}
	if d[1] < 1 || d[1] > 12 || d[2] < 1 || d[3] > 23 || d[4] > 59 || d[5] > 60 {
		return
	}
	if d[2] > time.Date(d[0], time.Month(d[1]+1), 0, 0, 0, 0, 0, time.UTC).Day() {
		return
	}
	loc := time.UTC
	if len(c) == 15 {
		if c[14] != 'Z' {
			return
		}
	} else {
		hh, mm := num(15, 2), num(17, 2)
		if hh < 0 || mm < 0 || mm > 59 || c[14] != '+' && c[14] != '-' || hh == 0 && mm == 0 {
			return
		}
		off := hh*3600 + mm*60
		if c[14] == '-' {
			off = -off
		}
		either = hh >= 24
		loc = time.FixedZone("", off)
	}
	if d[5] == 60 {
		either = true
	}
	return time.Date(d[0], time.Month(d[1]), d[2], d[3], d[4], d[5], 0, loc), either, true
}

// rd is the outcome of one read: whether it succeeded, what it gave, what is
// left, and, for nested content, where to go on.
type rd struct {
	ok     bool
	either bool // the model allows refusal
	val    string
	rest   []byte
	sub    []byte
	hasSub bool
}

type namedInt int16
type namedUint uint32

// intKinds are the destinations of an integer read, holding junk beforehand.
var intKinds = []func() interface{}{
	func() interface{} { v := int(-77); return &v }, func() interface{} { v := int8(-7); return &v },
	func() interface{} { v := int16(77); return &v }, func() interface{} { v := int32(-777); return &v },
	func() interface{} { v := int64(1 << 40); return &v }, func() interface{} { v := uint(math.MaxUint64); return &v },
	func() interface{} { v := uint8(255); return &v }, func() interface{} { v := uint16(7); return &v },
	func() interface{} { v := uint32(1 << 31); return &v }, func() interface{} { v := uint64(1<<63 + 1); return &v },
	func() interface{} { return big.NewInt(-1 << 62) }, func() interface{} { v := namedInt(5); return &v },
	func() interface{} { v := namedUint(5); return &v },
}

func intVal(out interface{}) *big.Int {
	if b, ok := out.(*big.Int); ok {
		return b
	}
	v := reflect.ValueOf(out).Elem()
	if v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uint64 {
		return new(big.Int).SetUint64(v.Uint())
	}
	return big.NewInt(v.Int())
}

func intFits(v *big.Int, out interface{}) bool {
	if _, ok := out.(*big.Int); ok {
		return true
	}
	t := reflect.TypeOf(out).Elem()
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		return v.Sign() >= 0 && v.BitLen() <= t.Bits()
	}
	lo := new(big.Int).Lsh(one, uint(t.Bits()-1))
	return v.Cmp(lo) < 0 && v.Cmp(new(big.Int).Neg(lo)) >= 0
}

func rawVal(b []byte) string { return "bytes " + string(b) }
func boolVal(b bool) string  { return fmt.Sprint("bool ", b) }
func timeVal(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf("time %d.%09d %+d", t.Unix(), t.Nanosecond(), off)
}

// readOp is one kind of read: what gm does and what the model says.
type readOp struct {
	name  string
	gm    func(s *cryptobyte.String) rd
	model func(b []byte) rd
}

func fixed(n int, b []byte, f func(b []byte) rd) rd {
	if n < 0 || len(b) < n {
		return rd{}
	}
	r := f(b[:n])
	r.rest = b[n:]
	return r
}

func opUint(n int) readOp {
	return readOp{fmt.Sprintf("ReadUint%d", 8*n), func(s *cryptobyte.String) (r rd) {
		var v uint32 = 0xdeadbeef
		switch n {
		case 1:
			b := uint8(0xaa)
			r.ok = s.ReadUint8(&b)
			v = uint32(b)
		case 2:
			b := uint16(0xaaaa)
			r.ok = s.ReadUint16(&b)
			v = uint32(b)
		case 3:
			r.ok = s.ReadUint24(&v)
		case 4:
			r.ok = s.ReadUint32(&v)
		}
		r.val = fmt.Sprint(v)
		return r
	}, func(b []byte) rd {
		return fixed(n, b, func(b []byte) rd {
			return rd{ok: true, val: new(big.Int).SetBytes(b).String()}
		})
	}}
}

func opLP(n int) readOp {
	return readOp{fmt.Sprintf("ReadUint%dLengthPrefixed", 8*n), func(s *cryptobyte.String) (r rd) {
		out := cryptobyte.String("junk")
		switch n {
		case 1:
			r.ok = s.ReadUint8LengthPrefixed(&out)
		case 2:
			r.ok = s.ReadUint16LengthPrefixed(&out)
		case 3:
			r.ok = s.ReadUint24LengthPrefixed(&out)
		}
		r.val, r.sub, r.hasSub = rawVal(out), out, true
		return r
	}, func(b []byte) rd {
		if len(b) < n {
			return rd{}
		}
		k := int(new(big.Int).SetBytes(b[:n]).Int64())
		if len(b)-n < k {
			return rd{}
		}
		return rd{ok: true, val: rawVal(b[n : n+k]), sub: b[n : n+k], hasSub: true, rest: b[n+k:]}
	}}
}

func opBytes(kind, n int) readOp {
	return readOp{fmt.Sprintf("%s(%d)", []string{"ReadBytes", "CopyBytes", "Skip"}[kind], n), func(s *cryptobyte.String) (r rd) {
		switch kind {
		case 0:
			out := []byte("junk")
			r.ok = s.ReadBytes(&out, n)
			r.val = rawVal(out)
		case 1:
			buf := make([]byte, n+6)
			for i := range buf {
				buf[i] = 0xc3
			}
			r.ok = s.CopyBytes(buf[3 : n+3])
			for _, i := range []int{0, 1, 2, n + 3, n + 4, n + 5} {
				if buf[i] != 0xc3 {
					r.val = "wrote outside the destination"
					return r
				}
			}
			r.val = rawVal(buf[3 : n+3])
		case 2:
			r.ok = s.Skip(n)
		}
		return r
	}, func(b []byte) rd {
		r := fixed(n, b, func(b []byte) rd {
			if kind == 2 {
				return rd{ok: true}
			}
			return rd{ok: true, val: rawVal(b)}
		})
		r.either = r.ok && n == 0 && len(b) == 0
		return r
	}}
}

func opInt(k int) readOp {
	return readOp{fmt.Sprintf("ReadASN1Integer(%T)", intKinds[k]()), func(s *cryptobyte.String) (r rd) {
		out := intKinds[k]()
		r.ok = s.ReadASN1Integer(out)
		r.val = intVal(out).String()
		return r
	}, func(b []byte) rd {
		e, ok := parseElem(b)
		if !ok || e.tag != 2 {
			return rd{}
		}
		v, ok := modelInt(e.content)
		if !ok || !intFits(v, intKinds[k]()) {
			return rd{}
		}
		return rd{ok: true, val: v.String(), rest: b[len(e.whole):]}
	}}
}

func modelBool(c []byte) (string, bool) {
	if len(c) != 1 || c[0] != 0 && c[0] != 0xff {
		return "", false
	}
	return boolVal(c[0] == 0xff), true
}

// simple is an operation that reads one element with a fixed tag.
func simple(name string, tag byte, gm func(s *cryptobyte.String) (string, bool), model func(c []byte) (string, bool, bool)) readOp {
	return readOp{name, func(s *cryptobyte.String) (r rd) {
		r.val, r.ok = gm(s)
		return r
	}, func(b []byte) rd {
		e, ok := parseElem(b)
		if !ok || e.tag != tag {
			return rd{}
		}
		v, either, ok := model(e.content)
		if !ok {
			return rd{}
		}
		return rd{ok: true, either: either, val: v, rest: b[len(e.whole):]}
	}}
}

func opEnum() readOp {
	return simple("ReadASN1Enum", 10, func(s *cryptobyte.String) (string, bool) {
		v := -12345
		ok := s.ReadASN1Enum(&v)
		return fmt.Sprint(v), ok
	}, func(c []byte) (string, bool, bool) {
		v, ok := modelInt(c)
		if !ok || !v.IsInt64() {
			return "", false, false
		}
		return v.String(), false, true
	})
}

func opBool(junk bool) readOp {
	return simple("ReadASN1Boolean", 1, func(s *cryptobyte.String) (string, bool) {
		v := junk
		ok := s.ReadASN1Boolean(&v)
		return boolVal(v), ok
	}, func(c []byte) (string, bool, bool) {
		v, ok := modelBool(c)
		return v, false, ok
	})
}

func opOID() readOp {
	return simple("ReadASN1ObjectIdentifier", 6, func(s *cryptobyte.String) (string, bool) {
		v := easn1.ObjectIdentifier{9, 9, 9}
		ok := s.ReadASN1ObjectIdentifier(&v)
		return v.String(), ok
	}, modelOID)
}

func opTime() readOp {
	return simple("ReadASN1GeneralizedTime", 24, func(s *cryptobyte.String) (string, bool) {
		v := time.Unix(1, 1)
		ok := s.ReadASN1GeneralizedTime(&v)
		return timeVal(v), ok
	}, func(c []byte) (string, bool, bool) {
		v, either, ok := modelTime(c)
		return timeVal(v), either, ok
	})
}

func opBits(kind int) readOp {
	if kind == 1 {
		return simple("ReadASN1BitStringAsBytes", 3, func(s *cryptobyte.String) (string, bool) {
			out := []byte("junk")
			ok := s.ReadASN1BitStringAsBytes(&out)
			return rawVal(out), ok
		}, func(c []byte) (string, bool, bool) {
			if len(c) == 0 || c[0] != 0 {
				return "", false, false
			}
			return rawVal(c[1:]), false, true
		})
	}
	return simple("ReadASN1BitString", 3, func(s *cryptobyte.String) (string, bool) {
		out := easn1.BitString{Bytes: []byte("junk"), BitLength: 3}
		ok := s.ReadASN1BitString(&out)
		return fmt.Sprint(out.BitLength, " bits ", string(out.Bytes)), ok
	}, func(c []byte) (string, bool, bool) {
		if len(c) == 0 || c[0] > 7 || c[0] > 0 && (len(c) == 1 || c[len(c)-1]&(1<<c[0]-1) != 0) {
			return "", false, false
		}
		return fmt.Sprint(8*(len(c)-1)-int(c[0]), " bits ", string(c[1:])), false, true
	})
}

// opASN1 are the reads that give an element or its content.
func opASN1(kind int, tag byte) readOp {
	names := []string{"ReadASN1", "ReadASN1Bytes", "ReadASN1Element", "SkipASN1", "ReadAnyASN1", "ReadAnyASN1Element",
		"ReadOptionalASN1", "SkipOptionalASN1", "ReadOptionalASN1(nil)", "PeekASN1Tag"}
	return readOp{fmt.Sprintf("%s(%02x)", names[kind], tag), func(s *cryptobyte.String) (r rd) {
		out := cryptobyte.String("junk")
		tg := asn1.Tag(0x55)
		pres := len(*s)%2 == 0
		switch kind {
		case 0:
			r.ok = s.ReadASN1(&out, asn1.Tag(tag))
			r.val, r.sub, r.hasSub = rawVal(out), out, true
		case 1:
			r.ok = s.ReadASN1Bytes((*[]byte)(&out), asn1.Tag(tag))
			r.val, r.sub, r.hasSub = rawVal(out), out, true
		case 2:
			r.ok = s.ReadASN1Element(&out, asn1.Tag(tag))
			r.val, r.sub, r.hasSub = rawVal(out), out, true
		case 3:
			r.ok = s.SkipASN1(asn1.Tag(tag))
		case 4:
			r.ok = s.ReadAnyASN1(&out, &tg)
			r.val, r.sub, r.hasSub = fmt.Sprintf("%02x %s", int(tg), rawVal(out)), out, true
		case 5:
			r.ok = s.ReadAnyASN1Element(&out, &tg)
			r.val, r.sub, r.hasSub = fmt.Sprintf("%02x %s", int(tg), rawVal(out)), out, true
		case 6:
			r.ok = s.ReadOptionalASN1(&out, &pres, asn1.Tag(tag))
			r.val = boolVal(pres)
			if pres {
				r.val, r.sub, r.hasSub = r.val+rawVal(out), out, true
			}
		case 7:
			r.ok = s.SkipOptionalASN1(asn1.Tag(tag))
		case 8:
			r.ok = s.ReadOptionalASN1(&out, nil, asn1.Tag(tag))
		case 9:
			r.ok, r.val = true, boolVal(s.PeekASN1Tag(asn1.Tag(tag)))
		}
		return r
	}, func(b []byte) rd {
		e, ok := parseElem(b)
		if kind == 9 {
			return rd{ok: true, val: boolVal(len(b) > 0 && b[0] == tag), rest: b}
		}
		if kind >= 6 && (len(b) == 0 || b[0] != tag) {
			r := rd{ok: true, rest: b}
			if kind == 6 {
				r.val = boolVal(false)
			}
			return r
		}
		if !ok || kind != 4 && kind != 5 && e.tag != tag {
			return rd{}
		}
		r := rd{ok: true, rest: b[len(e.whole):], sub: e.content, hasSub: true}
		switch kind {
		case 0, 1:
			r.val = rawVal(e.content)
		case 2:
			r.val, r.sub = rawVal(e.whole), e.whole
		case 3, 7, 8:
			r.hasSub, r.sub = false, nil
		case 4:
			r.val = fmt.Sprintf("%02x %s", e.tag, rawVal(e.content))
		case 5:
			r.val, r.sub = fmt.Sprintf("%02x %s", e.tag, rawVal(e.whole)), e.whole
		case 6:
			r.val = boolVal(true) + rawVal(e.content)
		}
		return r
	}}
}

func opOptInt(k int, tag byte, def int64) readOp {
	return readOp{fmt.Sprintf("ReadOptionalASN1Integer(%T,%02x)", intKinds[k](), tag), func(s *cryptobyte.String) (r rd) {
		out := intKinds[k]()
		var d interface{} = big.NewInt(def)
		if k != 10 {
			v := reflect.New(reflect.TypeOf(out).Elem()).Elem()
			if v.Kind() >= reflect.Uint {
				v.SetUint(uint64(def))
			} else {
				v.SetInt(def)
			}
			d = v.Interface()
		}
		r.ok = s.ReadOptionalASN1Integer(out, asn1.Tag(tag), d)
		r.val = intVal(out).String()
		if o, ok := out.(*big.Int); ok {
			// The next value is stored in the same place.
			o.SetInt64(def + 1)
			if d.(*big.Int).Int64() != def {
				r.val += fmt.Sprintf(" (and the default is %v after out was set again)", d)
			}
		}
		return r
	}, func(b []byte) rd {
		if len(b) == 0 || b[0] != tag {
			return rd{ok: true, val: fmt.Sprint(def), rest: b}
		}
		e, ok := parseElem(b)
		if !ok {
			return rd{}
		}
		in, ok := parseElem(e.content)
		if !ok || in.tag != 2 || len(in.whole) != len(e.content) {
			return rd{}
		}
		v, ok := modelInt(in.content)
		if !ok || !intFits(v, intKinds[k]()) {
			return rd{}
		}
		return rd{ok: true, val: v.String(), rest: b[len(e.whole):]}
	}}
}

func opOptOctets(tag byte, withPresent bool) readOp {
	return readOp{fmt.Sprintf("ReadOptionalASN1OctetString(%02x)", tag), func(s *cryptobyte.String) (r rd) {
		out := []byte("junk")
		p := len(*s)%2 == 0
		if withPresent {
			r.ok = s.ReadOptionalASN1OctetString(&out, &p, asn1.Tag(tag))
			r.val = boolVal(p) + rawVal(out)
		} else {
			r.ok = s.ReadOptionalASN1OctetString(&out, nil, asn1.Tag(tag))
			r.val = rawVal(out)
		}
		return r
	}, func(b []byte) rd {
		mk := func(p bool, v []byte, rest []byte) rd {
			s := rawVal(v)
			if withPresent {
				s = boolVal(p) + s
			}
			return rd{ok: true, val: s, rest: rest}
		}
		if len(b) == 0 || b[0] != tag {
			return mk(false, nil, b)
		}
		e, ok := parseElem(b)
		if !ok {
			return rd{}
		}
		in, ok := parseElem(e.content)
		if !ok || in.tag != 4 || len(in.whole) != len(e.content) {
			return rd{}
		}
		return mk(true, in.content, b[len(e.whole):])
	}}
}

func opOptBool(def bool) readOp {
	return readOp{"ReadOptionalASN1Boolean", func(s *cryptobyte.String) (r rd) {
		v := !def
		r.ok = s.ReadOptionalASN1Boolean(&v, def)
		r.val = boolVal(v)
		return r
	}, func(b []byte) rd {
		if len(b) == 0 || b[0] != 1 {
			return rd{ok: true, val: boolVal(def), rest: b}
		}
		e, ok := parseElem(b)
		if !ok {
			return rd{}
		}
		v, ok := modelBool(e.content)
		return rd{ok: ok, val: v, rest: b[len(e.whole):]}
	}}
}

// pickRead draws any operation, with its arguments, for the data b.
func pickRead(l *sim.Lane, b []byte) readOp {
	tag := func() byte {
		if len(b) > 0 && l.N(4) > 0 {
			return b[0]
		}
		return []byte{0x30, 0x31, 0xa0, 0x80, 2, 1, 3, 4, 5, 6, 10, 24, 0x1f, 0xbf}[l.N(14)]
	}
	switch l.N(14) {
	case 0:
		return opUint(1 + l.N(4))
	case 1:
		return opLP(1 + l.N(3))
	case 2:
		n := []int{0, 1, len(b) - 1, len(b), len(b) + 1, l.N(len(b) + 1), l.N(len(b) + 1), l.N(2000), math.MaxInt64, math.MinInt64, -1, -len(b)}[l.N(12)]
		k := l.N(3)
		if k == 1 && (n < 0 || n > 1<<20) {
			n = len(b) + 1
		}
		return opBytes(k, n)
	case 3:
		return opInt(l.N(len(intKinds)))
	case 4:
		return opEnum()
	case 5:
		return opBool(l.N(2) == 0)
	case 6:
		return opOID()
	case 7:
		return opTime()
	case 8, 9:
		return opBits(l.N(2))
	case 10, 11:
		return opASN1(l.N(10), tag())
	case 12:
		if l.N(2) == 0 {
			return opOptInt(l.N(len(intKinds)), tag(), int64(l.N(128)))
		}
		return opOptOctets(tag(), l.N(2) == 0)
	}
	return opOptBool(l.N(2) == 0)
}

// fitting draws an operation that suits the next value of an intact message.
func fitting(l *sim.Lane, n *node, b []byte) readOp {
	switch n.kind {
	case "u8", "u16", "u24", "u32":
		return opUint(map[string]int{"u8": 1, "u16": 2, "u24": 3, "u32": 4}[n.kind])
	case "lp":
		return opLP(int(n.n))
	case "bytes":
		switch n.flavour {
		case "opt-int":
			return opOptInt(l.N(len(intKinds)), byte(n.n), int64(l.N(128)))
		case "opt-octets":
			return opOptOctets(byte(n.n), l.N(2) == 0)
		case "int":
			return opInt(l.N(len(intKinds)))
		case "enum":
			return opEnum()
		case "bool":
			if l.N(3) == 0 {
				return opOptBool(l.N(2) == 0)
			}
			return opBool(l.N(2) == 0)
		case "oid":
			return opOID()
		case "bits":
			return opBits(l.N(2))
		case "time":
			return opTime()
		case "any":
			if len(b) > 0 {
				return opASN1(l.N(10), b[0])
			}
		}
		return opBytes(l.N(3), len(n.b))
	case "int", "uint", "big":
		return opInt(l.N(len(intKinds)))
	case "enum":
		return opEnum()
	case "bool":
		if l.N(3) == 0 {
			return opOptBool(l.N(2) == 0)
		}
		return opBool(l.N(2) == 0)
	case "oid":
		return opOID()
	case "bits":
		return opBits(l.N(2))
	case "time":
		return opTime()
	}
	if len(b) > 0 {
		return opASN1(l.N(10), b[0])
	}
	return pickRead(l, b)
}

// odd makes an encoding at or over the edge of what DER allows.
func odd(l *sim.Lane) *node {
	r := l.Sub()
	n := &node{kind: "bytes"}
	switch l.N(9) {
	case 0, 1:
		n.flavour = "int"
		tag := byte(2)
		if l.N(3) == 0 {
			tag, n.flavour = 10, "enum"
		}
		c := r.Bytes([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 9, 10, 17}[l.N(12)])
		if len(c) > 0 && l.N(2) == 0 {
			c[0] = []byte{0, 0xff, 0x80, 0x7f}[l.N(4)]
		}
		if len(c) > 1 && l.N(2) == 0 {
			c[1] = []byte{0, 0xff, 0x80, 0x7f}[l.N(4)]
		}
		n.b = ref.Enc(tag, c)
		if l.N(4) == 0 {
			n.n, n.flavour = uint64(0xa0+l.N(4)), "opt-int"
			n.b = ref.Enc(byte(n.n), n.b, r.Bytes(l.N(2)))
		}
	case 2:
		n.flavour = "bool"
		n.b = ref.Enc(1, [][]byte{{0}, {0xff}, {1}, {0x7f}, {0x80}, {0xfe}, {}, {0, 0}, {0xff, 0xff}}[l.N(9)])
	case 3:
		n.flavour = "oid"
		var c []byte
		for i, m := 0, l.N(5); i < m; i++ {
			switch l.N(4) {
			case 0:
				c = append(c, base128(new(big.Int).SetBytes(r.Bytes(1+l.N(6))))...)
			case 1:
				c = append(c, 0x80, byte(l.N(128)))
			case 2:
				c = append(c, byte(l.N(128)))
			case 3:
				c = append(c, base128(new(big.Int).Lsh(one, uint([]int{7, 14, 21, 27, 28, 31, 32, 35, 63, 64}[l.N(10)])))...)
			}
		}
		if l.N(4) == 0 {
			c = append(c, 0x80|byte(l.N(128)))
		}
		n.b = ref.Enc(6, c)
	case 4:
		n.flavour = "bits"
		c := append([]byte{byte(l.N(10))}, r.Bytes(l.N(5))...)
		if l.N(2) == 0 && c[0] < 8 && len(c) > 1 {
			c[len(c)-1] &^= 1<<c[0] - 1
		}
		if l.P(8) {
			c = nil
		}
		n.b = ref.Enc(3, c)
	case 5:
		n.flavour = "time"
		t := []string{"20240229235959Z", "20230229000000Z", "20240101000000.5Z", "20240101000000+0000", "20240101000000-0000", "20240101000000",
			"202401010000Z", "20241301000000Z", "20240100000000Z", "20240101240000Z", "20240101006000Z", "20240101000060Z", "20240101000000z",
			"20240101000000+0800", "20240101000000-1130", "20240101000000+2400", "20240101000000+9959", "20240101000000+0060", "20240101000000+08",
			"20240101000000+080000", " 0240101000000Z", "+2024010100000Z", "2024010100000 Z", "00000101000000Z", "99991231235959Z", "20240431000000Z",
			"20240101000000Z ", "20240101000000ZZ", "20240101000000+08:0", ""}[l.N(30)]
		n.b = ref.Enc(24, []byte(t))
	case 6: // odd lengths
		n.flavour = "any"
		c := r.Bytes([]int{0, 1, 5, 126, 127, 128, 129, 255, 256, 257}[l.N(10)])
		k := l.N(6)
		n.b = []byte{[]byte{4, 0x30, 2, 3}[l.N(4)], byte(0x80 | k)}
		if k > 0 {
			n.b = append(n.b, be(uint64(len(c)), k)...)
		}
		n.b = append(n.b, c...)
	case 7:
		n.flavour = "any"
		n.b = append([]byte{4}, [][]byte{{0x84, 0xff, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xfa}, {0x84, 0xff, 0xff, 0xff, 0xfb}, {0x84, 0x7f, 0xff, 0xff, 0xff},
			{0x84, 0x80, 0, 0, 0}, {0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff}, {0x80, 0, 0}, {0x83, 0xff, 0xff, 0xff},
			{0x85, 1, 0, 0, 0, 0}, {0x85, 1, 0, 0, 0, 0x80}, {0x88, 1, 0, 0, 0, 0, 0, 0, 0x81}}[l.N(12)]...)
		n.b = append(n.b, r.Bytes(l.N(140))...)
	case 8:
		if l.N(2) == 0 {
			n.n, n.flavour = uint64(0xa0+l.N(4)), "opt-octets"
			n.b = ref.Enc(byte(n.n), ref.Enc([]byte{4, 4, 4, 2}[l.N(4)], r.Bytes(l.N(6))), r.Bytes(l.N(3)/2))
		} else {
			n.flavour = "any"
			n.b = append([]byte{[]byte{0x1f, 0x3f, 0x9f, 0xbf, 0xff}[l.N(5)]}, ref.Enc(byte(l.N(128)), r.Bytes(l.N(5)))...)
		}
	}
	return n
}

// sprinkle puts odd encodings between the values of a tree.
func sprinkle(l *sim.Lane, ks []*node) []*node {
	var out []*node
	for _, k := range ks {
		if k.kids != nil {
			k.kids = sprinkle(l, k.kids)
		}
		if l.N(3) == 0 {
			out = append(out, odd(l))
		}
		out = append(out, k)
	}
	if l.N(4) == 0 {
		out = append(out, odd(l))
	}
	return out
}

func flat(ks []*node) []*node {
	var out []*node
	for _, k := range ks {
		if k.kind == "value" {
			out = append(out, flat(k.kids)...)
		} else {
			out = append(out, k)
		}
	}
	return out
}

// damageMessage is what the transport may do to the bytes.
func damageMessage(w *sim.World, l *sim.Lane, m []byte) []byte {
	m = append([]byte(nil), m...)
	if len(m) == 0 {
		return m
	}
	r := l.Sub()
	for i, n := 0, 1+l.N(3); i < n && len(m) > 0; i++ {
		p := l.N(len(m))
		if l.N(3) == 0 && p > 12 {
			p = l.N(12) // headers live at the front
		}
		q := p + l.N(min(len(m)-p, 6)) + 1
		switch l.N(7) {
		case 0, 1:
			m[p] ^= 1 << l.N(8)
			w.Fired("bit-flip")
		case 2:
			m[p] = []byte{0, 0xff, 0x80, 0x7f, 0x81, 0x84, 0x1f, 1}[l.N(8)]
			w.Fired("byte-replaced")
		case 3:
			m = append(m[:p], m[q:]...)
			w.Fired("bytes-lost")
		case 4:
			m = append(m[:q], append(append([]byte(nil), m[p:q]...), m[q:]...)...)
			w.Fired("bytes-repeated")
		case 5:
			m = append(m[:p], append(r.Bytes(q-p), m[p:]...)...)
			w.Fired("bytes-inserted")
		case 6:
			o := l.N(len(m))
			m[p], m[o] = m[o], m[p]
			w.Fired("bytes-swapped")
		}
	}
	return m
}

// link is the connection: a message of which avail bytes have arrived. The
// bytes still to come already lie in memory behind the slice's length.
type link struct {
	w     *sim.World
	l     *sim.Lane
	buf   []byte
	avail int
	end   int // the connection closes after this many
	step  int
}

func (c *link) more(t *sim.T) bool {
	if c.avail >= c.end {
		return false
	}
	n := 1
	if c.step > 1 {
		n = 1 + c.l.N(c.step)
	}
	c.avail = min(c.avail+n, c.end)
	c.w.Fired("fragment")
	t.Sleep(int64(1+c.l.N(20)) * ms)
	return true
}

func runC14(w *sim.World, t *sim.T) {
	if w.Index >= SpecialBase {
		bigC14(w, t, w.Index-SpecialBase)
		return
	}
	L := w.Plan
	g := &treeGen{l: L, left: 1 + L.N(10), max: 24, valid: true}
	switch L.N(8) {
	case 0:
		g.max = 300
	case 1:
		if L.P(30) {
			g.max = 70000
		}
	}
	tree := g.list(0)
	if L.N(2) == 0 {
		tree = sprinkle(L, tree)
	}
	if L.N(12) == 0 {
		tree = append(tree, odd(L), odd(L))
	}
	msg, _ := encKids(tree)
	if w.Fault.N(5) < 2 {
		msg = damageMessage(w, w.Fault, msg)
	}
	gd, buf := guarded(L.Sub(), msg, 0)
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(5, 1, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			c := &link{w: w, l: w.Fault, buf: buf, end: len(buf), step: 1}
			switch w.Fault.N(4) {
			case 0:
				c.avail = len(buf)
			case 1:
				c.step = 1 + len(buf)/2
			case 2:
				c.step = 8
			}
			if len(buf) > 400 && c.step < 100 {
				c.step = len(buf) / 4
			}
			if w.Fault.N(3) == 0 && len(buf) > 0 {
				c.end = w.Fault.N(len(buf))
				c.avail = min(c.avail, c.end)
				w.Fired("connection-cut")
			}
			p := &parser{w: w, t: t, L: L, budget: 60, desc: fmt.Sprint(tree)}
			// At the top the message grows as fragments arrive.
			pos := 0
			nodes := flat(tree)
			for p.budget > 0 {
				n, ok := p.one(c.buf[pos:c.avail:len(c.buf)], &nodes)
				if ok {
					pos += n
					if pos >= c.end {
						break
					}
					continue
				}
				if !c.more(t) && L.N(3) == 0 {
					break
				}
			}
		})
	}
	if len(fs) == 1 {
		fs[0](t)
	} else {
		t.Par("r", fs...)
	}
	if c := gd.changed(); c != "" {
		w.Fail("message-changed", "reading %v: %s", tree, c)
	}
}

type parser struct {
	w      *sim.World
	t      *sim.T
	L      *sim.Lane
	budget int
	desc   string
}

// one performs one read on b, whose next values, if intact, are nodes; it
// returns how far the read advanced.
func (p *parser) one(b []byte, nodes *[]*node) (int, bool) {
	w, L := p.w, p.L
	p.budget--
	var op readOp
	fit := len(*nodes) > 0 && L.N(5) > 0
	if fit {
		op = fitting(L, (*nodes)[0], b)
	} else {
		op = pickRead(L, b)
	}
	want := op.model(b)
	s := cryptobyte.String(b)
	var got rd
	if pn := p.t.Try(op.name, func() { got = op.gm(&s) }); pn != nil {
		w.Fail(pn.Class(), "%s of %s: %s", op.name, sim.Hex(b), pn)
	}
	if got.ok && !want.ok {
		w.Fail("misread", "%s of %s succeeded with %q", op.name, sim.Hex(b), got.val)
	}
	if !got.ok {
		if want.ok && !want.either {
			w.Fail("refused", "%s of %s failed; it holds %q", op.name, sim.Hex(b), want.val)
		}
		w.Probe("read-refused")
		return 0, false
	}
	if got.val != want.val {
		w.Fail("wrong-value", "%s of %s gave %q, want %q", op.name, sim.Hex(b), got.val, want.val)
	}
	n := len(b) - len(want.rest)
	if string(s) != string(want.rest) {
		w.Fail("wrong-position", "%s of %s left %d bytes, want %d", op.name, sim.Hex(b), len(s), len(want.rest))
	}
	w.Probe("read-ok")
	var kids []*node
	if fit && n > 0 {
		if k := (*nodes)[0]; k.kind == "lp" || k.kind == "asn1" {
			kids = flat(k.kids)
		}
		*nodes = (*nodes)[1:]
	}
	if want.hasSub && len(want.sub) > 0 && L.N(4) > 0 {
		w.Probe("descended")
		in, pos := got.sub, 0
		for fails := 0; fails < 2 && p.budget > 0 && pos < len(in); {
			if d, ok := p.one(in[pos:], &kids); ok {
				pos += d
				if d == 0 {
					fails++
				}
			} else {
				fails++
			}
		}
	}
	return n, true
}

// bigC14 is about lengths around 2^16 and 2^24.
func bigC14(w *sim.World, t *sim.T, i int) {
	w.Nontrivial()
	size := []int{65534, 65535, 65536, 65537, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1}[i]
	data := make([]byte, size)
	data[0], data[size-1] = 0x5a, 0xa5
	whole := ref.Enc(4, data)
	ops := []readOp{opASN1(0, 4), opASN1(2, 4), opASN1(4, 4), opASN1(3, 4)}
	bufs := [][]byte{whole, whole, whole, whole}
	if size < 1<<16 {
		ops, bufs = append(ops, opLP(2)), append(bufs, append(be(uint64(size), 2), data...))
	}
	if size < 1<<24 {
		ops, bufs = append(ops, opLP(3)), append(bufs, append(be(uint64(size), 3), data...))
	}
	for k, op := range ops {
		for _, d := range []int{0, -1, -2, -size / 2, 1} {
			b := append([]byte(nil), bufs[k]...)
			if d > 0 {
				b = append(b, 7)
			}
			b = b[: len(bufs[k])+d : cap(b)]
			s := cryptobyte.String(b)
			var got rd
			if pn := t.TryBudget(op.name, 1<<40, func() { got = op.gm(&s) }); pn != nil {
				w.Fail(pn.Class(), "%s of %d bytes: %s", op.name, len(b), pn)
			}
			want := op.model(b)
			if got.ok != want.ok || got.ok && (got.val != want.val || len(s) != len(want.rest)) {
				w.Fail("misread", "%s of an element of %d bytes with %d bytes missing: ok=%v", op.name, size, -d, got.ok)
			}
		}
	}
	w.Probe("length-near-2^16-or-2^24")
}
