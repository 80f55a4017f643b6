package checks

import (
	easn1 "encoding/asn1"
	"errors"
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"

	"gmverif/ref"
	"gmverif/sim"
)

// node is one value of a message, with what is needed to build it with gm, to
// encode it with the model, and to read it back.
type node struct {
	kind    string
	n       uint64 // unsigned values, tag of an ASN.1 element, size of a length prefix
	i       int64
	big     *big.Int
	b       []byte
	oid     []int
	t       time.Time
	flag    bool
	any     interface{}
	kids    []*node
	stop    string // how the callback ends: "", or an abort kind
	at      int    // after how many kids
	wait    int64  // simulated time spent in the callback
	flavour string // what a hand-made encoding is meant as
}

// Abort kinds. Every one of them makes the whole message an error.
var aborts = []string{"build-error", "build-error-nil", "panic", "panic-recovered", "parent-write", "marshal-error", "child-error"}

var errBuild = errors.New("simulated callback failure")

type badEnc struct{ C chan int }

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(n-1-i)))
	}
	return b
}

func base128(v *big.Int) []byte {
	b := []byte{byte(new(big.Int).And(v, big.NewInt(127)).Int64())}
	for v = new(big.Int).Rsh(v, 7); v.Sign() > 0; v = new(big.Int).Rsh(v, 7) {
		b = append([]byte{byte(new(big.Int).And(v, big.NewInt(127)).Int64()) | 0x80}, b...)
	}
	return b
}

func encOID(oid []int) ([]byte, bool) {
	if len(oid) < 2 || oid[0] < 0 || oid[0] > 2 || oid[1] < 0 || oid[0] < 2 && oid[1] >= 40 {
		return nil, false
	}
	first := new(big.Int).Add(big.NewInt(int64(40*oid[0])), big.NewInt(int64(oid[1])))
	b := base128(first)
	for _, v := range oid[2:] {
		if v < 0 {
			return nil, false
		}
		b = append(b, base128(big.NewInt(int64(v)))...)
	}
	return ref.Enc(6, b), true
}

// encTime is the GeneralizedTime form; odd zones may also be written in UTC.
func encTime(t time.Time) ([]byte, bool) {
	_, off := t.Zone()
	if off%60 != 0 {
		t, off = t.UTC(), 0
	}
	if t.Year() < 0 || t.Year() > 9999 {
		return nil, false
	}
	s := fmt.Sprintf("%04d%02d%02d%02d%02d%02d", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second())
	if off == 0 {
		s += "Z"
	} else {
		sign := '+'
		if off < 0 {
			sign, off = '-', -off
		}
		s += fmt.Sprintf("%c%02d%02d", sign, off/3600, off/60%60)
	}
	return ref.Enc(24, []byte(s)), true
}

func encKids(ks []*node) ([]byte, bool) {
	var out []byte
	for _, k := range ks {
		b, ok := k.enc()
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, true
}

// mayRefuse reports a value so large that refusing it is as good as encoding it.
func mayRefuse(ks []*node) bool {
	for _, k := range ks {
		if k.kind == "oid" && len(k.oid) > 1 && k.oid[1] > math.MaxInt64-200 || mayRefuse(k.kids) {
			return true
		}
	}
	return false
}

// enc is the model: the bytes this value adds, or false for an error.
func (n *node) enc() ([]byte, bool) {
	if n.stop != "" {
		return nil, false
	}
	switch n.kind {
	case "u8":
		return be(n.n, 1), true
	case "u16":
		return be(n.n, 2), true
	case "u24":
		return be(n.n, 3), true
	case "u32":
		return be(n.n, 4), true
	case "bytes":
		return n.b, true
	case "lp":
		b, ok := encKids(n.kids)
		if !ok || n.n < 4 && uint64(len(b)) >= 1<<(8*n.n) {
			return nil, false
		}
		return append(be(uint64(len(b)), int(n.n)), b...), true
	case "asn1":
		b, ok := encKids(n.kids)
		if !ok || n.n&0x1f == 0x1f {
			return nil, false
		}
		return ref.Enc(byte(n.n), b), true
	case "value":
		return encKids(n.kids)
	case "int":
		return ref.EncInt(big.NewInt(n.i)), true
	case "enum":
		b := ref.EncInt(big.NewInt(n.i))
		b[0] = 10
		return b, true
	case "uint":
		return ref.EncInt(new(big.Int).SetUint64(n.n)), true
	case "big":
		return ref.EncInt(n.big), true
	case "octets":
		return ref.Enc(4, n.b), true
	case "time":
		return encTime(n.t)
	case "bits":
		return ref.Enc(3, []byte{0}, n.b), true
	case "oid":
		return encOID(n.oid)
	case "bool":
		if n.flag {
			return []byte{1, 1, 0xff}, true
		}
		return []byte{1, 1, 0}, true
	case "null":
		return []byte{5, 0}, true
	case "any":
		b, err := easn1.Marshal(n.any)
		return b, err == nil
	}
	panic("node kind " + n.kind)
}

type marshaler struct {
	f func(b *cryptobyte.Builder) error
}

func (m marshaler) Marshal(b *cryptobyte.Builder) error { return m.f(b) }

type foreignPanic struct{}

// add builds this value with gm.
func (n *node) add(t *sim.T, b *cryptobyte.Builder) {
	switch n.kind {
	case "u8":
		b.AddUint8(uint8(n.n))
	case "u16":
		b.AddUint16(uint16(n.n))
	case "u24":
		b.AddUint24(uint32(n.n))
	case "u32":
		b.AddUint32(uint32(n.n))
	case "bytes":
		b.AddBytes(n.b)
	case "lp":
		f := n.callback(t, b)
		n.guard(func() {
			switch n.n {
			case 1:
				b.AddUint8LengthPrefixed(f)
			case 2:
				b.AddUint16LengthPrefixed(f)
			case 3:
				b.AddUint24LengthPrefixed(f)
			case 4:
				b.AddUint32LengthPrefixed(f)
			}
		})
	case "asn1":
		f := n.callback(t, b)
		n.guard(func() { b.AddASN1(asn1.Tag(n.n), f) })
	case "value":
		f := n.callback(t, nil)
		n.guard(func() {
			b.AddValue(marshaler{func(b *cryptobyte.Builder) error {
				f(b)
				if n.stop == "marshal-error" {
					return errBuild
				}
				return nil
			}})
		})
	case "int":
		b.AddASN1Int64(n.i)
	case "enum":
		b.AddASN1Enum(n.i)
	case "uint":
		b.AddASN1Uint64(n.n)
	case "big":
		b.AddASN1BigInt(n.big)
	case "octets":
		b.AddASN1OctetString(n.b)
	case "time":
		b.AddASN1GeneralizedTime(n.t)
	case "bits":
		b.AddASN1BitString(n.b)
	case "oid":
		b.AddASN1ObjectIdentifier(n.oid)
	case "bool":
		b.AddASN1Boolean(n.flag)
	case "null":
		b.AddASN1NULL()
	case "any":
		b.MarshalASN1(n.any)
	}
}

// guard recovers around the call, where the abort kind says so.
func (n *node) guard(f func()) {
	if n.stop == "panic-recovered" {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(foreignPanic); !ok {
					panic(r)
				}
			}
		}()
	}
	f()
}

// callback is the continuation that writes the kids and ends as n.stop says.
func (n *node) callback(t *sim.T, parent *cryptobyte.Builder) func(*cryptobyte.Builder) {
	return func(c *cryptobyte.Builder) {
		t.Point()
		for i, k := range n.kids {
			n.abort(t, c, parent, i)
			k.add(t, c)
		}
		n.abort(t, c, parent, len(n.kids))
		if n.wait > 0 {
			t.W.Fired("callback-stall")
			t.Sleep(n.wait)
		}
	}
}

func (n *node) abort(t *sim.T, c, parent *cryptobyte.Builder, i int) {
	if n.stop == "" || n.at != i {
		return
	}
	t.W.Fired("callback-" + n.stop)
	switch n.stop {
	case "build-error":
		panic(cryptobyte.BuildError{Err: errBuild})
	case "build-error-nil":
		panic(cryptobyte.BuildError{})
	case "panic", "panic-recovered":
		panic(foreignPanic{})
	case "parent-write":
		if parent != nil {
			parent.AddUint8(1)
		}
		panic(foreignPanic{})
	case "child-error":
		c.AddASN1(0x1f, func(*cryptobyte.Builder) {})
	case "marshal-error":
		c.AddValue(marshaler{func(*cryptobyte.Builder) error { return errBuild }})
	}
}

// ---- generation ----

type treeGen struct {
	l      *sim.Lane
	f      *sim.Lane // aborts; nil for none
	left   int
	max    int // content size
	aborts int
	valid  bool // only values that can be encoded and read back
}

var intEdges = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, -255, -256, -257, 32767, 32768, -32768, -32769, 65535, 65536,
	1<<23 - 1, 1 << 23, -1 << 23, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<55 - 1, 1 << 55, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

func (g *treeGen) int64() int64 {
	if g.l.N(2) == 0 {
		return intEdges[g.l.N(len(intEdges))]
	}
	return int64(g.l.Sub().U64()) >> uint(g.l.N(64))
}

func (g *treeGen) bytes() []byte {
	n := pickLen(g.l, g.max)
	if g.l.P(6) {
		n = []int{125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258}[g.l.N(12)]
		if n > g.max {
			n = g.max
		}
	}
	return g.l.Sub().Bytes(n)
}

func (g *treeGen) oid() []int {
	l := g.l
	o := []int{l.N(3), l.N(40)}
	if o[0] == 2 && l.N(2) == 0 {
		o[1] = []int{0, 39, 40, 47, 48, 79, 80, 175, 999, 16303, 16304}[l.N(11)]
	}
	for i, n := 0, l.N(6); i < n; i++ {
		o = append(o, []int{0, 1, 127, 128, 129, 255, 16383, 16384, 113549, 2097151, 2097152, 1<<28 - 1, l.N(1 << 28), l.N(1 << 14)}[l.N(14)])
	}
	if g.valid || l.N(3) > 0 {
		return o
	}
	switch l.N(8) {
	case 0:
		return o[:l.N(2)]
	case 1:
		o[0] = 3 + l.N(100)
	case 2:
		o[0], o[1] = l.N(2), 40+l.N(100)
	case 3:
		o[l.N(len(o))] = -1 - l.N(100)
	case 4:
		o[0], o[1] = 2, math.MaxInt64-l.N(100)
	case 5:
		o = append(o, math.MaxInt64)
	case 6:
		o = append(o, 1<<28+l.N(100))
	case 7:
		o = append(o, 1<<35, 1<<56, 1<<32-1)
	}
	return o
}

func (g *treeGen) time() time.Time {
	l := g.l
	t := time.Date(l.N(10000), time.Month(1+l.N(12)), 1+l.N(31), l.N(24), l.N(60), l.N(60), 0, time.UTC)
	if l.N(3) == 0 {
		t = t.Add(time.Duration(l.N(999999999)))
	}
	if l.N(3) == 0 {
		t = time.Date([]int{0, 1, 1949, 1950, 1999, 2000, 2049, 2050, 2400, 9999}[l.N(10)], 12, 31, 23, 59, 59, 0, time.UTC)
	}
	switch l.N(4) {
	case 0:
		t = t.In(time.FixedZone("a", 60*l.Range(-14*60, 14*60)))
	case 1:
		if !g.valid {
			t = t.In(time.FixedZone("b", l.Range(-14*3600, 14*3600)))
		}
	}
	if !g.valid && l.P(10) {
		t = t.AddDate(10000*(1-2*l.N(2)), 0, 0)
	}
	if g.valid && (t.Year() < 0 || t.Year() > 9999) {
		t = t.UTC()
	}
	return t
}

func (g *treeGen) list(depth int) []*node {
	var ks []*node
	n := g.l.N(5)
	if depth == 0 {
		n = 1 + g.l.N(5)
	}
	for i := 0; i < n && g.left > 0; i++ {
		ks = append(ks, g.node(depth))
	}
	return ks
}

func (g *treeGen) node(depth int) *node {
	l := g.l
	g.left--
	kinds := []string{"lp", "asn1", "u8", "u16", "u24", "u32", "bytes", "int", "enum", "uint", "big", "octets", "time", "bits", "oid", "bool", "null", "value", "any"}
	k := l.N(len(kinds) + 5)
	if k >= len(kinds) { // more nesting
		k = (k - len(kinds)) % 2
	}
	if depth >= 5 && (k < 2 || kinds[k] == "value") {
		k = 2 + l.N(15)
	}
	n := &node{kind: kinds[k]}
	switch n.kind {
	case "lp":
		n.n = uint64(1 + l.N(4))
		if g.valid && n.n == 4 {
			n.n = 3
		}
		n.kids = g.list(depth + 1)
		g.callback(n)
	case "asn1":
		n.n = uint64([]int{0x30, 0x31, 0xa0, 0xa3, 0x80, 0x13, 0x0c, 0x24, 4, 0x7e}[l.N(10)])
		if !g.valid && l.P(30) {
			n.n = uint64([]int{0x1f, 0x3f, 0xbf, 0xff}[l.N(4)])
		}
		n.kids = g.list(depth + 1)
		g.callback(n)
	case "value":
		n.kids = g.list(depth + 1)
		g.callback(n)
	case "u8", "u16", "u24", "u32":
		n.n = l.Sub().U64() & (1<<32 - 1)
		if g.valid {
			n.n &= 1<<(8*map[string]uint{"u8": 1, "u16": 2, "u24": 3, "u32": 4}[n.kind]) - 1
		}
	case "bytes", "octets", "bits":
		n.b = g.bytes()
	case "int", "enum":
		n.i = g.int64()
	case "uint":
		n.n = uint64(g.int64())
		if l.N(4) == 0 {
			n.n = uint64(1) << uint(7+8*l.N(8)) // top bit of its first byte
			n.n -= uint64(l.N(2))
		}
	case "big":
		n.big = big.NewInt(g.int64())
		switch l.N(3) {
		case 0:
			n.big.SetBytes(l.Sub().Bytes(1 + l.LogSize(40)))
		case 1:
			n.big.Lsh(one, uint(8*(1+l.N(40))-l.N(2)))
			n.big.Add(n.big, big.NewInt(int64(l.Range(-2, 2))))
		}
		if l.N(2) == 0 {
			n.big.Neg(n.big)
		}
	case "time":
		n.t = g.time()
	case "oid":
		n.oid = g.oid()
	case "bool":
		n.flag = l.N(2) == 0
	case "any":
		switch l.N(5) {
		case 0:
			n.any = int(int32(g.int64()))
		case 1:
			n.any = "text"
		case 2:
			n.any = []int{1, 2, 300}
		case 3:
			n.any = easn1.RawValue{Tag: 4, Bytes: g.bytes()}
		case 4:
			if g.valid {
				n.any = g.bytes()
			} else {
				n.any = badEnc{}
			}
		}
	}
	return n
}

func (g *treeGen) callback(n *node) {
	if g.f == nil {
		return
	}
	if g.f.P(12) && g.aborts < 2 {
		g.aborts++
		n.stop = aborts[g.f.N(len(aborts))]
		n.at = g.f.N(len(n.kids) + 1)
	}
	if g.f.P(8) {
		n.wait = int64(1+g.f.N(1000)) * ms
	}
}
