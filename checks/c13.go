package checks

import (
	"bytes"
	"fmt"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 240000, Thor: 10000000, Chunk: 400, Special: 6,
		Run:    runC13,
		Rule:   "each run has 1-3 threads that build random trees of values (19 kinds, nesting up to 6 deep, content around the 127/128/255/256/65535/65536 byte boundaries, six runs around 2^24) with growing builders, builders over a buffer with spare room, and fixed builders at every capacity from 0 past the size (or at the interesting ones), while callbacks and values abort in seven ways, stall, or write to their parent; failed builders are written to again. Output or error is compared with a model encoder, memory outside the buffer with its old content. Non-trivial: an injected fault (abort, exhausted buffer) or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"cryptobyte Builder"},
		Stub:   []string{stubSched, stubClock, "callbacks and marshaling values"},
		Assume: []string{"a child builder is not used after its callback returned", "the zone of a time is a multiple of a minute, or the time may be written in UTC"},
	})
}

func runC13(w *sim.World, t *sim.T) {
	if w.Index >= SpecialBase {
		bigC13(w, t, w.Index-SpecialBase)
		return
	}
	L := w.Plan
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(4, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 1+L.N(3); j < m; j++ {
				buildC13(w, t)
			}
		})
	}
	if len(fs) == 1 {
		fs[0](t)
		return
	}
	t.Par("b", fs...)
}

func (n *node) String() string {
	s := n.kind
	switch n.kind {
	case "lp":
		s = fmt.Sprintf("lp%d", n.n)
	case "asn1":
		s = fmt.Sprintf("asn1[%02x]", n.n)
	case "u8", "u16", "u24", "u32", "uint":
		s += fmt.Sprintf("=%d", n.n)
	case "int", "enum":
		s += fmt.Sprintf("=%d", n.i)
	case "big":
		s += fmt.Sprintf("=%x", n.big)
	case "bytes", "octets", "bits":
		s += fmt.Sprintf("(%d)", len(n.b))
	case "oid":
		s += fmt.Sprint(n.oid)
	case "time":
		s += "=" + n.t.Format("2006-01-02T15:04:05.999999999-07:00:00")
	case "bool":
		s += fmt.Sprint(n.flag)
	}
	if n.kids != nil {
		s += fmt.Sprint(n.kids)
	}
	if n.stop != "" {
		s += fmt.Sprintf("!%s@%d", n.stop, n.at)
	}
	return s
}

func buildC13(w *sim.World, t *sim.T) {
	L := w.Plan
	g := &treeGen{l: L, f: w.Fault, left: 1 + L.N(14), max: 40}
	switch L.N(8) {
	case 0:
		g.max = 300
	case 1:
		g.max = 3000
	case 2:
		if L.P(6) {
			g.max = 66000
		}
	}
	tree := g.list(0)
	if g.max == 66000 { // content at the two-byte boundary
		n := &node{kind: "asn1", n: 0x30}
		if L.N(2) == 0 {
			n = &node{kind: "lp", n: uint64(1 + L.N(3))}
		}
		n.kids = []*node{{kind: "bytes", b: L.Sub().Bytes(65533 + L.N(6))}}
		tree = append(tree, n)
	}
	want, ok := encKids(tree)
	lenient := mayRefuse(tree)
	desc := fmt.Sprint(tree)
	if len(desc) > 600 {
		desc = desc[:600] + "..."
	}
	run := func(name string, b *cryptobyte.Builder) ([]byte, error, *sim.Panic) {
		var out []byte
		var err error
		p := t.Try(name, func() {
			func() {
				defer func() {
					if r := recover(); r != nil {
						_, mine := r.(foreignPanic)
						// Only callbacks are promised to have this panic recovered.
						_, be := r.(cryptobyte.BuildError)
						if !mine && !be {
							panic(r)
						}
					}
				}()
				for _, n := range tree {
					n.add(t, b)
				}
			}()
		})
		if p != nil && !(p.Val == "attempted write while child is pending") {
			w.Fail(p.Class(), "%s of %s: %s", name, desc, p)
		}
		q := t.Try("Bytes", func() { out, err = b.Bytes() })
		if q != nil {
			w.Fail(q.Class(), "%s of %s: Bytes: %s", name, desc, q)
		}
		return out, err, p
	}
	// stays: a failed builder stays failed whatever is written to it next.
	stays := func(b *cryptobyte.Builder, name string) {
		var err error
		var out []byte
		extra := (&treeGen{l: L, left: 3, max: 10, valid: true}).list(0)
		t.Do("write to a failed builder", func() {
			for _, n := range extra {
				n.add(t, b)
			}
			b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
			out, err = b.Bytes()
		})
		if err == nil {
			w.Fail("failure-forgotten", "%s of %s failed, but after more writes Bytes returned %s", name, desc, sim.Hex(out))
		}
		panicked := false
		t.Do("BytesOrPanic", func() {
			defer func() { panicked = recover() != nil }()
			b.BytesOrPanic()
		})
		if !panicked {
			w.Fail("failure-forgotten", "%s of %s: BytesOrPanic of a failed builder returned", name, desc)
		}
		w.Probe("failed-builder-used")
	}
	judge := func(name string, b *cryptobyte.Builder, out []byte, err error, p *sim.Panic, good bool, pre []byte) {
		if good && err != nil && lenient {
			w.Probe("extreme-value-refused")
			return
		}
		if !good {
			if err == nil {
				w.Fail("error-lost", "%s of %s must fail, but gave %s", name, desc, sim.Hex(out))
			}
			if w.Plan.N(3) == 0 {
				stays(b, name)
			}
			return
		}
		if p != nil {
			w.Fail("crash", "%s of %s: %s", name, desc, p)
		}
		if err != nil {
			w.Fail("refused", "%s of %s: %v", name, desc, err)
		}
		if exp := append(append([]byte(nil), pre...), want...); !bytes.Equal(out, exp) {
			w.Fail("wrong-output", "%s of %s: got %s want %s", name, desc, sim.Hex(out), sim.Hex(exp))
		}
	}
	if !ok {
		w.Probe("failing-tree")
	}
	// Growing builders.
	switch L.N(3) {
	case 0:
		b := new(cryptobyte.Builder)
		out, err, p := run("zero builder", b)
		judge("zero builder", b, out, err, p, ok, nil)
	case 1:
		b := cryptobyte.NewBuilder(nil)
		out, err, p := run("NewBuilder(nil)", b)
		judge("NewBuilder(nil)", b, out, err, p, ok, nil)
	case 2:
		pre := L.Sub().Bytes(L.N(5))
		gd, buf := guarded(L.Sub(), pre, L.N(len(want)+20))
		b := cryptobyte.NewBuilder(buf)
		out, err, p := run("NewBuilder(buffer)", b)
		judge("NewBuilder(buffer)", b, out, err, p, ok, pre)
		outside(w, gd, "NewBuilder(buffer)", desc)
	}
	// Fixed builders: every capacity for short messages, some for long ones.
	pre := L.Sub().Bytes(L.N(4))
	var caps []int
	limit := len(want)
	if !ok {
		limit = 30
	}
	if limit <= 24 || limit <= 80 && L.P(6) {
		for c := 0; c <= limit+2; c++ {
			caps = append(caps, c)
		}
	} else {
		caps = []int{0, limit, limit + 1, limit - 1, limit - 2, L.N(limit), L.N(limit), L.N(limit)}
	}
	if len(w.K.Tasks) > 4 && len(caps) > 8 {
		caps = caps[len(caps)-8:]
	}
	for _, c := range caps {
		gd, buf := guarded(L.Sub(), pre, c)
		b := cryptobyte.NewFixedBuilder(buf)
		name := fmt.Sprintf("fixed builder with room for %d", c)
		out, err, p := run("fixed builder", b)
		good := ok && c >= len(want)
		if ok && !good {
			w.Fired("buffer-exhausted")
		}
		judge(name, b, out, err, p, good, pre)
		outside(w, gd, name, desc)
		if good && len(out) > 0 && &out[0] != &gd.whole[gd.lo] {
			w.Fail("not-in-buffer", "%s of %s: the output is not in the caller's buffer", name, desc)
		}
	}
}

// outside checks everything but the buffer's free space.
func outside(w *sim.World, g *Guard, name, desc string) {
	for i := range g.whole {
		if g.whole[i] != g.save[i] && (i < g.hi || i >= g.cap) {
			w.Fail("memory-touched", "%s of %s: changed byte %d of a buffer at %d..%d with capacity to %d", name, desc, i, g.lo, g.hi, g.cap)
		}
	}
}

// bigC13 is about content around the three-byte length boundary.
func bigC13(w *sim.World, t *sim.T, i int) {
	w.Nontrivial()
	size := 1<<24 - 2 + i%3
	data := make([]byte, size)
	data[0], data[size-1] = 0xaa, 0xbb
	b := cryptobyte.NewBuilder(nil)
	var fixed []byte
	if i >= 3 {
		fixed = make([]byte, 0, size+6)
		b = cryptobyte.NewFixedBuilder(fixed)
	}
	var out []byte
	var err error
	if i%2 == 0 {
		t.TryBudget("ASN.1 of 2^24 bytes", 1<<40, func() {
			b.AddASN1(asn1.SEQUENCE, func(c *cryptobyte.Builder) { c.AddBytes(data) })
			out, err = b.Bytes()
		})
		want := ref.Enc(0x30, data)
		good := i < 3 || len(want) <= size+6
		if good && (err != nil || !bytes.Equal(out, want)) {
			w.Fail("wrong-output", "an ASN.1 element of %d bytes: %v, starts %x", size, err, out[:min(len(out), 8)])
		}
		if !good && err == nil {
			w.Fail("error-lost", "an ASN.1 element of %d bytes in %d", size, size+6)
		}
	} else {
		t.TryBudget("24-bit prefix of 2^24 bytes", 1<<40, func() {
			b.AddUint24LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(data) })
			out, err = b.Bytes()
		})
		if size >= 1<<24 {
			if err == nil {
				w.Fail("error-lost", "%d bytes behind a 24-bit length", size)
			}
		} else if err != nil || !bytes.Equal(out, append(be(uint64(size), 3), data...)) {
			w.Fail("wrong-output", "%d bytes behind a 24-bit length: %v", size, err)
		}
	}
	w.Probe("content-near-2^24")
}
