package checks

import (
	"bytes"
	"crypto/hmac"
	"hash"
	"io"

	"github.com/ZZMarquis/gm/sm3"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C03", Quick: 4000, Thor: 150000, Chunk: 25, Special: 4,
		Run:    runC03,
		Rule:   "each run draws 1-4 simulated threads owning 1-3 SM3 or HMAC-SM3 objects and up to 40 write/sum/reset/feed operations each, with lengths around the 4, 56 and 64 byte boundaries, the feeding transport failing and retrying, and preemption inside every call; every digest is compared with an independent incremental model. Non-trivial: a preemption inside a call, an injected fault, or a digest taken mid-stream. Distinct by event-log hash.",
		Real:   []string{"sm3 (hash object, one-shot Sum)", "crypto/hmac and io.Copy on top of it"},
		Stub:   []string{stubSched, stubClock, "feeding transport (simulated faulty reader)"},
		Assume: []string{"the independent SM3 model agrees with GB/T 32905 (checked against the standard's vectors)", "one hash object is used by one thread at a time, as hash.Hash requires"},
	})
}

func runC03(w *sim.World, t *sim.T) {
	if w.Index >= SpecialBase {
		bigC03(w, t, w.Index-SpecialBase)
		return
	}
	n := 1 + w.Plan.W(3, 3, 2, 1)
	var fs []func(*sim.T)
	for i := 0; i < n; i++ {
		fs = append(fs, func(t *sim.T) { streamC03(w, t) })
	}
	if n == 1 {
		fs[0](t)
		return
	}
	t.Par("hasher", fs...)
}

type obj03 struct {
	h    hash.Hash
	key  []byte // HMAC if non-nil
	st   ref.SM3State
	n    int
	sums int
}

func (o *obj03) reset() {
	o.st.Init()
	o.n = 0
	if o.key != nil {
		o.st.Write(pad03(o.key, 0x36))
	}
}

func (o *obj03) want() []byte {
	d := o.st.Sum()
	if o.key != nil {
		d = ref.SM3(pad03(o.key, 0x5c), d[:])
	}
	return d[:]
}

func pad03(key []byte, x byte) []byte {
	if len(key) > 64 {
		k := ref.SM3(key)
		key = k[:]
	}
	b := make([]byte, 64)
	copy(b, key)
	for i := range b {
		b[i] ^= x
	}
	return b
}

func streamC03(w *sim.World, t *sim.T) {
	L := w.Plan
	var objs []*obj03
	for i, n := 0, 1+L.N(3); i < n; i++ {
		o := &obj03{}
		if L.W(4, 1) == 1 {
			r := L.Sub()
			o.key = r.Bytes([]int{0, 1, 16, 32, 63, 64, 65, 128, 200}[L.N(9)])
			t.Do("hmac.New", func() { o.h = hmac.New(sm3.New, o.key) })
			w.Probe("hmac")
		} else {
			t.Do("sm3.New", func() { o.h = sm3.New() })
		}
		o.reset()
		objs = append(objs, o)
	}
	max := []int{70, 300, 3000}[L.N(3)]
	for i, n := 0, 3+L.N(38); i < n; i++ {
		o := objs[L.N(len(objs))]
		switch L.W(10, 5, 2, 2, 2, 1) {
		case 0: // write
			r := L.Sub()
			data := r.Bytes(pickLen(L, max))
			if L.P(60) {
				data = r.Bytes(200000 + L.N(5000))
				w.Probe("write-200k")
			}
			g, p := guarded(r, data, L.N(3)*9)
			if len(p) == 0 && L.N(2) == 0 {
				p = nil
			}
			var c int
			var err error
			t.Do("Write", func() { c, err = o.h.Write(p) })
			if c != len(data) || err != nil {
				w.Fail("write-result", "Write of %d bytes returned (%d, %v)", len(data), c, err)
			}
			if s := g.changed(); s != "" {
				w.Fail("write-modifies-input", "Write: %s", s)
			}
			for i := range p { // the caller may reuse its buffer at once
				p[i] ^= 0xa5
			}
			o.st.Write(data)
			o.n += len(data)
			w.Logf("wrote %d bytes, stream %d", len(data), o.n)
			if len(data) == 0 {
				w.Probe("empty-write")
			}
		case 1: // digest
			sumC03(w, t, o)
		case 2: // reset
			t.Do("Reset", func() { o.h.Reset() })
			o.reset()
			w.Probe("reset")
		case 3: // feed through a faulty transport with retries
			r := L.Sub()
			data := r.Bytes(pickLen(L, 2*max))
			f := &faultyReader{w: w, t: t, data: data}
			for tries := 0; f.pos < len(data) && tries < 3000; tries++ {
				var c int64
				var err error
				before := f.pos
				t.Do("io.Copy", func() {
					if L.N(2) == 0 {
						c, err = io.Copy(o.h, f)
					} else {
						c, err = io.CopyBuffer(struct{ io.Writer }{o.h}, struct{ io.Reader }{f}, make([]byte, 1+L.N(64)))
					}
				})
				if int(c) != f.pos-before {
					w.Fail("write-result", "io.Copy into the hash moved %d bytes and reported %d (%v)", f.pos-before, c, err)
				}
				if err != nil && err != errFeed {
					w.Fail("write-result", "io.Copy into the hash: %v", err)
				}
				o.st.Write(data[before:f.pos])
				if err != nil && L.N(2) == 0 { // look at the digest between retries
					sumC03(w, t, o)
				}
			}
			o.n += len(data)
		case 4: // one-shot helpers on the same bytes
			r := L.Sub()
			data := r.Bytes(pickLen(L, max))
			g, p := guarded(r, data, L.N(2)*5)
			var d [sm3.DigestLength]byte
			t.Do("sm3.Sum", func() { d = sm3.Sum(p) })
			if s := g.changed(); s != "" {
				w.Fail("write-modifies-input", "sm3.Sum: %s", s)
			}
			if d != ref.SM3(data) {
				w.Fail("digest-mismatch", "sm3.Sum of %d bytes is %x, want %x", len(data), d, ref.SM3(data))
			}
		case 5: // two objects behind one io.MultiWriter
			if len(objs) < 2 {
				continue
			}
			a, b := objs[0], objs[1]
			data := L.Sub().Bytes(pickLen(L, max))
			t.Do("MultiWriter", func() { io.MultiWriter(a.h, b.h).Write(data) })
			a.st.Write(data)
			b.st.Write(data)
			a.n += len(data)
			b.n += len(data)
		}
	}
	for _, o := range objs {
		sumC03(w, t, o)
		sumC03(w, t, o)
	}
}

func sumC03(w *sim.World, t *sim.T, o *obj03) {
	L := w.Plan
	want := o.want()
	pre := L.Sub().Bytes([]int{0, 0, 1, 7, 40}[L.N(5)])
	spare := []int{0, 5, 31, 32, 33, 80}[L.N(6)]
	buf := make([]byte, len(pre)+spare)
	for i := range buf {
		buf[i] = 0xEE
	}
	copy(buf, pre)
	arg := buf[:len(pre)]
	if len(pre) == 0 && L.N(2) == 0 {
		arg = nil
	}
	var got []byte
	t.Do("Sum", func() { got = o.h.Sum(arg) })
	if len(got) != len(pre)+32 || !bytes.Equal(got[:len(pre)], pre) || !bytes.Equal(buf[:len(pre)], pre) {
		w.Fail("sum-prefix", "Sum did not append a 32-byte digest to the %d-byte prefix: %s", len(pre), sim.Hex(got))
	}
	for i := len(pre) + 32; i < len(buf); i++ {
		if buf[i] != 0xEE {
			w.Fail("sum-prefix", "Sum wrote %d bytes behind the digest it appended to a prefix with %d bytes of room", i-len(pre)-32, spare)
		}
	}
	if !bytes.Equal(got[len(pre):], want) {
		w.Fail("digest-mismatch", "digest of a %d-byte stream (digest request %d since reset, hmac %v) is %x, want %x", o.n, o.sums+1, o.key != nil, got[len(pre):], want)
	}
	for i := range got { // the caller owns the result
		got[i] = 0
	}
	if o.n > 0 {
		w.Nontrivial()
	}
	o.sums++
	if o.h.Size() != 32 {
		w.Fail("size", "Size is %d", o.h.Size())
	}
	w.Logf("digest %x", want[:6])
}

// bigC03 crosses the 2^29 byte (2^32 bit), 2^31 byte and 2^32 byte boundaries, in one write
// and in many, with digests taken on the way.
func bigC03(w *sim.World, t *sim.T, which int) {
	type step struct {
		write int64
		sum   string
	}
	run := func(single bool, plan []step) {
		var h hash.Hash
		t.Do("sm3.New", func() { h = sm3.New() })
		var total int64
		buf := make([]byte, 1<<20)
		for _, s := range plan {
			if single {
				big := make([]byte, s.write)
				var n int
				var err error
				if p := t.TryBudget("Write", 1<<62, func() { n, err = h.Write(big) }); p != nil {
					w.Fail(p.Class(), "Write of %d bytes: %s", s.write, p)
					return
				}
				if int64(n) != s.write || err != nil {
					w.Fail("write-result", "Write of %d bytes returned (%d, %v)", s.write, n, err)
				}
			} else {
				for left := s.write; left > 0; {
					n := int64(len(buf)) - int64(w.Plan.N(3))
					if n > left {
						n = left
					}
					if p := t.TryBudget("Write", 1<<62, func() { h.Write(buf[:n]) }); p != nil {
						w.Fail(p.Class(), "Write of %d bytes after %d: %s", n, total+s.write-left, p)
						return
					}
					left -= n
				}
			}
			total += s.write
			var d []byte
			t.Do("Sum", func() { d = h.Sum(nil) })
			if got := hexs(d); got != s.sum {
				w.Fail("digest-mismatch", "digest of %d zero bytes is %s, want %s", total, got, s.sum)
			}
			w.Logf("%d zero bytes: %s", total, s.sum[:12])
			w.Nontrivial()
		}
	}
	switch which {
	case 0: // around 2^29 bytes = 2^32 bits
		run(false, []step{{1<<29 - 1, big2p29m1}, {1, big2p29}, {3, big2p29p3}})
	case 1: // past 2^31 and 2^32 bytes, streamed
		run(false, []step{{1<<31 - 1, big2p31m1}, {6, big2p31p5}, {1<<31 - 2, big2p32p3}})
	case 2: // one write longer than 2^31 bytes
		run(true, []step{{1<<31 + 5, big2p31p5}})
	case 3: // one write longer than 2^32 bits
		run(true, []step{{1<<29 + 3, big2p29p3}})
	}
}
