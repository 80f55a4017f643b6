package checks

import (
	"bytes"
	"crypto/cipher"
	"fmt"

	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"gmverif/ref"
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 200000, Thor: 6000000, Chunk: 300,
		Run:    runC08,
		Rule:   "each run has 1-4 threads sharing 1-2 SM4 cipher objects (single blocks in place or not, and CBC, CTR, OFB, CFB and GCM of the standard library on top of the shared object) and 0-2 threads writing ECB and CBC records through a faulty store and reading them back: bit flips, torn, zeroed, swapped, duplicated and lost blocks, cuts at any byte, lost key or IV bytes, chunked CBC streams, and padding removed from what comes back. Results are compared with an independent SM4 and with the containment rule. Non-trivial: an injected fault or a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm4 NewCipher, Encrypt, Decrypt, ECB and CBC functions", "util padding", "crypto/cipher modes on top"},
		Stub:   []string{stubSched, stubClock, "record store"},
		Assume: []string{"source and destination of a block call are the same or do not overlap", "a record of no blocks may be refused or give an empty result"},
	})
}

// refBlock is the reference cipher behind the standard interface.
type refBlock struct{ c *ref.SM4 }

func (b refBlock) BlockSize() int          { return 16 }
func (b refBlock) Encrypt(dst, src []byte) { copy(dst, b.c.Enc(src[:16])) }
func (b refBlock) Decrypt(dst, src []byte) { copy(dst, b.c.Dec(src[:16])) }

type shared08 struct {
	key []byte
	gm  cipher.Block
	r   *ref.SM4
}

type c08 struct {
	w  *sim.World
	cs []*shared08
}

func runC08(w *sim.World, t *sim.T) {
	L := w.Plan
	x := &c08{w: w}
	for i, n := 0, 1+L.N(2); i < n; i++ {
		key := pickKey08(L)
		s := &shared08{key: append([]byte(nil), key...), r: ref.NewSM4(key)}
		var err error
		t.Do("NewCipher", func() { s.gm, err = sm4.NewCipher(key) })
		if err != nil {
			w.Fail("key-refused", "NewCipher: %v", err)
		}
		// The key's memory is used for something else afterwards.
		L.Sub().Fill(key)
		x.cs = append(x.cs, s)
	}
	var fs []func(*sim.T)
	for i, n := 0, 1+L.W(1, 3, 2, 1); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 1+L.N(6); j < m; j++ {
				if L.N(4) == 0 {
					x.mode(t)
				} else {
					x.block(t)
				}
			}
		})
	}
	for i, n := 0, L.N(3); i < n; i++ {
		fs = append(fs, func(t *sim.T) {
			for j, m := 0, 1+L.N(4); j < m; j++ {
				x.record(t)
			}
		})
	}
	t.Par("t", fs...)
}

func pickKey08(l *sim.Lane) []byte {
	k := l.Sub().Bytes(16)
	switch l.N(8) {
	case 0:
		return make([]byte, 16)
	case 1:
		return bytes.Repeat([]byte{0xff}, 16)
	}
	return k
}

// block is one call on a shared object.
func (x *c08) block(t *sim.T) {
	w, L := x.w, x.w.Plan
	s := x.cs[L.N(len(x.cs))]
	r := L.Sub()
	dec := L.N(2) == 0
	sl := 16
	if L.N(3) == 0 {
		sl += L.N(40)
	}
	data := r.Bytes(sl)
	want := s.r.Enc(data[:16])
	if dec {
		want = s.r.Dec(data[:16])
	}
	g, src := guarded(r, data, L.N(20))
	name := "Encrypt"
	call := s.gm.Encrypt
	if dec {
		name, call = "Decrypt", s.gm.Decrypt
	}
	if L.N(2) == 0 { // in place
		whole := append([]byte(nil), g.whole...)
		copy(whole[g.lo:], want)
		t.Do(name+" in place", func() { call(src, src) })
		if !bytes.Equal(g.whole, whole) {
			w.Fail("wrong-block", "%s in place of %x with key %x gave %x, want %x and nothing else touched", name, data, s.key, src, want)
		}
		return
	}
	dl := 16
	if L.N(3) == 0 {
		dl += L.N(40)
	}
	gd, dst := guarded(r, r.Bytes(dl), L.N(20))
	whole := append([]byte(nil), gd.whole...)
	copy(whole[gd.lo:], want)
	t.Do(name, func() { call(dst, src) })
	if ch := g.changed(); ch != "" {
		w.Fail("input-changed", "%s changed its source: %s", name, ch)
	}
	if !bytes.Equal(gd.whole, whole) {
		w.Fail("wrong-block", "%s of %x with key %x gave %x, want %x and nothing else touched", name, data, s.key, dst, want)
	}
}

// mode runs a standard mode of operation over the shared object.
func (x *c08) mode(t *sim.T) {
	w, L := x.w, x.w.Plan
	s := x.cs[L.N(len(x.cs))]
	r := L.Sub()
	iv := r.Bytes(16)
	data := r.Bytes(1 + L.LogSize(200))
	k := L.N(8)
	if k < 2 {
		data = append(data, make([]byte, 16-len(data)%16)...)
	}
	run := func(b cipher.Block, split int) []byte {
		out := make([]byte, len(data))
		switch k {
		case 0:
			m := cipher.NewCBCEncrypter(b, iv)
			m.CryptBlocks(out[:split/16*16], data[:split/16*16])
			m.CryptBlocks(out[split/16*16:], data[split/16*16:])
		case 1:
			m := cipher.NewCBCDecrypter(b, iv)
			m.CryptBlocks(out[:split/16*16], data[:split/16*16])
			m.CryptBlocks(out[split/16*16:], data[split/16*16:])
		case 2, 3:
			m := cipher.NewCTR(b, iv)
			m.XORKeyStream(out[:split], data[:split])
			m.XORKeyStream(out[split:], data[split:])
		case 4:
			m := cipher.NewOFB(b, iv)
			m.XORKeyStream(out, data)
		case 5:
			m := cipher.NewCFBDecrypter(b, iv)
			m.XORKeyStream(out, data)
		default:
			m, err := cipher.NewGCM(b)
			if err != nil {
				return []byte(err.Error())
			}
			out = m.Seal(nil, iv[:12], data, iv)
			back, err := m.Open(nil, iv[:12], out, iv)
			if err != nil || !bytes.Equal(back, data) {
				return append(out, "does not open"...)
			}
		}
		return out
	}
	split := L.N(len(data) + 1)
	var got []byte
	t.Do([]string{"CBC encrypt", "CBC decrypt", "CTR", "CTR", "OFB", "CFB", "GCM", "GCM"}[k], func() { got = run(s.gm, split) })
	want := run(refBlock{s.r}, 0)
	if !bytes.Equal(got, want) {
		w.Fail("wrong-mode-result", "mode %d over the shared cipher, key %x iv %x data %s: got %s want %s", k, s.key, iv, sim.Hex(data), sim.Hex(got), sim.Hex(want))
	}
	w.Probe("standard-mode")
}

// record writes one record and reads it back through a faulty store.
func (x *c08) record(t *sim.T) {
	w, L, f := x.w, x.w.Plan, x.w.Fault
	r := L.Sub()
	key := pickKey08(L)
	c := ref.NewSM4(key)
	iv := r.Bytes(16)
	cbc := L.N(2) == 0
	max := 300
	if L.P(20) {
		max = 20000
	}
	msg := r.Bytes(pickLen(L, max))
	var padded []byte
	zero := L.N(2) == 0
	gm, in := guarded(r, msg, L.N(33))
	t.Do("padding", func() {
		if zero {
			padded = util.ZeroPadding(in, 16)
		} else {
			padded = util.PKCS5Padding(in, 16)
		}
	})
	if ch := gm.changed(); ch != "" {
		w.Fail("input-changed", "padding changed the record: %s", ch)
	}
	n := 16 - len(msg)%16
	pad := bytes.Repeat([]byte{byte(n)}, n)
	if zero {
		pad = make([]byte, n)
	}
	if !bytes.Equal(padded, append(append([]byte(nil), msg...), pad...)) {
		w.Fail("wrong-padding", "record %s padded to %s", sim.Hex(msg), sim.Hex(padded))
	}
	plain := append([]byte(nil), padded...)
	kg, key1 := guarded(r, key, 3)
	ig, iv1 := guarded(r, iv, 3)
	pg, p1 := guarded(r, plain, L.N(20))
	intact := func(what string) {
		for _, g := range []*Guard{kg, ig, pg} {
			if ch := g.changed(); ch != "" {
				w.Fail("input-changed", "%s changed its input: %s", what, ch)
			}
		}
	}
	desc := fmt.Sprintf("record %s, key %x, iv %x, CBC %v", sim.Hex(plain), key, iv, cbc)
	var ct []byte
	var err error
	want := c.ECB(plain, false)
	if cbc {
		want = c.CBCEnc(iv, plain)
	}
	if cbc && L.N(3) == 0 { // written in chunks, each continuing with the last block
		v := iv1
		for rest := p1; len(rest) > 0; {
			k := 16 * (1 + L.N(len(rest)/16))
			var o []byte
			t.Do("CBCEncrypt chunk", func() { o, err = sm4.CBCEncrypt(key1, v, rest[:k]) })
			if err != nil || len(o) != k {
				w.Fail("record-refused", "%s: chunk of %d: %v, %d bytes out", desc, k, err, len(o))
			}
			ct = append(ct, o...)
			v = ct[len(ct)-16:]
			rest = rest[k:]
		}
		w.Probe("chunked-record")
	} else {
		t.Do("encrypt record", func() {
			if cbc {
				ct, err = sm4.CBCEncrypt(key1, iv1, p1)
			} else {
				ct, err = sm4.ECBEncrypt(key1, p1)
			}
		})
		if err != nil {
			w.Fail("record-refused", "%s: %v", desc, err)
		}
	}
	intact("encryption")
	if !bytes.Equal(ct, want) {
		w.Fail("wrong-ciphertext", "%s: got %s want %s", desc, sim.Hex(ct), sim.Hex(want))
	}
	// Storage.
	d := append([]byte(nil), ct...)
	kd, vd := append([]byte(nil), key...), append([]byte(nil), iv...)
	what := "intact"
	nb := len(d) / 16
	switch f.W(4, 5, 2, 2, 2, 2, 2, 3, 2, 2, 2) {
	case 1:
		for i, m := 0, 1+f.N(3); i < m; i++ {
			j := f.N(len(d) * 8)
			d[j/8] ^= 1 << (j % 8)
		}
		what = "bit-flips"
	case 2:
		for i := f.N(len(d)); i < len(d); i++ {
			d[i] = 0
		}
		what = "torn"
	case 3:
		i := f.N(nb)
		f.Sub().Fill(d[16*i : 16*i+16])
		what = "block-overwritten"
	case 4:
		i, j := f.N(nb), f.N(nb)
		a := append([]byte(nil), d[16*i:16*i+16]...)
		copy(d[16*i:], d[16*j:16*j+16])
		copy(d[16*j:], a)
		what = "blocks-swapped"
	case 5:
		i := f.N(nb)
		d = append(d[:16*i], d[16*i+16:]...)
		what = "block-lost"
	case 6:
		i := f.N(nb)
		d = append(append(append([]byte(nil), d[:16*i+16]...), d[16*i:16*i+16]...), d[16*i+16:]...)
		what = "block-repeated"
	case 7:
		d = d[:f.N(len(d))]
		what = "cut"
	case 8:
		kd = wrongLen(f, kd)
		what = "key-length"
	case 9:
		vd = wrongLen(f, vd)
		what = "iv-length"
	case 10:
		j := f.N(128)
		vd[j/8] ^= 1 << (j % 8)
		what = "iv-bit-flip"
	}
	if what != "intact" {
		w.Fired("record-" + what)
	}
	kg, key1 = guarded(r, kd, 3)
	ig, iv1 = guarded(r, vd, 3)
	pg, d1 := guarded(r, d, f.N(20))
	var back []byte
	t.Do("decrypt record", func() {
		if cbc {
			back, err = sm4.CBCDecrypt(key1, iv1, d1)
		} else {
			back, err = sm4.ECBDecrypt(key1, d1)
		}
	})
	intact("decryption")
	desc = fmt.Sprintf("%s, store: %s, delivered %s key %x iv %x", desc, what, sim.Hex(d), kd, vd)
	bad := len(kd) != 16 || cbc && len(vd) != 16 || len(d)%16 != 0
	// The same damage on the way in: a short record, key or IV is refused there too.
	if bad && len(d) > 0 {
		var e2 error
		t.Do("encrypt with damaged arguments", func() {
			if cbc {
				_, e2 = sm4.CBCEncrypt(key1, iv1, d1)
			} else {
				_, e2 = sm4.ECBEncrypt(key1, d1)
			}
		})
		if e2 == nil {
			w.Fail("accepted", "%s: encryption gave no error", desc)
		}
	}
	switch {
	case len(d) == 0:
		if err == nil && len(back) != 0 {
			w.Fail("wrong-plaintext", "%s: an empty record gave %s", desc, sim.Hex(back))
		}
	case bad:
		if err == nil {
			w.Fail("accepted", "%s: no error", desc)
		}
		w.Probe("refused")
		return
	case err != nil:
		w.Fail("record-refused", "%s: %v", desc, err)
	default:
		exp := c.ECB(d, true)
		if cbc {
			exp = c.CBCDec(vd, d)
		}
		if !bytes.Equal(back, exp) {
			w.Fail("wrong-plaintext", "%s: got %s want %s", desc, sim.Hex(back), sim.Hex(exp))
		}
		if len(d) == len(ct) {
			x.contained(desc, plain, ct, d, iv, vd, back, cbc)
		}
	}
	x.unpad(t, desc, back, zero, n, what == "intact", msg)
}

func wrongLen(f *sim.Lane, b []byte) []byte {
	switch f.N(4) {
	case 0:
		return nil
	case 1:
		return b[:f.N(len(b))]
	case 2:
		return b[:len(b)-1]
	}
	return append(append([]byte(nil), b...), make([]byte, 1+f.N(17))...)
}

// contained states the rule itself: a plaintext byte differs only where damage
// reaches it.
func (x *c08) contained(desc string, plain, ct, d, iv, vd, back []byte, cbc bool) {
	for i := 0; i < len(d); i += 16 {
		if !bytes.Equal(d[i:i+16], ct[i:i+16]) {
			continue
		}
		for j := i; j < i+16; j++ {
			diff := byte(0)
			if cbc && i > 0 {
				diff = d[j-16] ^ ct[j-16]
			} else if cbc {
				diff = vd[j] ^ iv[j]
			}
			if back[j] != plain[j]^diff {
				x.w.Fail("damage-spread", "%s: byte %d changed although its block is intact", desc, j)
			}
		}
	}
}

// unpad removes padding from whatever came back.
func (x *c08) unpad(t *sim.T, desc string, back []byte, zero bool, n int, intact bool, msg []byte) {
	w, f := x.w, x.w.Fault
	b := append([]byte(nil), back...)
	if !intact && f.N(3) == 0 && len(b) > 0 {
		b[len(b)-1] = byte(f.N(256))
	}
	if !intact && f.N(4) == 0 {
		b = b[:f.N(len(b)+1)]
	}
	g, in := guarded(f.Sub(), b, f.N(20))
	if len(b) == 0 && f.N(2) == 0 {
		in = nil
	}
	var out []byte
	if zero && !intact {
		n = f.Range(-2, 40)
	}
	t.Do("unpadding", func() {
		if zero {
			out = util.UnZeroPadding(in, n)
		} else {
			out = util.PKCS5UnPadding(in)
		}
	})
	if ch := g.changed(); ch != "" {
		w.Fail("input-changed", "%s: removing padding changed the record: %s", desc, ch)
	}
	if intact && !bytes.Equal(out, msg) {
		w.Fail("wrong-plaintext", "%s: without padding %s, want %s", desc, sim.Hex(out), sim.Hex(msg))
	}
	if len(out) > len(b) || !bytes.Equal(out, b[:len(out)]) {
		w.Fail("wrong-plaintext", "%s: removing padding from %s gave %s", desc, sim.Hex(b), sim.Hex(out))
	}
	if zero && n >= 0 && n <= len(b) && len(out) != len(b)-n {
		w.Fail("wrong-plaintext", "%s: removing %d bytes of padding from %d gave %d", desc, n, len(b), len(out))
	}
	if !intact {
		w.Probe("unpadding-damaged-data")
	}
}
