package ref

import (
	"bytes"
	"crypto/elliptic"
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

func h(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func TestSM3Vectors(t *testing.T) {
	d := SM3([]byte("abc"))
	if hex.EncodeToString(d[:]) != "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" {
		t.Fatal(hex.EncodeToString(d[:]))
	}
	d = SM3(bytes.Repeat([]byte("abcd"), 16))
	if hex.EncodeToString(d[:]) != "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732" {
		t.Fatal()
	}
	d = SM3()
	if hex.EncodeToString(d[:]) != "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b" {
		t.Fatal(hex.EncodeToString(d[:]))
	}
}

func TestSM4Vectors(t *testing.T) {
	k := h("0123456789abcdeffedcba9876543210")
	c := NewSM4(k)
	if !bytes.Equal(c.Enc(k), h("681edf34d206965e86b3e94f536e4246")) {
		t.Fatalf("%x", c.Enc(k))
	}
	b := k
	for i := 0; i < 1000000; i++ {
		b = c.Enc(b)
	}
	if !bytes.Equal(b, h("595298c7c6fd271f0402f804c33d3f66")) {
		t.Fatal()
	}
	if !bytes.Equal(c.Dec(c.Enc(k)), k) {
		t.Fatal()
	}
}

func TestSM2Vectors(t *testing.T) {
	c := SM2
	d := hx("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	k := hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	pub := c.BaseMul(d)
	e := E(c, DefaultID, pub, []byte("message digest"))
	r, s, ok := SignK(c, d, k, e)
	if !ok || r.Cmp(hx("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) != 0 ||
		s.Cmp(hx("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) != 0 {
		t.Fatalf("%x %x", r, s)
	}
	if !Verify(c, pub, nil, DefaultID, []byte("message digest"), r, s) || !Verify(c, pub, d, DefaultID, []byte("message digest"), r, s) {
		t.Fatal()
	}
	if RecoverK(c, d, r, s).Cmp(k) != 0 {
		t.Fatal()
	}
	ct, _ := EncryptK(c, pub, nil, k, []byte("encryption standard"), false)
	want := h("0404EBFC718E8D1798620432268E77FEB6415E2EDE0E073C0F4F640ECD2E149A73E858F9D81E5430A57B36DAAB8F950A3C64E6EE6A63094D99283AFF767E124DF059983C18F809E262923C53AEC295D30383B54E39D609D160AFCB1908D0BD876621886CA989CA9C7D58087307CA93092D651EFA")
	if !bytes.Equal(ct, want) {
		t.Fatalf("%x", ct)
	}
	m, _, err := Decrypt(c, d, ct, false)
	if err != nil || string(m) != "encryption standard" {
		t.Fatal(err)
	}
}

func TestExchangeVector(t *testing.T) {
	c := SM2
	dA := hx("81EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230029")
	rA := hx("D4DE15474DB74D06491C440D305E012400990F3E390C7E87153C12DB2EA60BB3")
	dB := hx("785129917D45A9EA5437A59356B82338EAADDA6CEB199088F14AE10DEFA229B5")
	rB := hx("7E07124814B309489125EAED101113164EBF0F3458C5BD88335C1F9D596243D6")
	a := Exchange(c, true, 16, dA, rA, DefaultID, c.BaseMul(dB), c.BaseMul(rB), DefaultID)
	b := Exchange(c, false, 16, dB, rB, DefaultID, c.BaseMul(dA), c.BaseMul(rA), DefaultID)
	for _, e := range []*Exch{a, b} {
		if !bytes.Equal(e.Key, h("6C89347354DE2484C60B4AB1FDE4C6E5")) {
			t.Fatalf("%x", e.Key)
		}
		if !bytes.Equal(e.S1, h("D3A0FE15DEE185CEAE907A6B595CC32A266ED7B3367E9983A896DC32FA20F8EB")) ||
			!bytes.Equal(e.S2, h("18C7894B3816DF16CF07B05C5EC0BEF5D655D58F779CC1B400A4F3884644DB88")) {
			t.Fatalf("%x %x", e.S1, e.S2)
		}
	}
}

// The fast scalar multiplications agree with repeated textbook addition.
func TestMul(t *testing.T) {
	for _, c := range append([]*Curve{SM2}, Toys...) {
		p := Point{Inf: true}
		lim := 300
		for i := 0; i < lim; i++ {
			k := big.NewInt(int64(i))
			for _, q := range []Point{c.Mul(c.G(), k), c.BaseMul(k)} {
				if q.Inf != p.Inf || !q.Inf && (q.X.Cmp(p.X) != 0 || q.Y.Cmp(p.Y) != 0) {
					t.Fatal(c.Name, i)
				}
			}
			p = c.Add(p, c.G())
		}
		if !c.Mul(c.G(), c.N).Inf || !c.On(c.Gx, c.Gy) {
			t.Fatal(c.Name)
		}
	}
	k := hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	a, b := SM2.Mul(SM2.G(), k), SM2.BaseMul(k)
	if a.X.Cmp(b.X) != 0 || a.Y.Cmp(b.Y) != 0 {
		t.Fatal()
	}
}

func TestDER(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 1 << 40, -(1 << 40)} {
		b := EncInt(big.NewInt(v))
		w, rest, err := Int(b)
		if err != nil || len(rest) != 0 || w.Int64() != v {
			t.Fatal(v)
		}
	}
}

func TestFast(t *testing.T) {
	std := &elliptic.CurveParams{P: SM2.P, N: SM2.N, B: SM2.B, Gx: SM2.Gx, Gy: SM2.Gy, BitSize: 256}
	r := rand.New(rand.NewSource(1))
	same := func(a, b Point, k *big.Int) {
		if a.Inf != b.Inf || !a.Inf && (a.X.Cmp(b.X) != 0 || a.Y.Cmp(b.Y) != 0) {
			t.Fatalf("%x: %+v %+v", k, a, b)
		}
	}
	ks := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(15), big.NewInt(16), big.NewInt(17), new(big.Int).Set(SM2.N),
		new(big.Int).Sub(SM2.N, big.NewInt(1)), new(big.Int).Sub(SM2.N, big.NewInt(2)), new(big.Int).Add(SM2.N, big.NewInt(1)),
		new(big.Int).Rsh(SM2.N, 1), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))}
	for i := 0; i < 300; i++ {
		ks = append(ks, new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(256)))))
	}
	p := SM2.G()
	for i, k := range ks {
		same(FastBaseMul(k), SM2.slowBaseMul(k), k)
		same(FastMul(p, k), SM2.slowMul(p, k), k)
		if x, y := std.ScalarMult(p.X, p.Y, k.Bytes()); new(big.Int).Mod(k, SM2.N).Sign() != 0 {
			same(FastMul(p, k), Point{X: x, Y: y}, k)
		} else if x.Sign() != 0 || y.Sign() != 0 {
			t.Fatal(x, y)
		}
		if i > 13 && k.Sign() > 0 {
			p = FastBaseMul(k)
		}
	}
	for i := 0; i < 100000; i++ {
		a, b := new(big.Int).Rand(r, SM2.P), new(big.Int).Rand(r, SM2.P)
		if i%3 == 0 {
			a.Sub(SM2.P, big.NewInt(int64(1+i%7)))
		}
		x, y := toFe(a), toFe(b)
		var m, s, d fe
		feMul(&m, &x, &y)
		feAdd(&s, &x, &y)
		feSub(&d, &x, &y)
		mod := func(v *big.Int) *big.Int { return v.Mod(v, SM2.P) }
		if fromFe(&m).Cmp(mod(new(big.Int).Mul(a, b))) != 0 || fromFe(&s).Cmp(mod(new(big.Int).Add(a, b))) != 0 || fromFe(&d).Cmp(mod(new(big.Int).Sub(a, b))) != 0 {
			t.Fatal(a, b)
		}
	}
}

func BenchmarkFastMul(b *testing.B) {
	p := FastBaseMul(big.NewInt(99))
	for i := 0; i < b.N; i++ {
		FastMul(p, SM2.P)
	}
}

func BenchmarkFastBaseMul(b *testing.B) {
	for i := 0; i < b.N; i++ {
		FastBaseMul(SM2.P)
	}
}
