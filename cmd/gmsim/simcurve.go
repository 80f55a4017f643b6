//go:build simcurve

package main

import (
	"crypto/elliptic"
	"math/big"

	"gmverif/ref"
)

// crypto/elliptic's generic multiplication takes most of the time of a simulated
// run. It is not what is under test, so on the SM2 curve ref.FastMul stands in
// for it; one call in 64 is executed by both and compared.
func init() {
	fastCurve = "crypto/elliptic scalar multiplication on the SM2 curve (faster equivalent, one call in 64 compared with the original)"
	inside := false
	elliptic.SimScalarMult = func(c *elliptic.CurveParams, bx, by *big.Int, k []byte) (x, y *big.Int) {
		if inside || bx == nil || by == nil || c.P == nil || c.B == nil || c.P.Cmp(ref.SM2.P) != 0 || c.B.Cmp(ref.SM2.B) != 0 || !ref.SM2.On(bx, by) {
			return nil, nil
		}
		n := new(big.Int).SetBytes(k)
		var p ref.Point
		if bx.Cmp(ref.SM2.Gx) == 0 && by.Cmp(ref.SM2.Gy) == 0 {
			p = ref.FastBaseMul(n)
		} else {
			p = ref.FastMul(ref.Point{X: bx, Y: by}, n)
		}
		if p.Inf {
			p.X, p.Y = new(big.Int), new(big.Int)
		}
		if s := sum(k); s%64 == 0 {
			inside = true
			x, y = c.ScalarMult(bx, by, k)
			inside = false
			if x.Cmp(p.X) != 0 || y.Cmp(p.Y) != 0 {
				die("fast curve arithmetic is wrong")
			}
		}
		return p.X, p.Y
	}
}

func sum(k []byte) (s byte) {
	for _, b := range k {
		s += b
	}
	return
}
