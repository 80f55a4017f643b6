package ref

import (
	"fmt"
	"math/big"
	"math/bits"
)

// Toys are tiny curves with a = -3, prime order and cofactor 1. gm takes the
// curve from the key, so running it over them makes events of probability
// 2^-256 on the real curve (r = 0, s = 0, r+k = n, sums at infinity) ordinary.
var Toys = []*Curve{
	toy(251, 26, 223, 2, 84), toy(251, 54, 229, 4, 68),
	toy(1021, 7, 991, 2, 3), toy(4093, 26, 4003, 3, 1342),
	toy(16381, 12, 16339, 4, 8),
	toy(65521, 10, 65183, 2, 1254), toy(65521, 39, 65497, 3, 8223),
}

func toy(p, b, n, gx, gy int64) *Curve {
	return &Curve{Name: fmt.Sprintf("toy-%d-%d", p, n), P: big.NewInt(p), A: big.NewInt(p - 3), B: big.NewInt(b),
		N: big.NewInt(n), Gx: big.NewInt(gx), Gy: big.NewInt(gy), Bits: bits.Len64(uint64(p))}
}
