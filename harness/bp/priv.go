package bp

import (
	"math/big"
	"pol/common"
	"pol/verifh"
	"testing"
)

// checks of unexported helpers; left out when they are no longer there

func TestVerif_C12_weights(t *testing.T) {
	h := verifh.New(t)
	for _, n := range []int{2, 4, 8, 16, 32} {
		xs := h.Fs(big.NewInt(int64(n - 1)).BitLen())
		w := verifh.BitProducts(n, xs)
		for i := 0; i < n; i++ {
			rev := common.Vec(verifh.Zrs(xs)).Reverse()
			h.Ok(verifh.Eq(verifh.Val(rev.PowBitVec(bitDecomposition(uint16(i), uint16(n-1))).Product()), w[i]), "weight of element %d of %d", i, n)
		}
	}
}

func TestVerif_C13_bits(t *testing.T) {
	h := verifh.New(t)
	for k := 0; k < verifh.Pick(300, 3000); k++ {
		max := uint16(h.Rng.Intn(1 << 16))
		if k%3 == 0 {
			max = uint16(1)<<uint(1+h.Rng.Intn(15)) - 1
		}
		n := uint16(h.Rng.Intn(int(max) + 1))
		bs := bitDecomposition(n, max)
		h.Ok(len(bs) == big.NewInt(int64(max)).BitLen(), "|bitDecomposition(%d,%d)|=%d", n, max, len(bs))
		for j := range bs {
			h.Ok(uint(bs[j]) == uint(n>>uint(j))&1, "bitDecomposition(%d,%d)[%d]", n, max, j)
		}
	}
}

func TestVerif_C14_weights(t *testing.T) {
	h := verifh.New(t)
	for k := 0; k < verifh.Pick(20, 200); k++ {
		n, m := 1+h.Rng.Intn(8), 63
		f, x := h.Fs(n), h.F()
		d := computeD(n, m, verifh.Zrs(f), verifh.Zr(x))
		h.Ok(len(d) == n*m+n, "|d|=%d", len(d))
		for i := 0; i < n; i++ {
			for j := 0; j < m; j++ {
				h.Ok(verifh.Eq(verifh.Val(d[i*m+j]), verifh.Mul(f[i], new(big.Int).Lsh(big.NewInt(1), uint(j)))), "weight of bit %d of element %d", j, i)
			}
			h.Ok(verifh.Eq(verifh.Val(d[n*m+i]), verifh.Mul(f[i], x)), "weight of mask %d", i)
		}
	}
}
