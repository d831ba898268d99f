package verkle

import (
	"pol/verifh"
	"testing"
)

func TestVerif_C06_update_sum(t *testing.T) {
	h := verifh.New(t)
	for k := 0; k < verifh.Pick(200, 2000); k++ {
		a, b, c := h.Edge(), h.Edge(), h.Edge()
		h.Ok(verifh.Eq(verifh.Val(updateSum(verifh.Zr(a), verifh.Zr(b), verifh.Zr(c))), verifh.Add(a, verifh.Neg(b), c)), "updateSum(%v,%v,%v)", a, b, c)
	}
}
