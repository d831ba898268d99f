package common

import (
	"bytes"
	"fmt"
	"math/big"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

func TestVerif_C19_power_of_two(t *testing.T) {
	h := verifh.New(t)
	for n := 0; n < 1<<16; n++ {
		want := n > 1 && n&(n-1) == 0
		h.Ok(IsPowerOfTwo(uint16(n)) == want, "IsPowerOfTwo(%d), want %v", n, want)
	}
}

func TestVerif_C19_scalars(t *testing.T) {
	h := verifh.New(t)
	for n := 0; n < verifh.Pick(80, 400); n++ {
		h.Ok(verifh.Eq(verifh.Val(Pow2(n)), new(big.Int).Lsh(big.NewInt(1), uint(n))), "Pow2(%d)", n)
	}
	for i := 0; i < verifh.Pick(200, 2000); i++ {
		n := h.Rng.Int63() >> uint(h.Rng.Intn(63))
		h.Ok(verifh.Eq(verifh.Val(IntToZr(int(n))), big.NewInt(n)), "IntToZr(%d)", n)
		x := h.Edge()
		h.Ok(verifh.Eq(verifh.Val(NegZr(verifh.Zr(x))), verifh.Neg(x)), "NegZr(%v)", x)
		neg := NegZr(verifh.Zr(x))
		h.Ok(bytes.Equal(neg.Bytes(), verifh.Zr(verifh.Neg(x)).Bytes()), "NegZr(%v) is in canonical form", x)
		k := h.Rng.Intn(20)
		ps := PowerSeries(k, verifh.Zr(x))
		h.Ok(len(ps) == k, "|PowerSeries(%d)|=%d", k, len(ps))
		for j := range ps {
			h.Ok(verifh.Eq(verifh.Val(ps[j]), verifh.Pow(x, int64(j))), "PowerSeries(%d,%v)[%d]", k, x, j)
		}
		bs := make([]byte, h.Rng.Intn(10))
		h.Rng.Read(bs)
		zs := IntsToZr(bs)
		h.Ok(len(zs) == len(bs), "|IntsToZr|")
		for j := range zs {
			h.Ok(verifh.Eq(verifh.Val(zs[j]), big.NewInt(int64(bs[j]))), "IntsToZr(%v)[%d]", bs, j)
		}
		rv := ReverseBits(bs)
		for j := range bs {
			h.Ok(len(rv) == len(bs) && rv[len(bs)-1-j] == bs[j], "ReverseBits(%v)", bs)
		}
	}
}

func TestVerif_C19_bits(t *testing.T) {
	h := verifh.New(t)
	for i := 0; i < verifh.Pick(300, 3000); i++ {
		x := new(big.Int).Rsh(h.F(), uint(h.Rng.Intn(254)))
		if i < 20 {
			x = new(big.Int).Lsh(big.NewInt(1), uint(i*4))
			if i%2 == 1 {
				x.Sub(x, big.NewInt(1))
			}
		}
		w := h.Rng.Intn(80)
		want := x.BitLen()
		if w > want {
			want = w
		}
		bs := Bits(verifh.Zr(x), w)
		h.Ok(len(bs) == want, "|Bits(%v,%d)|=%d", x, w, len(bs))
		for j := range bs {
			h.Ok(bs[j] == uint8(x.Bit(j)), "Bits(%v,%d)[%d]", x, w, j)
		}
		be := BitsBigEndian(verifh.Zr(x), w)
		for j := range be {
			h.Ok(len(be) == len(bs) && be[j] == bs[len(bs)-1-j], "BitsBigEndian(%v,%d)", x, w)
		}
		y := new(big.Int).Rsh(h.F(), uint(254-h.Rng.Intn(64)))
		vb := Vec{verifh.Zr(y), verifh.Zr(y)}.Bits(64)
		h.Ok(len(vb) == 128, "|Vec.Bits|=%d", len(vb))
		for j := range vb {
			h.Ok(vb[j] == uint8(y.Bit(j%64)), "Vec.Bits")
		}
	}
}

func TestVerif_C19_field_element(t *testing.T) {
	h := verifh.New(t)
	for i := 0; i < verifh.Pick(3000, 100000); i++ {
		d := make([]byte, 32)
		h.Rng.Read(d)
		switch i % 6 {
		case 1:
			d = bytes.Repeat([]byte{byte(i)}, 32)
		case 2: // top word at the edge
			for j, w := range []uint64{0, 0, 0, 3486998266802970665 - uint64(i%3)} {
				for k := 0; k < 8; k++ {
					if j == 3 || i%4 == 0 {
						d[8*j+k] = byte(w >> uint(56-8*k))
					}
				}
			}
		case 3:
			for k := 0; k < 24; k++ {
				d[k] = 0xff
			}
			w := 3486998266802970665*uint64(1+i%5) - 1
			for k := 0; k < 8; k++ {
				d[24+k] = byte(w >> uint(56-8*k))
			}
		}
		in := append([]byte{}, d...)
		var z *math.Zr
		p := verifh.Panics(func() { z = FieldElementFromBytes(d) })
		if p != nil {
			h.Bad("FieldElementFromBytes(%x) panics: %v", d, p)
			continue
		}
		b := new(big.Int).SetBytes(z.Bytes())
		h.Ok(b.Cmp(verifh.Q) < 0, "FieldElementFromBytes(%x) below the group order", d)
		h.Ok(b.Cmp(verifh.FE(d)) == 0, "FieldElementFromBytes(%x)=%v", d, b)
		h.Ok(bytes.Equal(in, d) && FieldElementFromBytes(d).Equals(z), "FieldElementFromBytes(%x) deterministic", d)
	}
}

func TestVerif_C19_generators(t *testing.T) {
	h := verifh.New(t)
	seen := map[string]string{}
	for _, ctx := range []string{"g", "h", "u", "range proof G", "range proof Gs", "range proof Hs", "range proof H", "POE G", "POE H"} {
		n := 1 + h.Rng.Intn(20)
		v, v2 := RandGenVec(n, ctx), RandGenVec(n+1, ctx)
		h.Ok(len(v) == n, "|RandGenVec(%d)|", n)
		for i := range v {
			k := fmt.Sprintf("%s/%d", ctx, i)
			h.Ok(seen[string(v[i].Bytes())] == "", "generator %s equals %s", k, seen[string(v[i].Bytes())])
			seen[string(v[i].Bytes())] = k
			h.Ok(v[i].Equals(v2[i]), "generator %s does not depend on the length", k)
			d := SHA256Digest(fmt.Sprintf("PoL %s %d", ctx, i))
			h.Ok(v[i].Equals(HashToG1(append(d, SHA256Digest(string(d))...))), "generator %s", k)
		}
	}
	h.Ok(bytes.Equal(SHA256Digest("abc"), verifh.Sha([]byte("abc"))), "SHA256Digest")
}
