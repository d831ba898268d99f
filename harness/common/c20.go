package common

import (
	"fmt"
	"math/big"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

type snap map[interface{}]string

func snapshot(vs ...interface{}) string {
	s := ""
	for _, v := range vs {
		switch x := v.(type) {
		case Vec:
			for _, z := range x {
				s += verifh.S(z) + fmt.Sprintf("@%p,", z)
			}
		case G1v:
			for _, z := range x {
				s += verifh.S(z) + fmt.Sprintf("@%p,", z)
			}
		case G2v:
			for _, z := range x {
				s += verifh.S(z) + fmt.Sprintf("@%p,", z)
			}
		case *math.Zr:
			s += z2s(x)
		}
		s += ";"
	}
	return s
}

func z2s(z *math.Zr) string { return verifh.S(z) + fmt.Sprintf("@%p", z) }

func TestVerif_C20_scalar_vectors(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(150, 1500); it++ {
		n := h.Rng.Intn(9)
		a, b := h.Edges(n), h.Edges(n)
		x := h.Edge()
		A, B, X := Vec(verifh.Zrs(a)), Vec(verifh.Zrs(b)), verifh.Zr(x)
		before := snapshot(A, B, X)
		same := func(name string, got Vec, want func(i int) verifh.F, l int) {
			h.Ok(len(got) == l, "%s: length %d, want %d", name, len(got), l)
			for i := 0; i < l && i < len(got); i++ {
				h.Ok(got[i] != nil && verifh.Eq(verifh.Val(got[i]), want(i)), "%s[%d] on a=%v b=%v x=%v", name, i, a, b, x)
			}
			h.Ok(snapshot(A, B, X) == before, "%s changed its input", name)
		}
		same("Add", A.Add(B), func(i int) verifh.F { return verifh.Add(a[i], b[i]) }, n)
		same("Sub", A.Sub(B), func(i int) verifh.F { return verifh.Sub(a[i], b[i]) }, n)
		same("Mul", A.Mul(X), func(i int) verifh.F { return verifh.Mul(a[i], x) }, n)
		same("HadamardProd", A.HadamardProd(B), func(i int) verifh.F { return verifh.Mul(a[i], b[i]) }, n)
		same("Reverse", A.Reverse(), func(i int) verifh.F { return a[n-1-i] }, n)
		same("Concat", A.Concat(B), func(i int) verifh.F {
			if i < n {
				return a[i]
			}
			return b[i-n]
		}, 2*n)
		if n%2 == 0 {
			same("Evens", A.Evens(), func(i int) verifh.F { return a[2*i] }, n/2)
			same("Odds", A.Odds(), func(i int) verifh.F { return a[2*i+1] }, n/2)
		} else {
			h.Ok(verifh.Panics(func() { A.Evens() }) != nil && verifh.Panics(func() { A.Odds() }) != nil, "odd length refused")
		}
		e := make([]uint8, n)
		for i := range e {
			e[i] = uint8(h.Rng.Intn(2))
		}
		same("PowBitVec", A.PowBitVec(e), func(i int) verifh.F {
			if e[i] == 0 {
				return verifh.I(1)
			}
			return a[i]
		}, n)
		ip := A.InnerProd(B)
		h.Ok(verifh.Eq(verifh.Val(ip), verifh.Dot(a, b)), "InnerProd %v %v", a, b)
		h.Ok(new(big.Int).SetBytes(ip.Bytes()).Cmp(verifh.Q) < 0, "InnerProd canonical")
		if n > 0 {
			p := verifh.I(1)
			for _, y := range a {
				p = verifh.Mul(p, y)
			}
			h.Ok(verifh.Eq(verifh.Val(A.Product()), p), "Product %v", a)
			g := h.Fs(n)
			G := verifh.G1s(g)
			h.Ok(A.Exp(G).Equals(verifh.G1(verifh.Dot(a, g))), "Exp a=%v", a)
			h.Ok(verifh.Panics(func() { A.Add(B[:n-1]) }) != nil, "Add of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A.Sub(B[:n-1]) }) != nil, "Sub of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A.InnerProd(B[:n-1]) }) != nil, "InnerProd of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A[:n-1].InnerProd(B) }) != nil, "InnerProd of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A.HadamardProd(B[:n-1]) }) != nil, "HadamardProd of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A[:n-1].Exp(G) }) != nil, "Exp of mismatched lengths refused")
		}
		h.Ok(snapshot(A, B, X) == before, "products changed their input")
		// results are not tied to the inputs
		r := A.Add(B)
		for i := range r {
			r[i].Mod(verifh.Zr(verifh.I(7)))
		}
		if n%2 == 0 {
			r = A.Evens()
			for i := range r {
				r[i].Clone(verifh.Zr(verifh.I(7)))
			}
		}
		h.Ok(snapshot(A, B, X) == before, "results share storage with inputs")
		z := append(Vec{}, A...)
		z.Zero()
		for i := range z {
			h.Ok(verifh.Val(z[i]).Sign() == 0, "Zero")
		}
	}
}

func TestVerif_C20_group_vectors(t *testing.T) {
	h := verifh.New(t)
	g0 := verifh.S(c.GenG1)
	for it := 0; it < verifh.Pick(40, 400); it++ {
		n := h.Rng.Intn(7)
		a, b, s := h.Edges(n), h.Edges(n), h.Edges(n)
		if n > 1 && it%3 == 0 { // cancelling elements
			b[0] = verifh.Neg(a[0])
			a[1] = a[0]
		}
		x := h.Edge()
		A, B := G1v(verifh.G1s(a)), G1v(verifh.G1s(b))
		A2, B2 := G2v(verifh.G2s(a)), G2v(verifh.G2s(b))
		S, X := Vec(verifh.Zrs(s)), verifh.Zr(x)
		before := snapshot(A, B, A2, B2, S, X)
		chk := func(name string, got G1v, want func(i int) verifh.F) {
			h.Ok(len(got) == n, "%s length", name)
			for i := range got {
				h.Ok(got[i].Equals(verifh.G1(want(i))), "%s[%d] a=%v b=%v s=%v x=%v", name, i, a, b, s, x)
			}
			h.Ok(snapshot(A, B, A2, B2, S, X) == before, "%s changed its input", name)
		}
		chk("G1v.Add", A.Add(B), func(i int) verifh.F { return verifh.Add(a[i], b[i]) })
		chk("G1v.HadamardProd", A.HadamardProd(B), func(i int) verifh.F { return verifh.Add(a[i], b[i]) })
		chk("G1v.Neg", A.Neg(), func(i int) verifh.F { return verifh.Neg(a[i]) })
		chk("G1v.Mul", A.Mul(X), func(i int) verifh.F { return verifh.Mul(a[i], x) })
		chk("G1v.MulV", A.MulV(S), func(i int) verifh.F { return verifh.Mul(a[i], s[i]) })
		chk2 := func(name string, got G2v, want func(i int) verifh.F) {
			h.Ok(len(got) == n, "%s length", name)
			for i := range got {
				h.Ok(got[i].Equals(verifh.G2(want(i))), "%s[%d] a=%v b=%v s=%v x=%v", name, i, a, b, s, x)
			}
			h.Ok(snapshot(A, B, A2, B2, S, X) == before, "%s changed its input", name)
		}
		chk2("G2v.Add", A2.Add(B2), func(i int) verifh.F { return verifh.Add(a[i], b[i]) })
		chk2("G2v.Mul", A2.Mul(X), func(i int) verifh.F { return verifh.Mul(a[i], x) })
		chk2("G2v.Mulv", A2.Mulv(S), func(i int) verifh.F { return verifh.Mul(a[i], s[i]) })
		sum := verifh.Add(append([]verifh.F{verifh.I(0)}, a...)...)
		if n > 0 {
			h.Ok(A.Sum().Equals(verifh.G1(sum)), "G1v.Sum a=%v", a)
			h.Ok(A2.Sum().Equals(verifh.G2(sum)), "G2v.Sum a=%v", a)
			A.Sum().Add(verifh.C.GenG1)
			A2.Sum().Add(verifh.C.GenG2)
			h.Ok(A.InnerProd(B2).Equals(verifh.Gt(verifh.Dot(a, b))), "InnerProd a=%v b=%v", a, b)
			h.Ok(verifh.Panics(func() { A[:n-1].InnerProd(B2) }) != nil, "InnerProd of mismatched lengths refused")
			h.Ok(verifh.Panics(func() { A[:n-1].MulV(S) }) != nil, "MulV of mismatched lengths refused")
			k := h.Rng.Intn(5)
			d, d2 := A[:1].Duplicate(k), A2[:1].Duplicate(k)
			h.Ok(len(d) == k && len(d2) == k, "Duplicate length")
			for i := range d {
				h.Ok(d[i].Equals(A[0]) && d2[i].Equals(A2[0]), "Duplicate element")
			}
			var bb, bb2 []byte
			for i := range A {
				bb = append(bb, A[i].Bytes()...)
				bb2 = append(bb2, A2[i].Bytes()...)
			}
			h.Ok(string(A.Bytes()) == string(bb) && string(A2.Bytes()) == string(bb2), "Bytes")
		}
		h.Ok(snapshot(A, B, A2, B2, S, X) == before, "sums and products changed their input")
		h.Ok(verifh.S(c.GenG1) == g0 && G1v{c.GenG1}.MulV(Vec{IntToZr(0)})[0].IsInfinity(), "the shared zero or generator changed")
	}
}
