package verifh

import (
	"fmt"

	math "github.com/IBM/mathlib"
)

// Range is the reference of the range proof over generators with known exponents.
type Range struct {
	G, H, F    F
	Gs, Hs, Fs []F
	Digest     []byte
}

const RangeBits = 63

func (h *T) NewRange(n int) *Range {
	return h.RangeOver(h.NZ(), h.NZs(n))
}

func (h *T) RangeOver(f F, gs []F) *Range {
	n := len(gs)
	r := &Range{G: h.NZ(), H: h.NZ(), F: f, Gs: gs, Hs: h.NZs(n * (RangeBits + 1)), Fs: h.NZs(n * (RangeBits + 1))}
	r.Digest = Sha(G1(r.G).Bytes(), G1(r.H).Bytes(), G1(r.F).Bytes(), Cat(G1s(r.Gs)), Cat(G1s(r.Hs)), Cat(G1s(r.Fs)))
	return r
}

// RP is a range proof, by exponents. The inner-product proof has a component along the derived generator.
type RP struct {
	D               [][3]F
	U, Γ, C, Τ, Ρ   F
	W, Q, R, C1, C2 F
	LRs             []E
	A, B            F
	Base            *math.G1
}

// Gen is the i-th derived generator of a context.
func Gen(context string, i int) *math.G1 {
	d := Sha([]byte(fmt.Sprintf("PoL %s %d", context, i)))
	return C.HashToG1(append(d, Sha(d)...))
}

func (p *Range) x(V, W, Qq F) F {
	return FE(Sha(p.Digest, G1(V).Bytes(), G1(W).Bytes(), G1(Qq).Bytes()))
}

func RedDigest(Gs []F) []byte { return BPDigest(Gen("U range proof", 0), G1s(Gs), nil) }

func redBytes(γ F, D [][3]F, u F) []byte {
	b := append(Zr(γ).Bytes(), Zr(u).Bytes()...)
	for _, d := range D {
		b = append(b, Cat(G1s(d[:]))...)
	}
	return b
}

func (p *Range) ys(x F, r *RP) (y0, y1 F) {
	f := func(tag byte) F {
		d := append([]byte{tag}, p.Digest...)
		d = append(d, Zr(x).Bytes()...)
		d = append(d, redBytes(r.Γ, r.D, r.U)...)
		return FE(Sha(G1(r.Q).Bytes(), G1(r.R).Bytes(), d))
	}
	return f(0), f(1)
}

func (p *Range) z(r *RP, y0, y1 F) F {
	d := append([]byte{}, p.Digest...)
	d = append(d, G1(r.C1).Bytes()...)
	d = append(d, G1(r.C2).Bytes()...)
	d = append(d, Zr(y0).Bytes()...)
	d = append(d, Zr(y1).Bytes()...)
	return FE(Sha(G1(r.Q).Bytes(), G1(r.R).Bytes(), d))
}

type rangeDerived struct {
	x, y0, y1, z, c0, P F
	d, Fp               []F
}

// derive computes what the verifier computes by itself.
func (p *Range) derive(V F, r *RP, xs []F) rangeDerived {
	n, m := len(p.Gs), RangeBits
	var o rangeDerived
	o.x = p.x(V, r.W, r.Q)
	f := BitProducts(n, xs)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			o.d = append(o.d, Mul(Pow(I(2), int64(j)), f[i]))
		}
	}
	for i := 0; i < n; i++ {
		o.d = append(o.d, Mul(f[i], o.x))
	}
	o.y0, o.y1 = p.ys(o.x, r)
	o.z = p.z(r, o.y0, o.y1)
	yi := Inv(o.y0)
	pw := I(1)
	for i := range p.Fs {
		o.Fp = append(o.Fp, Mul(p.Fs[i], pw))
		pw = Mul(pw, yi)
	}
	o.P = Add(Mul(p.F, r.Ρ), r.Q, Mul(r.R, o.z))
	β, βd := I(0), I(0)
	pw = I(1)
	for i := 0; i < n*m; i++ {
		o.P = Add(o.P, Mul(Add(p.Hs[i], p.Fs[i]), o.y1))
		β = Add(β, pw)
		βd = Add(βd, o.d[i])
		pw = Mul(pw, o.y0)
	}
	y2 := Mul(o.y1, o.y1)
	for i := range o.d {
		o.P = Add(o.P, Mul(o.Fp[i], o.d[i], y2))
	}
	o.c0 = Add(Mul(βd, y2, o.y1), Mul(y2, Add(r.U, β)), Mul(β, o.y1))
	return o
}

// Forge makes a proof for any V that satisfies every equation, using the exponents; the flaw breaks exactly one of them.
//
//	"round k": the commitment of round k of the reduction; "final": the reduction's final scalar;
//	"poly": the polynomial equation; "ipa": the inner product; "ipaP": the inner-product argument is for another commitment;
//	"ipaC": ... for another inner product
func (h *T) Forge(p *Range, V F, flaw string) *RP {
	r := &RP{W: h.F(), Q: h.F(), R: h.F(), Γ: h.F(), C1: h.F(), C2: h.F(), C: h.F(), Ρ: h.F(), Base: Gen("u", 0)}
	x := p.x(V, r.W, r.Q)
	U0 := Add(Mul(p.F, r.Γ), V, Mul(r.W, x))
	skew := map[int]F{}
	var k int
	if _, err := fmt.Sscanf(flaw, "round %d", &k); err == nil {
		skew[k] = h.NZ()
	}
	if flaw == "start" {
		U0 = Add(U0, h.NZ())
	}
	var xs []F
	r.D, xs, r.U = h.IRForge(p.Gs, U0, RedDigest(p.Gs), skew)
	if flaw == "final" {
		r.U = Add(r.U, h.NZ())
	}
	o := p.derive(V, r, xs)
	// z C1 + z^2 C2 + c0 G = c G + τ H
	left := Add(Mul(r.C1, o.z), Mul(r.C2, o.z, o.z), Mul(p.G, Sub(o.c0, r.C)))
	r.Τ = Mul(left, Inv(p.H))
	if flaw == "poly" {
		r.Τ = Add(r.Τ, h.NZ())
	}
	P, cc := o.P, r.C
	if flaw == "ipaP" {
		P = Add(P, h.NZ())
	}
	if flaw == "ipaC" {
		cc = Add(cc, h.NZ())
	}
	ipa := &IPA{G: p.Hs, H: o.Fp, U: E{I(0), I(1)}, Base: r.Base}
	a, b := h.Solve(p.Hs, o.Fp, P, cc)
	r.LRs, r.A, r.B = ipa.Prove(K(P), cc, a, b)
	if flaw == "ipa" {
		r.A = Add(r.A, h.NZ())
	}
	return r
}

// Points renders exponents.
func D3(D [][3]F) [][3]*math.G1 {
	var r [][3]*math.G1
	for _, d := range D {
		r = append(r, [3]*math.G1{G1(d[0]), G1(d[1]), G1(d[2])})
	}
	return r
}
func At(es []E, u *math.G1) []*math.G1 {
	r := make([]*math.G1, len(es))
	for i := range es {
		r[i] = es[i].At(u)
	}
	return r
}
