package verifh

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"

	math "github.com/IBM/mathlib"
)

// Sum is the reference of the sum argument.
type SumA struct {
	U, G, F F
	Gs, H   []F
	Bv      []F // 1,...,1,-1
	B       F
}

func (h *T) NewSum(n int) *SumA { return h.SumOver(h.NZ(), h.NZs(n)) }

func (h *T) SumOver(f F, gs []F) *SumA {
	s := &SumA{U: h.NZ(), G: h.NZ(), F: f, Gs: gs, H: h.NZs(len(gs))}
	for range gs {
		s.Bv = append(s.Bv, I(1))
	}
	s.Bv[len(gs)-1] = I(-1)
	s.B = Dot(s.H, s.Bv)
	return s
}

type SumP struct {
	W, C, Ρ F
	LRs     []E
	A, B    F
}

// Powers are the aggregation weights of the commitments.
func SumPowers(V []*math.G1) []F {
	τ := FE(Sha(Cat(V)))
	r := make([]F, len(V))
	p := I(1)
	for i := range r {
		r[i] = p
		p = Mul(p, τ)
	}
	return r
}

func (s *SumA) X(c, V, W F) F { return FE(Sha(Zr(c).Bytes(), G1(V).Bytes(), G1(W).Bytes())) }

// ForgeSum makes an argument for any V; flaw: "", "P" (for another commitment), "c" (for another product), "a"
func (h *T) ForgeSum(s *SumA, V F, flaw string) *SumP {
	p := &SumP{W: h.F(), C: h.F(), Ρ: h.F()}
	x := s.X(p.C, V, p.W)
	P := Add(Mul(s.F, p.Ρ), V, Mul(p.W, x), s.B)
	c := Mul(p.C, x)
	switch flaw {
	case "P":
		P = Add(P, h.NZ())
	case "c":
		c = Add(c, h.NZ())
	}
	ipa := &IPA{G: s.Gs, H: s.H, U: K(s.U)}
	a, b := h.Solve(s.Gs, s.H, P, c)
	p.LRs, p.A, p.B = ipa.Prove(K(P), c, a, b)
	if flaw == "a" {
		p.A = Add(p.A, h.NZ())
	}
	return p
}

// ---- equality of openings ----

// RO is the reference of the equality proof's random oracle.
func RO(gs []*math.G1, ints []int, digest []byte, n int) []F {
	d := Cat(gs)
	for _, i := range ints {
		b := make([]byte, 2)
		binary.BigEndian.PutUint16(b, uint16(i))
		d = append(d, b...)
	}
	key := Sha(d, digest)
	r := make([]F, n)
	for i := range r {
		m := hmac.New(sha256.New, key)
		b := make([]byte, 2)
		binary.BigEndian.PutUint16(b, uint16(i))
		m.Write(b)
		r[i] = FE(m.Sum(nil))
	}
	return r
}

// Poe is the reference of the equality proof over openings with the secret exponent α.
type Poe struct {
	α      F
	N      int
	G, H   []F
	F      F
	Digest []byte
}

func (h *T) NewPoe(α F, N, m int, ppDigest []byte) *Poe {
	p := &Poe{α: α, N: N, G: h.NZs(m), H: h.NZs(m), F: h.NZ()}
	p.Digest = Sha(Cat(G1s(p.G)), Cat(G1s(p.H)), G1(p.F).Bytes(), ppDigest)
	return p
}

type PoeP struct {
	C, Ρ, U, V, Ω F
	Waggr, Vaggr  []F
	LRs           []E
	A, B          F
	Base          *math.G1
}

// ForgePoe makes a proof for any commitments; flaw: "", "pairing", "P", "c", "a"
func (h *T) ForgePoe(p *Poe, V, W []F, Is, Js []int, flaw string) *PoeP {
	m := len(V)
	r := &PoeP{C: h.F(), Ρ: h.F(), U: h.F(), V: h.F(), Waggr: h.Fs(m), Vaggr: h.Fs(m), Base: Gen("u", 0)}
	gs := append(G1s(r.Vaggr), G1s(r.Waggr)...)
	gs = append(append(gs, G1s(V)...), G1s(W)...)
	x := RO(gs, nil, p.Digest, 1)[0]
	gs = append(gs, G1(r.U), G1(r.V))
	ts := RO(gs, append(append([]int{}, Is...), Js...), p.Digest, 2*m)
	num := Add()
	var bs []F
	for k := 0; k < m; k++ {
		num = Add(num,
			Mul(Add(V[k], Mul(r.Vaggr[k], x)), ts[2*k], Pow(p.α, int64(p.N-Is[k]))),
			Mul(Add(W[k], Mul(r.Waggr[k], x)), ts[2*k+1], Pow(p.α, int64(p.N-Js[k]))))
		bs = append(bs, Add(ts[2*k], ts[2*k+1]))
	}
	r.Ω = Sub(num, Mul(r.C, Pow(p.α, int64(p.N+1))))
	if flaw == "pairing" {
		r.Ω = Add(r.Ω, h.NZ())
	}
	P := Add(Mul(p.F, r.Ρ), Mul(r.U, x), r.V, Dot(p.H, bs))
	c := r.C
	switch flaw {
	case "P":
		P = Add(P, h.NZ())
	case "c":
		c = Add(c, h.NZ())
	}
	ipa := &IPA{G: p.G, H: p.H, U: E{Add(), I(1)}, Base: r.Base}
	a, b := h.Solve(p.G, p.H, P, c)
	r.LRs, r.A, r.B = ipa.Prove(K(P), c, a, b)
	if flaw == "a" {
		r.A = Add(r.A, h.NZ())
	}
	return r
}

type OneP struct{ C, V, W, Ω F }

// ForgeOne makes a proof for a single pair.
func (h *T) ForgeOne(p *Poe, V, W F, I, J int, flaw bool) *OneP {
	r := &OneP{C: h.F(), V: h.F(), W: h.F()}
	x := RO(G1s([]F{V, W, r.V, r.W}), nil, p.Digest, 1)[0]
	ts := RO(G1s([]F{V, W, Mul(r.V, x), Mul(r.W, x), r.C}), []int{I, J}, p.Digest, 2)
	num := Add(Mul(Add(V, Mul(r.V, x)), ts[0], Pow(p.α, int64(p.N-I))), Mul(Add(W, Mul(r.W, x)), ts[1], Pow(p.α, int64(p.N-J))))
	r.Ω = Sub(num, Mul(r.C, Add(ts[0], ts[1]), Pow(p.α, int64(p.N+1))))
	if flaw {
		r.Ω = Add(r.Ω, h.NZ())
	}
	return r
}
