package pol

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"
	"pol/verifh"

	math "github.com/IBM/mathlib"
)

type world struct {
	h      *verifh.T
	α      verifh.F
	N, fo  int
	params *PublicParams
	rng    *verifh.Range
	sum    *verifh.SumA
	poe    *verifh.Poe
}

// public parameters over known exponents, for paths with at most m edges
func newWorld(h *verifh.T, fo, m int) *world {
	w := &world{h: h, fo: fo, N: fo + 2, α: h.NZ()}
	P := &pp.PP{N: w.N}
	var e []verifh.F
	for i := 1; i <= 2*w.N; i++ {
		k := verifh.Pow(w.α, int64(i))
		if i == w.N+1 {
			k = verifh.I(1)
		}
		e = append(e, k)
		P.G1s = append(P.G1s, verifh.G1(k))
		if i <= w.N {
			P.G2s = append(P.G2s, verifh.G2(k))
		}
	}
	P.Gt = verifh.Gt(verifh.Pow(w.α, int64(w.N+1)))
	P.SetupDigest()
	n := fo + 1
	w.rng = h.RangeOver(e[n], e[:n])
	w.sum = h.SumOver(e[n], e[:n])
	w.poe = h.NewPoe(w.α, w.N, m, P.Digest)
	w.params = &PublicParams{
		Fanout: fo,
		PPPP:   P,
		SAPP:   sum.VerifPP(verifh.G1(w.sum.U), verifh.G1s(w.sum.Gs), verifh.G1(w.sum.G), P.G1s[n], verifh.G1s(w.sum.H), verifh.Zrs(w.sum.Bv), nil),
		RPPP:   bp.VerifRPPP(verifh.G1(w.rng.G), verifh.G1(w.rng.H), verifh.G1(w.rng.F), verifh.G1s(w.rng.Gs), verifh.G1s(w.rng.Hs), verifh.G1s(w.rng.Fs)),
		POEPP:  &poe.PP{Digest: w.poe.Digest, G: verifh.G1s(w.poe.G), H: verifh.G1s(w.poe.H), F: verifh.G1(w.poe.F), PP: P},
	}
	return w
}

func (w *world) dump() string {
	p := w.params
	s := fmt.Sprintf("%x%x%x%d%d", p.PPPP.Digest, p.POEPP.Digest, p.RPPP.Digest(), p.Fanout, p.PPPP.N)
	for _, g := range []*math.G1{p.SAPP.U, p.SAPP.G, p.SAPP.F, p.SAPP.B, p.RPPP.G, p.RPPP.H, p.RPPP.F, p.POEPP.F, verifh.C.GenG1} {
		s += verifh.S(g)
	}
	for _, v := range []common.G1v{p.PPPP.G1s, p.SAPP.Gs, p.SAPP.H, p.RPPP.Gs, p.RPPP.Hs, p.RPPP.Fs, p.POEPP.G, p.POEPP.H} {
		for _, g := range v {
			s += verifh.S(g) + fmt.Sprintf("%p", g)
		}
	}
	for _, g := range p.PPPP.G2s {
		s += verifh.S(g) + fmt.Sprintf("%p", g)
	}
	return s + verifh.S(p.PPPP.Gt) + verifh.S(verifh.C.GenG2) + verifh.S(verifh.C.GenGt) + verifh.S(verifh.C.GroupOrder)
}

// path of an identifier whose characters are the digits
func digits(depth int) func(string) []uint16 {
	return func(id string) []uint16 {
		if len(id) != depth {
			panic("bad identifier")
		}
		p := make([]uint16, depth)
		for j := range p {
			p[j] = uint16(id[j] - '0')
		}
		return p
	}
}

func (w *world) randID(depth int) string {
	id := ""
	for j := 0; j < depth; j++ {
		id += fmt.Sprint(w.h.Rng.Intn(w.fo))
	}
	return id
}

// a liability proof over exponents
type claim struct {
	V, W, D []verifh.F
	Σ, π    verifh.F
	RP      []*verifh.RP
	Sum     *verifh.SumP
	Eq      *verifh.PoeP
	Amount  int64
	Open    verifh.F
}

func (w *world) weights(V, W []verifh.F) []verifh.F {
	b := verifh.Cat(append(verifh.G1s(W), verifh.G1s(V)...))
	var r []verifh.F
	for i := range W {
		x := make([]byte, 4)
		binary.BigEndian.PutUint32(x, uint32(i))
		r = append(r, verifh.FE(verifh.Sha(w.params.PPPP.Digest, x, b)))
	}
	return r
}

func hashOf(gs ...verifh.F) verifh.F { return verifh.FE(verifh.Sha(verifh.Cat(verifh.G1s(gs)))) }

// Forge makes a proof satisfying every equation for the path, except for the named flaw.
func (w *world) forge(path []uint16, flaw string, reuse *claim) *claim {
	h := w.h
	L := len(path)
	c := &claim{Amount: int64(h.Rng.Intn(1000000))}
	if reuse != nil {
		c.V, c.W, c.RP = append([]verifh.F{}, reuse.V...), append([]verifh.F{}, reuse.W...), append([]*verifh.RP{}, reuse.RP...)
	} else {
		c.V, c.W = h.Fs(L), h.Fs(L-1)
		for i := range c.V {
			c.RP = append(c.RP, h.Forge(w.rng, c.V[i], ""))
		}
	}
	var lvl int
	is := func(name string) bool {
		n, _ := fmt.Sscanf(flaw, name+" %d", &lvl)
		return n == 1
	}
	for i := 1; i < L; i++ {
		if i < L-1 {
			c.D = append(c.D, hashOf(c.V[i], c.W[i]))
		} else {
			c.D = append(c.D, hashOf(c.V[i]))
		}
	}
	c.D = append(c.D, h.F())
	if is("digest") {
		c.D[lvl] = h.F()
	}
	if is("digest-without-W") {
		c.D[lvl] = hashOf(c.V[lvl+1])
	}
	if is("digest-of-parent") {
		c.D[lvl] = hashOf(c.V[lvl], c.W[lvl])
	}
	wt := w.weights(c.V, c.W)
	c.Σ = verifh.Dot(c.D[:L-1], wt)
	if flaw == "sigma" {
		c.Σ = verifh.Add(c.Σ, h.NZ())
	}
	c.π = verifh.Neg(verifh.Mul(c.Σ, verifh.Pow(w.α, int64(w.N+1))))
	for j := 0; j < L-1; j++ {
		at := int(path[j])
		if is("position") && lvl == j {
			at = (at + 1) % w.fo
		}
		c.π = verifh.Add(c.π, verifh.Mul(c.W[j], wt[j], verifh.Pow(w.α, int64(w.N-at))))
	}
	if flaw == "chain" {
		c.π = verifh.Add(c.π, h.NZ())
	}
	VA := verifh.Dot(c.V, verifh.SumPowers(verifh.G1s(c.V)))
	if flaw == "sum-of-other" {
		VA = verifh.Add(VA, h.NZ())
	}
	if flaw == "sum-without-last" {
		VA = verifh.Dot(c.V[:L-1], verifh.SumPowers(verifh.G1s(c.V[:L-1])))
	}
	fs := ""
	if flaw == "sum" {
		fs = "a"
	}
	c.Sum = h.ForgeSum(w.sum, VA, fs)
	var I, J []int
	V, W := append([]verifh.F{}, c.V[:L-1]...), append([]verifh.F{}, c.V[1:]...)
	for i := 0; i < L-1; i++ {
		I, J = append(I, int(path[i])), append(J, w.fo)
	}
	if is("equality-index") {
		I[lvl] = (I[lvl] + 1) % w.fo
	}
	if is("equality-sum-slot") {
		J[lvl] = w.fo - 1
	}
	if is("equality-parent") {
		V[lvl] = h.F()
	}
	if is("equality-child") {
		W[lvl] = h.F()
	}
	for !common.IsPowerOfTwo(uint16(len(I))) {
		I, J = append(I, 0), append(J, 0)
		V, W = append(V, verifh.I(0)), append(W, verifh.I(0))
	}
	fe := ""
	if flaw == "equality" {
		fe = "pairing"
	}
	if flaw == "equality-product" {
		fe = "a"
	}
	c.Eq = h.ForgePoe(w.poe, V, W, I, J, fe)
	if is("range-of-other") {
		c.RP[lvl] = h.Forge(w.rng, h.F(), "")
	}
	if is("range") {
		c.RP[lvl] = h.Forge(w.rng, c.V[lvl], "poly")
	}
	at := int(path[L-1])
	if flaw == "leaf-position" {
		at = (at + 1) % w.fo
	}
	c.Open = verifh.Sub(verifh.Mul(c.V[L-1], verifh.Pow(w.α, int64(w.N-at))), verifh.Mul(verifh.I(c.Amount), verifh.Pow(w.α, int64(w.N+1))))
	if flaw == "opening" {
		c.Open = verifh.Add(c.Open, h.NZ())
	}
	if flaw == "amount" {
		c.Amount++
	}
	if flaw == "negated-amount" {
		c.Amount = -1 - c.Amount
		// the opening of the positive amount
		c.Open = verifh.Sub(verifh.Mul(c.V[L-1], verifh.Pow(w.α, int64(w.N-at))), verifh.Mul(verifh.I(-c.Amount), verifh.Pow(w.α, int64(w.N+1))))
	}
	return c
}

func mkRP(r *verifh.RP) *bp.RangeProof {
	return bp.VerifRP{Δ: verifh.D3(r.D), U: verifh.Zr(r.U), W: verifh.G1(r.W), Γ: verifh.Zr(r.Γ), C: verifh.Zr(r.C),
		Q: verifh.G1(r.Q), R: verifh.G1(r.R), C1: verifh.G1(r.C1), C2: verifh.G1(r.C2), Τ: verifh.Zr(r.Τ), Ρ: verifh.Zr(r.Ρ),
		Π: bp.VerifIPP(verifh.At(r.LRs, r.Base), verifh.Zr(r.A), verifh.Zr(r.B), nil, nil)}.Make()
}

func (c *claim) proof() LiabilityProof {
	p := LiabilityProof{
		PointProofΣ: verifh.Zr(c.Σ), PointProofπ: verifh.G1(c.π),
		V: verifh.G1s(c.V), W: verifh.G1s(c.W), Digests: verifh.Zrs(c.D),
		SumArgumentProof: sum.VerifProof(verifh.G1(c.Sum.W), verifh.Zr(c.Sum.C), verifh.Zr(c.Sum.Ρ),
			bp.VerifIPP(verifh.At(c.Sum.LRs, nil), verifh.Zr(c.Sum.A), verifh.Zr(c.Sum.B), nil, nil)),
		EqualityProof: poe.VerifSet(&poe.AggregatedProof{IPP: bp.VerifIPP(verifh.At(c.Eq.LRs, c.Eq.Base), verifh.Zr(c.Eq.A), verifh.Zr(c.Eq.B), nil, nil),
			U: verifh.G1(c.Eq.U), V: verifh.G1(c.Eq.V), Ω: verifh.G1(c.Eq.Ω), Waggr: verifh.G1s(c.Eq.Waggr), Vaggr: verifh.G1s(c.Eq.Vaggr)}, verifh.Zr(c.Eq.C), verifh.Zr(c.Eq.Ρ)),
		LiabilityProof: TotalProof{LiabilityProof: verifh.G1(c.Open), Sum: int(c.Amount)},
	}
	for _, r := range c.RP {
		p.RangeProofs = append(p.RangeProofs, mkRP(r))
	}
	return p
}

func pathStr(p []uint16) string {
	s := ""
	for _, c := range p {
		s += fmt.Sprint(c)
	}
	return s
}

var _ = big.NewInt
