package bp

import (
	"pol/common"

	math "github.com/IBM/mathlib"
)

// Constructors and accessors for the executable contracts of other packages (laid over, not in the repository).

func VerifIPP(LRs []*math.G1, a, b *math.Zr, P *math.G1, C *math.Zr) *InnerProductProof {
	return &InnerProductProof{LRs: LRs, a: a, b: b, P: P, C: C}
}

type VerifRP struct {
	Δ               [][3]*math.G1
	U, Γ, C, Τ, Ρ   *math.Zr
	W, Q, R, C1, C2 *math.G1
	Π               *InnerProductProof
}

func (r VerifRP) Make() *RangeProof {
	return &RangeProof{Δ: r.Δ, u: r.U, W: r.W, γ: r.Γ, Π: r.Π, c: r.C, Q: r.Q, R: r.R, C1: r.C1, C2: r.C2, τ: r.Τ, ρ: r.Ρ}
}

func VerifOpenRP(r *RangeProof) VerifRP {
	return VerifRP{Δ: r.Δ, U: r.u, W: r.W, Γ: r.γ, Π: r.Π, C: r.c, Q: r.Q, R: r.R, C1: r.C1, C2: r.C2, Τ: r.τ, Ρ: r.ρ}
}

func VerifAB(p *InnerProductProof) (a, b *math.Zr) { return p.a, p.b }

func VerifRPPP(G, H, F *math.G1, Gs, Hs, Fs common.G1v) *RangeProofPublicParams {
	return &RangeProofPublicParams{G: G, H: H, F: F, Gs: Gs, Hs: Hs, Fs: Fs}
}
