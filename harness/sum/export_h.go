package sum

import (
	"pol/bp"
	"pol/common"

	math "github.com/IBM/mathlib"
)

// Constructors for the executable contracts (laid over, not in the repository).

func VerifProof(W *math.G1, c, ρ *math.Zr, π *bp.InnerProductProof) *Proof {
	return &Proof{W: W, c: c, ρ: ρ, π: π}
}

func VerifOpen(p *Proof) (W *math.G1, c, ρ *math.Zr, π *bp.InnerProductProof) {
	return p.W, p.c, p.ρ, p.π
}

func VerifPP(U *math.G1, Gs common.G1v, G, F *math.G1, H common.G1v, b common.Vec, digest []byte) *PP {
	return &PP{U: U, Gs: Gs, G: G, F: F, H: H, b: b, B: H.MulV(b).Sum(), Digest: digest}
}
