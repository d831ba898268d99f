package poe

import math "github.com/IBM/mathlib"

// Access for the executable contracts (laid over, not in the repository).

func VerifSet(p *AggregatedProof, c, ρ *math.Zr) *AggregatedProof {
	p.c, p.ρ = c, ρ
	return p
}

func VerifGet(p *AggregatedProof) (c, ρ *math.Zr) { return p.c, p.ρ }
