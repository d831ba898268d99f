package pp

import (
	"encoding/binary"
	"fmt"
	"pol/common"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

// params with a known secret exponent, built from the definition
func knownPP(α verifh.F, N int) *PP {
	p := &PP{N: N}
	for i := 1; i <= 2*N; i++ {
		k := verifh.Pow(α, int64(i))
		if i == N+1 {
			k = verifh.I(1)
		}
		p.G1s = append(p.G1s, verifh.G1(k))
		if i <= N {
			p.G2s = append(p.G2s, verifh.G2(k))
		}
	}
	p.Gt = verifh.Gt(verifh.Pow(α, int64(N+1)))
	var bs []byte
	for _, g := range p.G1s {
		bs = append(bs, g.Bytes()...)
	}
	for _, g := range p.G2s {
		bs = append(bs, g.Bytes()...)
	}
	p.Digest = verifh.Sha(bs, p.Gt.Bytes())
	return p
}

func dump(p *PP) string {
	s := fmt.Sprint(p.N, p.Digest, verifh.S(p.Gt), verifh.S(c.GenG1), verifh.S(c.GenG2), verifh.S(c.GenGt), verifh.S(GroupOrder), len(p.G1s), len(p.G2s))
	for _, g := range p.G1s {
		s += verifh.S(g)
	}
	for _, g := range p.G2s {
		s += verifh.S(g)
	}
	return s
}

func zdump(m []*math.Zr) string {
	s := ""
	for _, x := range m {
		s += verifh.S(x) + fmt.Sprintf("@%p ", x)
	}
	return s
}

func refWeight(p *PP, cs []*math.G1, i int) verifh.F {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i))
	return verifh.FE(verifh.Sha(p.Digest, b, verifh.Cat(cs)))
}

func TestVerif_C21_params(t *testing.T) {
	h := verifh.New(t)
	for _, N := range []int{1, 2, 3, 5, 9} {
		p := NewPublicParams(N)
		h.Ok(p.N == N && len(p.G2s) == N && len(p.G1s) == 2*N, "sizes for N=%d: %d %d", N, len(p.G1s), len(p.G2s))
		if N == 1 {
			continue
		}
		e := func(a *math.G1, b *math.G2) *math.Gt { return c.FExp(c.Pairing(b, a)) }
		for i := 1; i <= N; i++ { // same exponents in both groups
			h.Ok(e(p.G1s[i-1], c.GenG2).Equals(e(c.GenG1, p.G2s[i-1])), "power %d in both groups, N=%d", i, N)
			if i > 1 {
				h.Ok(e(p.G1s[i-1], c.GenG2).Equals(e(p.G1s[i-2], p.G2s[0])), "power %d, N=%d", i, N)
			}
		}
		h.Ok(p.G1s[N].Equals(c.GenG1), "the power N+1 is not given out, N=%d", N)
		h.Ok(p.Gt.Equals(e(p.G1s[N-1], p.G2s[0])), "power N+1 in Gt, N=%d", N)
		for i := N + 2; i <= 2*N; i++ {
			h.Ok(e(p.G1s[i-1], c.GenG2).Equals(e(p.G1s[i-1-N], p.G2s[N-1])), "power %d, N=%d", i, N)
			h.Ok(!p.G1s[i-1].Equals(c.GenG1), "power %d", i)
		}
		q := *p
		q.Digest = nil
		q.SetupDigest()
		var bs []byte
		for _, g := range p.G1s {
			bs = append(bs, g.Bytes()...)
		}
		for _, g := range p.G2s {
			bs = append(bs, g.Bytes()...)
		}
		want := verifh.Sha(bs, p.Gt.Bytes())
		h.Ok(string(q.Digest) == string(want) && string(p.Digest) == string(want), "digest, N=%d", N)
		h.Ok(!NewPublicParams(N).G1s[0].Equals(p.G1s[0]), "fresh exponent, N=%d", N)
	}
}

func openings(h *verifh.T, tag string, check func(p *PP, N int, α verifh.F)) {
	for N := 2; N <= verifh.Pick(6, 17); N++ {
		α := h.NZ()
		p := knownPP(α, N)
		d := dump(p)
		check(p, N, α)
		h.Ok(dump(p) == d, "%s: parameters or group constants changed", tag)
	}
}

func commitVal(α verifh.F, m []verifh.F) verifh.F {
	r := verifh.I(0)
	for j := range m {
		r = verifh.Add(r, verifh.Mul(m[j], verifh.Pow(α, int64(j+1))))
	}
	return r
}

func TestVerif_C08_complete(t *testing.T) {
	h := verifh.New(t)
	openings(h, "open", func(p *PP, N int, α verifh.F) {
		for k := 0; k < 2; k++ {
			m := h.Edges(N)
			if k == 1 { // scalars outside the canonical range
				m = h.Fs(N)
			}
			M := common.Vec(verifh.Zrs(m))
			if k == 1 {
				M[h.Rng.Intn(N)] = common.NegZr(verifh.Zr(verifh.I(3)))
				m = verifh.Vals(M)
			}
			zd := zdump(M)
			C := Commit(p, M)
			h.Ok(C.Equals(verifh.G1(commitVal(α, m))), "commitment of %v", m)
			cs := verifh.S(C)
			for i := 0; i < N; i++ {
				mi, π := Open(p, i, M)
				h.Ok(verifh.Eq(verifh.Val(mi), m[i]), "Open(%d) of %v states %v", i, m, mi)
				want := verifh.I(0)
				for j := 0; j < N; j++ {
					if j != i {
						want = verifh.Add(want, verifh.Mul(m[j], verifh.Pow(α, int64(N-i+j+1))))
					}
				}
				h.Ok(π.Equals(verifh.G1(want)), "opening proof at %d of %v", i, m)
				h.Ok(Verify(p, mi, π, C, i) == nil, "Verify of the opening at %d of %v", i, m)
				h.Ok(Verify(p, verifh.ZrOdd(m[i]), π, C, i) == nil, "Verify with another representative at %d of %v", i, m)
			}
			h.Ok(zdump(M) == zd && verifh.S(C) == cs, "committing and opening change nothing")
			h.Ok(verifh.Panics(func() { Open(p, N, M) }) != nil, "Open(%d) of length %d refused", N, N)
			h.Ok(verifh.Panics(func() { Commit(p, M[:N-1]) }) != nil && verifh.Panics(func() { Commit(p, append(M[:N:N], M[0])) }) != nil, "wrong length refused")
		}
	})
}

func TestVerif_C08_exact(t *testing.T) {
	h := verifh.New(t)
	openings(h, "verify", func(p *PP, N int, α verifh.F) {
		for k := 0; k < N; k++ {
			i := k
			C, mi := h.Edge(), h.Edge()
			// the unique proof element satisfying the equation
			π := verifh.Sub(verifh.Mul(C, verifh.Pow(α, int64(N-i))), verifh.Mul(mi, verifh.Pow(α, int64(N+1))))
			Z, Π, CC := verifh.Zr(mi), verifh.G1(π), verifh.G1(C)
			b := verifh.S(Z) + verifh.S(Π) + verifh.S(CC)
			h.Ok(Verify(p, Z, Π, CC, i) == nil, "solution of the equation rejected at %d: C=%v mi=%v", i, C, mi)
			h.Ok(Verify(p, verifh.ZrOdd(mi), Π, CC, i) == nil, "solution rejected with another representative")
			h.Ok(Verify(p, Z, Π, CC, i) == nil && b == verifh.S(Z)+verifh.S(Π)+verifh.S(CC), "verifying changes its input")
			if mi.Sign() != 0 {
				h.Ok(Verify(p, verifh.Zr(verifh.Neg(mi)), Π, CC, i) != nil, "negation accepted at %d", i)
				neg := c.NewZrFromInt(0)
				h.Ok(Verify(p, neg.Plus(common.NegZr(Z)), Π, CC, i) != nil, "negation accepted at %d", i)
				sm := int64(1 + h.Rng.Intn(1000))
				π2 := verifh.Sub(verifh.Mul(C, verifh.Pow(α, int64(N-i))), verifh.Mul(verifh.I(sm), verifh.Pow(α, int64(N+1))))
				h.Ok(Verify(p, c.NewZrFromInt(sm), verifh.G1(π2), CC, i) == nil, "small element rejected")
				h.Ok(Verify(p, c.NewZrFromInt(-sm), verifh.G1(π2), CC, i) != nil, "negated integer accepted at %d", i)
			}
			h.Ok(Verify(p, verifh.Zr(verifh.Add(mi, h.NZ())), Π, CC, i) != nil, "other element accepted at %d", i)
			h.Ok(Verify(p, Z, verifh.G1(verifh.Add(π, h.NZ())), CC, i) != nil, "other proof accepted at %d", i)
			h.Ok(Verify(p, Z, Π, verifh.G1(verifh.Add(C, h.NZ())), i) != nil, "other commitment accepted at %d", i)
			if C.Sign() != 0 {
				h.Ok(Verify(p, Z, Π, CC, (i+1)%N) != nil, "other index accepted: %d for %d", (i+1)%N, i)
			}
			h.Ok(Verify(p, Z, verifh.G1(verifh.Neg(π)), CC, i) != nil || π.Sign() == 0, "negated proof accepted")
		}
	})
}

func TestVerif_C09_update(t *testing.T) {
	h := verifh.New(t)
	openings(h, "update", func(p *PP, N int, α verifh.F) {
		for i := 0; i < N; i++ {
			m, x := h.Edges(N), h.Edge()
			if i%3 == 1 {
				x = m[i]
			}
			M, X := common.Vec(verifh.Zrs(m)), verifh.Zr(x)
			C := Commit(p, M)
			zd := zdump(append(M[:N:N], X))
			Update(p, C, M, X, i)
			h.Ok(zdump(append(M[:N:N], X)) == zd, "Update changes vector or element")
			m[i] = x
			h.Ok(C.Equals(verifh.G1(commitVal(α, m))), "Update at %d to %v", i, x)
			h.Ok(C.Equals(Commit(p, verifh.Zrs(m))), "Update at %d equals recommitting", i)
		}
	})
}

func TestVerif_C10_aggregate(t *testing.T) {
	h := verifh.New(t)
	openings(h, "aggregate", func(p *PP, N int, α verifh.F) {
		for _, k := range []int{1, 2, 3, verifh.Pick(5, 12)} {
			var cs, πs common.G1v
			var idx []int
			var cv, pv, ms []verifh.F
			for j := 0; j < k; j++ {
				i := h.Rng.Intn(N)
				m := h.Edges(N)
				M := common.Vec(verifh.Zrs(m))
				C := Commit(p, M)
				_, π := Open(p, i, M)
				if j == k-1 && k > 2 { // repeated commitment
					C, π, i, m = cs[0], πs[0], idx[0], nil
					ms = append(ms, ms[0])
				} else {
					ms = append(ms, m[i])
				}
				cs, πs, idx = append(cs, C), append(πs, π), append(idx, i)
			}
			_ = cv
			_ = pv
			var w []verifh.F
			for j := range cs {
				w = append(w, refWeight(p, cs, j))
				h.Ok(verifh.Eq(verifh.Val(RO(p, cs, j)), w[j]), "weight of position %d of %d", j, k)
			}
			before := ""
			for j := range cs {
				before += verifh.S(cs[j]) + verifh.S(πs[j])
			}
			agg := Aggregate(p, cs, πs, RO)
			Σ := verifh.Dot(ms, w)
			h.Ok(VerifyAggregation(p, idx, cs, agg, verifh.Zr(Σ), RO) == nil, "aggregation of %d openings, N=%d", k, N)
			h.Ok(VerifyAggregation(p, idx, cs, agg, verifh.ZrOdd(Σ), RO) == nil, "aggregation of %d openings, other representative", k)
			after := ""
			for j := range cs {
				after += verifh.S(cs[j]) + verifh.S(πs[j])
			}
			h.Ok(before == after, "aggregation changes its input")
			if Σ.Sign() != 0 {
				h.Ok(VerifyAggregation(p, idx, cs, agg, verifh.Zr(verifh.Neg(Σ)), RO) != nil, "negated sum accepted")
				h.Ok(VerifyAggregation(p, idx, cs, agg, common.IntToZr(0).Plus(common.NegZr(verifh.Zr(Σ))), RO) != nil, "negated sum accepted")
			}
			h.Ok(VerifyAggregation(p, idx, cs, agg, verifh.Zr(verifh.Add(Σ, h.NZ())), RO) != nil, "other sum accepted")
			h.Ok(verifh.Panics(func() { Aggregate(p, cs, πs[:k-1], RO) }) != nil, "mismatched lengths refused")
		}
	})
}

func TestVerif_C10_exact(t *testing.T) {
	h := verifh.New(t)
	openings(h, "verify aggregation", func(p *PP, N int, α verifh.F) {
		for k := 1; k <= 4; k++ {
			cv := h.Fs(k)
			cs := common.G1v(verifh.G1s(cv))
			var idx []int
			for range cs {
				idx = append(idx, h.Rng.Intn(N))
			}
			Σ := h.Edge()
			for _, own := range []bool{false, true} {
				// also with other weights than the built-in ones
				ro := RO
				fixed := h.NZs(k)
				if own {
					ro = func(_ *PP, _ []*math.G1, i int) *math.Zr { return verifh.Zr(fixed[i]) }
				}
				sum := verifh.I(0)
				for j := range cs {
					w := refWeight(p, cs, j)
					if own {
						w = fixed[j]
					}
					sum = verifh.Add(sum, verifh.Mul(cv[j], w, verifh.Pow(α, int64(N-idx[j]))))
				}
				π := verifh.Sub(sum, verifh.Mul(Σ, verifh.Pow(α, int64(N+1))))
				h.Ok(VerifyAggregation(p, idx, cs, verifh.G1(π), verifh.Zr(Σ), ro) == nil, "solution of the equation rejected, %d commitments", k)
				h.Ok(VerifyAggregation(p, idx, cs, verifh.G1(verifh.Add(π, h.NZ())), verifh.Zr(Σ), ro) != nil, "other proof accepted")
				for j := range cs {
					cs2 := append(common.G1v{}, cs...)
					cs2[j] = verifh.G1(verifh.Add(cv[j], h.NZ()))
					h.Ok(VerifyAggregation(p, idx, cs2, verifh.G1(π), verifh.Zr(Σ), ro) != nil, "other commitment %d of %d accepted", j, k)
					idx2 := append([]int{}, idx...)
					idx2[j] = (idx[j] + 1) % N
					h.Ok(VerifyAggregation(p, idx2, cs, verifh.G1(π), verifh.Zr(Σ), ro) != nil, "other index at %d of %d accepted", j, k)
				}
				// weights are not interchangeable
				if k > 1 && !own {
					d := h.NZ()
					cs2 := append(common.G1v{}, cs...)
					a, b := verifh.Pow(α, int64(N-idx[0])), verifh.Pow(α, int64(N-idx[k-1]))
					cs2[0] = verifh.G1(verifh.Add(cv[0], verifh.Mul(d, verifh.Inv(a))))
					cs2[k-1] = verifh.G1(verifh.Sub(cv[k-1], verifh.Mul(d, verifh.Inv(b))))
					h.Ok(VerifyAggregation(p, idx, cs2, verifh.G1(π), verifh.Zr(Σ), ro) != nil, "commitments changed in opposite directions accepted")
				}
			}
		}
	})
}

func TestVerif_C10_weights(t *testing.T) { weights(verifh.New(t)) }
func TestVerif_C17_weights(t *testing.T) { weights(verifh.New(t)) }

func weights(h *verifh.T) {
	p := knownPP(h.NZ(), 3)
	cs := verifh.G1s(h.Fs(4))
	seen := map[string]string{}
	put := func(z *math.Zr, what string) {
		h.Ok(seen[verifh.S(z)] == "", "%s has the challenge of %s", what, seen[verifh.S(z)])
		seen[verifh.S(z)] = what
	}
	for _, i := range []int{0, 1, 2, 3, 255, 256, 257, 65535, 65536, 1 << 24, 1<<24 + 1} {
		z := RO(p, cs, i)
		h.Ok(verifh.Eq(verifh.Val(z), refWeight(p, cs, i)), "weight %d", i)
		put(z, fmt.Sprint("index ", i))
	}
	for j := range cs {
		c2 := append([]*math.G1{}, cs...)
		c2[j] = verifh.G1(h.F())
		put(RO(p, c2, 0), fmt.Sprint("changed commitment ", j))
	}
	put(RO(p, cs[:3], 0), "one commitment less")
	p2 := *p
	p2.Digest = verifh.Sha(p.Digest)
	put(RO(&p2, cs, 0), "other parameters")
}
