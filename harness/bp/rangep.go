package bp

import (
	"fmt"
	"math/big"
	"pol/common"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

func knownRP(p *verifh.Range) *RangeProofPublicParams {
	return &RangeProofPublicParams{G: verifh.G1(p.G), H: verifh.G1(p.H), F: verifh.G1(p.F), Gs: verifh.G1s(p.Gs), Hs: verifh.G1s(p.Hs), Fs: verifh.G1s(p.Fs)}
}

func mkRP(r *verifh.RP) *RangeProof {
	return &RangeProof{Δ: verifh.D3(r.D), u: verifh.Zr(r.U), W: verifh.G1(r.W), γ: verifh.Zr(r.Γ), c: verifh.Zr(r.C),
		Q: verifh.G1(r.Q), R: verifh.G1(r.R), C1: verifh.G1(r.C1), C2: verifh.G1(r.C2), τ: verifh.Zr(r.Τ), ρ: verifh.Zr(r.Ρ),
		Π: &InnerProductProof{LRs: verifh.At(r.LRs, r.Base), a: verifh.Zr(r.A), b: verifh.Zr(r.B)}}
}

func rpDump(p *RangeProofPublicParams) string {
	s := verifh.S(p.G) + verifh.S(p.H) + verifh.S(p.F)
	for _, v := range []common.G1v{p.Gs, p.Hs, p.Fs} {
		for _, g := range v {
			s += verifh.S(g) + fmt.Sprintf("%p", g)
		}
	}
	return s + fmt.Sprintf("%x", p.Digest())
}

func proofDump(r *RangeProof) string {
	s := verifh.S(r.u) + verifh.S(r.W) + verifh.S(r.γ) + verifh.S(r.c) + verifh.S(r.Q) + verifh.S(r.R) + verifh.S(r.C1) + verifh.S(r.C2) + verifh.S(r.τ) + verifh.S(r.ρ)
	for _, d := range r.Δ {
		s += verifh.S(common.G1v(d[:]))
	}
	return s + verifh.S(common.G1v(r.Π.LRs)) + verifh.S(r.Π.a) + verifh.S(r.Π.b) + verifh.S(r.Π.C) + verifh.S(r.Π.P)
}

func values(h *verifh.T, n, kind int) []verifh.F {
	v := make([]verifh.F, n)
	for i := range v {
		switch (kind + h.Rng.Intn(2)) % 4 {
		case 0:
			v[i] = new(big.Int).SetUint64(h.Rng.Uint64() >> 1)
		case 1:
			v[i] = verifh.I(0)
		case 2:
			v[i] = new(big.Int).SetUint64(1<<63 - 1 - uint64(h.Rng.Intn(2)))
		case 3:
			v[i] = new(big.Int).Lsh(big.NewInt(1), uint(h.Rng.Intn(63)))
		}
	}
	return v
}

func rangeComplete(h *verifh.T) {
	for _, n := range []int{2, 4, verifh.Pick(8, 16)} {
		p := h.NewRange(n)
		pp := knownRP(p)
		h.Ok(string(pp.Digest()) == string(p.Digest), "parameter digest covers the generators")
		for k := 0; k < verifh.Pick(3, 8); k++ {
			v, r := values(h, n, k), h.Edge()
			M, R := common.Vec(verifh.Zrs(v)), verifh.Zr(r)
			V := verifh.G1(verifh.Add(verifh.Mul(p.F, r), verifh.Dot(p.Gs, v)))
			before := rpDump(pp) + vdump(M) + verifh.S(R) + verifh.S(V)
			var rp *RangeProof
			pan := verifh.Panics(func() { rp = ProveRange(pp, V, M, R) })
			h.Ok(pan == nil, "ProveRange(%v): %v", v, pan)
			if pan != nil {
				continue
			}
			err := VerifyRange(pp, rp, V)
			h.Ok(err == nil, "range proof of %v with blinding %v: %v", v, r, err)
			pd := proofDump(rp)
			err = VerifyRange(pp, rp, V)
			h.Ok(err == nil && pd == proofDump(rp), "verified again: %v", err)
			h.Ok(before == rpDump(pp)+vdump(M)+verifh.S(R)+verifh.S(V), "proving or verifying changes its input")
			h.Ok(VerifyRange(pp, rp, verifh.G1(h.F())) != nil, "accepted for another commitment")
			h.Ok(VerifyRange(pp, rp, V) == nil, "verifies after a failed verification")
		}
	}
}

func rangeOutside(h *verifh.T) {
	n := 4
	p := h.NewRange(n)
	pp := knownRP(p)
	for k := 0; k < verifh.Pick(4, 12); k++ {
		v := values(h, n, k)
		i := h.Rng.Intn(n)
		switch k % 4 {
		case 0:
			v[i] = new(big.Int).Lsh(big.NewInt(1), 63)
		case 1:
			v[i] = verifh.I(-1)
		case 2:
			v[i] = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(int64(h.Rng.Intn(1000))))
		case 3:
			v[i] = h.F()
		}
		V := verifh.G1(verifh.Add(verifh.Mul(p.F, verifh.I(5)), verifh.Dot(p.Gs, v)))
		var rp *RangeProof
		var err error
		// the prover may refuse or produce a proof which does not verify
		pan := verifh.Panics(func() { rp = ProveRange(pp, V, verifh.Zrs(v), verifh.Zr(verifh.I(5))) })
		if pan == nil {
			err = VerifyRange(pp, rp, V)
		}
		h.Ok(pan != nil || err != nil, "range proof of out-of-range %v accepted", v)
	}
}

func rangeExact(h *verifh.T) {
	for _, n := range []int{2, 4, verifh.Pick(4, 16)} {
		p := h.NewRange(n)
		pp := knownRP(p)
		V := h.F()
		run := func(rp *RangeProof, V verifh.F) (err error, pan interface{}) {
			pan = verifh.Panics(func() { err = VerifyRange(pp, rp, verifh.G1(V)) })
			return
		}
		good := h.Forge(p, V, "")
		err, pan := run(mkRP(good), V)
		h.Ok(err == nil && pan == nil, "a proof satisfying every equation is rejected, n=%d: %v %v", n, err, pan)
		q := mkRP(good)
		q.Π.C, q.Π.P = verifh.Zr(h.F()), verifh.G1(h.F())
		err, pan = run(q, V)
		h.Ok(err == nil && pan == nil, "the verifier uses the prover's statement of the inner product, n=%d", n)
		flaws := []string{"start", "final", "poly", "ipa", "ipaP", "ipaC"}
		for k := 0; 1<<uint(k) < n; k++ {
			flaws = append(flaws, fmt.Sprintf("round %d", k))
		}
		for _, f := range flaws {
			r := h.Forge(p, V, f)
			q := mkRP(r)
			if f == "ipaP" || f == "ipaC" {
				// with the prover's own statement in the proof
				q.Π.C, q.Π.P = verifh.Zr(r.C), verifh.G1(h.F())
			}
			err, pan := run(q, V)
			h.Ok(pan == nil && err != nil, "a proof with a wrong %q is accepted (or panic %v), n=%d", f, pan, n)
		}
		mut := map[string]func(q *RangeProof){
			"W": func(q *RangeProof) { q.W = verifh.G1(h.F()) }, "Q": func(q *RangeProof) { q.Q = verifh.G1(h.F()) },
			"R": func(q *RangeProof) { q.R = verifh.G1(h.F()) }, "C1": func(q *RangeProof) { q.C1 = verifh.G1(h.F()) },
			"C2": func(q *RangeProof) { q.C2 = verifh.G1(h.F()) }, "γ": func(q *RangeProof) { q.γ = verifh.Zr(h.F()) },
			"ρ": func(q *RangeProof) { q.ρ = verifh.Zr(h.F()) }, "c": func(q *RangeProof) { q.c = verifh.Zr(h.F()) },
			"τ": func(q *RangeProof) { q.τ = verifh.Zr(h.F()) }, "u": func(q *RangeProof) { q.u = verifh.Zr(h.F()) },
			"fewer reduction rounds": func(q *RangeProof) { q.Δ = q.Δ[:len(q.Δ)-1] },
			"fewer rounds":           func(q *RangeProof) { q.Π.LRs = q.Π.LRs[:len(q.Π.LRs)-2] },
		}
		for name, f := range mut {
			q := mkRP(good)
			f(q)
			err, pan := run(q, V)
			h.Ok(pan == nil && err != nil, "a proof with another %s is accepted (or panic %v), n=%d", name, pan, n)
		}
	}
}

func TestVerif_C13_complete(t *testing.T)     { rangeComplete(verifh.New(t)) }
func TestVerif_C14_exact(t *testing.T)        { rangeExact(verifh.New(t)) }
func TestVerif_C14_out_of_range(t *testing.T) { rangeOutside(verifh.New(t)) }
func TestVerif_C17_range(t *testing.T)        { rangeExact(verifh.New(t)) }
func TestVerif_C22_range(t *testing.T)        { rangeComplete(verifh.New(t)) }

func TestVerif_C21_range_params(t *testing.T) {
	h := verifh.New(t)
	for _, n := range []int{2, 4} {
		p := NewRangeProofPublicParams(n)
		h.Ok(len(p.Gs) == n && len(p.Hs) == 64*n && len(p.Fs) == 64*n, "sizes")
		want := verifh.Sha(p.G.Bytes(), p.H.Bytes(), p.F.Bytes(), p.Gs.Bytes(), p.Hs.Bytes(), p.Fs.Bytes())
		h.Ok(string(p.Digest()) == string(want), "digest")
		seen := map[string]bool{}
		for _, g := range append(append(append(common.G1v{p.G, p.H, p.F}, p.Gs...), p.Hs...), p.Fs...) {
			h.Ok(!seen[verifh.S(g)], "distinct generators")
			seen[verifh.S(g)] = true
		}
		q := NewPublicParams(n)
		h.Ok(len(q.G) == n && len(q.H) == n && string(q.Digest) == string(verifh.BPDigest(q.U, q.G, q.H)), "inner-product parameters")
		q.U = q.U.Mul(verifh.Zr(h.F()))
		q.RecomputeDigest()
		h.Ok(string(q.Digest) == string(verifh.BPDigest(q.U, q.G, q.H)), "recomputed digest")
	}
}

var _ = math.Curves
