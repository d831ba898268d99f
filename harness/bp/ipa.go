package bp

import (
	"fmt"
	"pol/common"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

func knownBP(G, H []verifh.F, U *math.G1) *PP {
	p := &PP{G: verifh.G1s(G), H: verifh.G1s(H), U: U}
	p.Digest = verifh.BPDigest(U, p.G, p.H)
	return p
}

func ppDump(p *PP) string {
	s := fmt.Sprintf("%x", p.Digest) + verifh.S(p.U) + verifh.S(p.G) + verifh.S(p.H) + verifh.S(common.GroupOrder)
	for _, g := range p.G {
		s += fmt.Sprintf("%p", g)
	}
	return s
}

func vdump(v []*math.Zr) string {
	s := ""
	for _, x := range v {
		s += verifh.S(x) + fmt.Sprintf("%p ", x)
	}
	return s
}

func cp(gs []*math.G1) []*math.G1 {
	r := make([]*math.G1, len(gs))
	for i := range gs {
		r[i] = gs[i].Copy()
	}
	return r
}

func ipaSizes() []int {
	if verifh.Thorough() {
		return []int{1, 2, 4, 8, 16, 32, 64}
	}
	return []int{1, 2, 4, 8, 16}
}

func ipaComplete(h *verifh.T) {
	for _, n := range ipaSizes() {
		for k := 0; k < 3; k++ {
			G, H := h.NZs(n), h.NZs(n)
			u := h.NZ()
			p := knownBP(G, H, verifh.G1(u))
			a, b := h.Fs(n), h.Fs(n)
			if k == 1 {
				a, b = h.Edges(n), h.Edges(n)
			}
			A, B := common.Vec(verifh.Zrs(a)), common.Vec(verifh.Zrs(b))
			d := ppDump(p) + vdump(A) + vdump(B)
			arg := NewInnerProdArgument(p, A, B)
			P, c := verifh.Add(verifh.Dot(G, a), verifh.Dot(H, b)), verifh.Dot(a, b)
			h.Ok(arg.P.Equals(verifh.G1(P)) && verifh.Eq(verifh.Val(arg.C), c), "statement of n=%d a=%v b=%v", n, a, b)
			π := arg.Prove()
			h.Ok(π.P.Equals(verifh.G1(P)) && verifh.Eq(verifh.Val(π.C), c), "statement in the proof, n=%d", n)
			h.Ok(π.Verify(p) == nil, "honest argument n=%d a=%v b=%v", n, a, b)
			pd := fmt.Sprintf("%x%x%x%x%x", common.G1v(π.LRs).Bytes(), π.a.Bytes(), π.b.Bytes(), π.P.Bytes(), π.C.Bytes())
			h.Ok(π.Verify(p) == nil, "verified again")
			h.Ok(pd == fmt.Sprintf("%x%x%x%x%x", common.G1v(π.LRs).Bytes(), π.a.Bytes(), π.b.Bytes(), π.P.Bytes(), π.C.Bytes()), "verifying changes the proof")
			h.Ok(d == ppDump(p)+vdump(A)+vdump(B), "proving or verifying changes its input, n=%d", n)
			// the messages are those of the specified prover
			ref := &verifh.IPA{G: G, H: H, U: verifh.K(u)}
			LRs, ra, rb := ref.Prove(verifh.K(P), c, a, b)
			ok := len(LRs) == len(π.LRs) && verifh.Eq(verifh.Val(π.a), ra) && verifh.Eq(verifh.Val(π.b), rb)
			for i := range LRs {
				ok = ok && LRs[i].At(nil).Equals(π.LRs[i])
			}
			h.Ok(ok, "messages for n=%d a=%v b=%v", n, a, b)
		}
	}
	// fresh public parameters
	p := NewPublicParams(8)
	a, b := common.RandVec(8), common.RandVec(8)
	h.Ok(NewInnerProdArgument(p, a, b).Prove().Verify(p) == nil, "with fresh parameters")
}

func ipaExact(h *verifh.T) {
	for _, n := range ipaSizes() {
		G, H := h.NZs(n), h.NZs(n)
		u := h.NZ()
		p := knownBP(G, H, verifh.G1(u))
		ref := &verifh.IPA{G: G, H: H, U: verifh.K(u)}
		var a, b []verifh.F
		P, c := h.F(), h.F()
		if n > 1 {
			a, b = h.Solve(G, H, P, c)
		} else {
			a, b = h.Fs(1), h.Fs(1)
			P, c = verifh.Add(verifh.Dot(G, a), verifh.Dot(H, b)), verifh.Dot(a, b)
		}
		LRs, fa, fb := ref.Prove(verifh.K(P), c, a, b)
		mk := func() *InnerProductProof {
			return &InnerProductProof{LRs: verifh.At(LRs, nil), a: verifh.Zr(fa), b: verifh.Zr(fb), P: verifh.G1(P), C: verifh.Zr(c)}
		}
		h.Ok(mk().Verify(p) == nil, "a proof satisfying the equation is rejected, n=%d", n)
		bad := func(what string, f func(q *InnerProductProof, p *PP)) {
			q := mk()
			p2 := *p
			f(q, &p2)
			var err error
			pan := verifh.Panics(func() { err = q.Verify(&p2) })
			h.Ok(pan == nil && err != nil, "%s accepted (or panic %v), n=%d", what, pan, n)
		}
		bad("other a", func(q *InnerProductProof, _ *PP) { q.a = verifh.Zr(verifh.Add(fa, h.NZ())) })
		bad("other b", func(q *InnerProductProof, _ *PP) { q.b = verifh.Zr(verifh.Add(fb, h.NZ())) })
		bad("other c", func(q *InnerProductProof, _ *PP) { q.C = verifh.Zr(verifh.Add(c, h.NZ())) })
		bad("other P", func(q *InnerProductProof, _ *PP) { q.P = verifh.G1(verifh.Add(P, h.NZ())) })
		bad("a and b swapped", func(q *InnerProductProof, _ *PP) { q.a, q.b = q.b, q.a })
		for i := 0; i < n; i++ {
			i := i
			bad("other generator g", func(q *InnerProductProof, p *PP) {
				p.G = cp(p.G)
				p.G[i] = verifh.G1(h.NZ())
			})
			bad("other generator h", func(q *InnerProductProof, p *PP) {
				p.H = cp(p.H)
				p.H[i] = verifh.G1(h.NZ())
			})
		}
		if n > 1 {
			bad("other u", func(q *InnerProductProof, p *PP) { p.U = verifh.G1(h.NZ()) })
		}
		for i := range LRs {
			i := i
			bad("other message", func(q *InnerProductProof, _ *PP) { q.LRs[i] = verifh.G1(h.F()) })
		}
		if n > 1 {
			bad("fewer rounds", func(q *InnerProductProof, _ *PP) { q.LRs = q.LRs[:len(q.LRs)-2] })
			// a statement whose vectors are zero but for the first element satisfies the final equation after any number of rounds
			sa, sb := make([]verifh.F, n), make([]verifh.F, n)
			for i := range sa {
				sa[i], sb[i] = verifh.I(0), verifh.I(0)
			}
			sa[0], sb[0] = h.NZ(), h.NZ()
			sP, sc := verifh.Add(verifh.Mul(G[0], sa[0]), verifh.Mul(H[0], sb[0])), verifh.Mul(sa[0], sb[0])
			sLR, as, bs := ref.ProveSteps(verifh.K(sP), sc, sa, sb)
			for j := range as {
				q := &InnerProductProof{LRs: verifh.At(sLR[:2*j], nil), a: verifh.Zr(as[j]), b: verifh.Zr(bs[j]), P: verifh.G1(sP), C: verifh.Zr(sc)}
				var err error
				pan := verifh.Panics(func() { err = q.Verify(p) })
				h.Ok(pan == nil && (err == nil) == (j == len(as)-1), "%d of %d rounds with the final equation satisfied: %v %v", j, len(as)-1, err, pan)
			}
			bad("odd number of messages", func(q *InnerProductProof, _ *PP) { q.LRs = q.LRs[:len(q.LRs)-1] })
			bad("no rounds", func(q *InnerProductProof, _ *PP) { q.LRs = nil })
			bad("swapped messages", func(q *InnerProductProof, _ *PP) { q.LRs[0], q.LRs[1] = q.LRs[1], q.LRs[0] })
			// a statement moved to where the challenges of another statement would take it
			U, P2, _ := ref.Start(verifh.K(P), c)
			_ = U
			d := h.NZ()
			bad("c moved against P with the old challenge", func(q *InnerProductProof, _ *PP) {
				// x such that P2 = P + u x c; keep P2 - u x c' with c' = c + d
				x := verifh.Mul(verifh.Sub(P2.K, P), verifh.Inv(verifh.Mul(u, c)))
				q.C = verifh.Zr(verifh.Add(c, d))
				q.P = verifh.G1(verifh.Sub(P2.K, verifh.Mul(u, x, verifh.Add(c, d))))
			})
		}
	}
}

func TestVerif_C11_complete(t *testing.T)      { ipaComplete(verifh.New(t)) }
func TestVerif_C11_exact(t *testing.T)         { ipaExact(verifh.New(t)) }
func TestVerif_C22_inner_product(t *testing.T) { ipaComplete(verifh.New(t)) }

// transcripts against the reference: the messages of the prover and the decisions of the verifier
// determine the challenges
func TestVerif_C17_inner_product(t *testing.T) {
	h := verifh.New(t)
	ipaComplete(h)
	ipaExact(h)
}

func irComplete(h *verifh.T) {
	for _, n := range []int{2, 4, 8, 16, verifh.Pick(32, 128)} {
		for k := 0; k < 3; k++ {
			G := h.NZs(n)
			p := knownBP(G, nil, verifh.G1(h.NZ()))
			v := h.Fs(n)
			if k == 1 {
				v = h.Edges(n)
			}
			M := common.Vec(verifh.Zrs(v))
			V := verifh.G1(verifh.Dot(G, v))
			before := ppDump(p) + vdump(M) + verifh.S(V)
			Δ, xs, u := IterativeReduce(p, M, V)
			h.Ok(before == ppDump(p)+vdump(M)+verifh.S(V), "the reduction changes its input, n=%d", n)
			xs2, u2, err := IterativeVerify(p, V, Δ, u)
			h.Ok(err == nil, "honest reduction n=%d v=%v: %v", n, v, err)
			if err != nil {
				continue
			}
			ok := len(xs) == len(xs2) && verifh.Eq(verifh.Val(u), verifh.Val(u2))
			for i := range xs2 {
				ok = ok && verifh.Eq(verifh.Val(xs[i]), verifh.Val(xs2[i]))
			}
			h.Ok(ok, "same challenges, n=%d", n)
			w := verifh.BitProducts(n, verifh.Vals(xs))
			h.Ok(verifh.Eq(verifh.Val(u), verifh.Dot(w, v)), "final scalar n=%d v=%v", n, v)
			_, _, err = IterativeVerify(p, V, Δ, u)
			h.Ok(err == nil && before == ppDump(p)+vdump(M)+verifh.S(V), "verified again, nothing changed")
		}
	}
}

func irExact(h *verifh.T) {
	for _, n := range []int{2, 4, 8, verifh.Pick(16, 64)} {
		G := h.NZs(n)
		p := knownBP(G, nil, verifh.G1(h.NZ()))
		V := h.F()
		D, xs, u := h.IRForge(G, V, p.Digest, nil)
		run := func(V verifh.F, D [][3]verifh.F, u verifh.F) (xs common.Vec, err error, pan interface{}) {
			pan = verifh.Panics(func() { xs, _, err = IterativeVerify(p, verifh.G1(V), verifh.D3(D), verifh.Zr(u)) })
			return
		}
		got, err, pan := run(V, D, u)
		h.Ok(pan == nil && err == nil, "a reduction satisfying the equations is rejected, n=%d: %v %v", n, err, pan)
		for i := range got {
			h.Ok(len(got) == len(xs) && verifh.Eq(verifh.Val(got[i]), xs[i]), "challenge %d of n=%d", i, n)
		}
		bad := func(what string, V verifh.F, D [][3]verifh.F, u verifh.F) {
			_, err, pan := run(V, D, u)
			h.Ok(pan == nil && err != nil, "%s accepted (or panic %v), n=%d", what, pan, n)
		}
		bad("other final scalar", V, D, verifh.Add(u, h.NZ()))
		bad("other commitment", verifh.Add(V, h.NZ()), D, u)
		folded, last := G, V
		for k := range D {
			bad(fmt.Sprintf("only %d rounds", k), V, D[:k], u)
			// with the final equation satisfied for the generators folded so far
			bad(fmt.Sprintf("only %d rounds and a fitting scalar", k), V, D[:k], verifh.Mul(last, verifh.Inv(folded[0])))
			m := len(folded) / 2
			next := make([]verifh.F, m)
			for i := range next {
				next[i] = verifh.Add(folded[i], verifh.Mul(folded[m+i], verifh.Inv(xs[k])))
			}
			folded, last = next, D[k][2]
			D2, _, u2 := h.IRForge(G, V, p.Digest, map[int]verifh.F{k: h.NZ()})
			bad(fmt.Sprintf("wrong commitment in round %d", k), V, D2, u2)
			for j := 0; j < 3; j++ {
				D3 := append([][3]verifh.F{}, D...)
				D3[k][j] = h.F()
				bad(fmt.Sprintf("other message %d in round %d", j, k), V, D3, u)
			}
		}
	}
	for _, n := range []int{1, 3, 6} {
		p := knownBP(h.NZs(n), nil, verifh.G1(h.NZ()))
		h.Ok(verifh.Panics(func() { IterativeVerify(p, p.G[0], nil, verifh.Zr(h.F())) }) != nil, "length %d refused", n)
	}
}

func TestVerif_C12_complete(t *testing.T)  { irComplete(verifh.New(t)) }
func TestVerif_C12_exact(t *testing.T)     { irExact(verifh.New(t)) }
func TestVerif_C22_reduction(t *testing.T) { irComplete(verifh.New(t)) }
func TestVerif_C17_reduction(t *testing.T) { irExact(verifh.New(t)) }
