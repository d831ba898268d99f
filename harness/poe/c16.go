package poe

import (
	"fmt"
	"pol/bp"
	"pol/common"
	"pol/pp"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

func knownPP(α verifh.F, N int) *pp.PP {
	p := &pp.PP{N: N}
	for i := 1; i <= 2*N; i++ {
		k := verifh.Pow(α, int64(i))
		if i == N+1 {
			k = verifh.I(1)
		}
		p.G1s = append(p.G1s, verifh.G1(k))
		if i <= N {
			p.G2s = append(p.G2s, verifh.G2(k))
		}
	}
	p.Gt = verifh.Gt(verifh.Pow(α, int64(N+1)))
	p.SetupDigest()
	return p
}

func known(h *verifh.T, N, m int) (*PP, *verifh.Poe, verifh.F) {
	α := h.NZ()
	P := knownPP(α, N)
	r := h.NewPoe(α, N, m, P.Digest)
	return &PP{Digest: r.Digest, G: verifh.G1s(r.G), H: verifh.G1s(r.H), F: verifh.G1(r.F), PP: P}, r, α
}

func commitVal(α verifh.F, m []verifh.F) verifh.F {
	r := verifh.I(0)
	for j := range m {
		r = verifh.Add(r, verifh.Mul(m[j], verifh.Pow(α, int64(j+1))))
	}
	return r
}

func dump(p *PP) string {
	s := fmt.Sprintf("%x%x%d", p.Digest, p.PP.Digest, p.PP.N) + verifh.S(p.F) + verifh.S(p.PP.Gt) + verifh.S(c.GenG1) + verifh.S(c.GenG2) + verifh.S(c.GenGt) + verifh.S(GroupOrder)
	for _, v := range []common.G1v{p.G, p.H, p.PP.G1s} {
		for _, g := range v {
			s += verifh.S(g) + fmt.Sprintf("%p", g)
		}
	}
	for _, g := range p.PP.G2s {
		s += verifh.S(g) + fmt.Sprintf("%p", g)
	}
	return s
}

func zs(v []*math.Zr) string {
	s := ""
	for _, x := range v {
		s += verifh.S(x) + fmt.Sprintf("%p ", x)
	}
	return s
}

func eqDump(e *Equalities) string {
	return verifh.S(e.V) + verifh.S(e.W) + fmt.Sprint(e.I, e.J, len(e.V), len(e.W)) + dump(e.PP)
}

func pDump(p *AggregatedProof) string {
	a, b := bp.VerifAB(p.IPP)
	return verifh.S(p.c) + verifh.S(p.ρ) + verifh.S(p.U) + verifh.S(p.V) + verifh.S(p.Ω) + verifh.S(p.Waggr) + verifh.S(p.Vaggr) + verifh.S(common.G1v(p.IPP.LRs)) + verifh.S(a) + verifh.S(b) + verifh.S(p.IPP.P) + verifh.S(p.IPP.C)
}

func statement(h *verifh.T, p *PP, α verifh.F, N, m int) (*Equalities, []common.Vec, []common.Vec) {
	e := &Equalities{RO: RO, PP: p}
	var vs, ws []common.Vec
	for k := 0; k < m; k++ {
		v, w := h.Edges(N), h.Edges(N)
		i, j := h.Rng.Intn(N-1), h.Rng.Intn(N-1)
		switch h.Rng.Intn(5) {
		case 0:
			i, j = 0, N-2
		case 1:
			i, j = N-2, 0
		case 2:
			j = i
		}
		w[j] = v[i]
		vs, ws = append(vs, verifh.Zrs(v)), append(ws, verifh.Zrs(w))
		if k%2 == 1 {
			// another representative of the common value
			ws[k][j] = verifh.ZrOdd(v[i])
		}
		e.I, e.J = append(e.I, i), append(e.J, j)
		e.V, e.W = append(e.V, verifh.G1(commitVal(α, v))), append(e.W, verifh.G1(commitVal(α, w)))
	}
	return e, vs, ws
}

func many(h *verifh.T) {
	for _, m := range []int{2, 4, verifh.Pick(8, 64)} {
		for _, N := range []int{2, 3, verifh.Pick(5, 17)} {
			p, _, α := known(h, N, m)
			e, vs, ws := statement(h, p, α, N, m)
			before := eqDump(e)
			for k := range vs {
				before += zs(vs[k]) + zs(ws[k])
			}
			var π *AggregatedProof
			pan := verifh.Panics(func() { π = e.Prove(vs, ws) })
			h.Ok(pan == nil, "Prove of %d pairs, N=%d, I=%v J=%v: %v", m, N, e.I, e.J, pan)
			if pan != nil {
				continue
			}
			err := e.Verify(π)
			h.Ok(err == nil, "proof of %d pairs, N=%d, I=%v J=%v: %v", m, N, e.I, e.J, err)
			pd := pDump(π)
			err = e.Verify(π)
			h.Ok(err == nil && pd == pDump(π), "verified again: %v", err)
			after := eqDump(e)
			for k := range vs {
				after += zs(vs[k]) + zs(ws[k])
			}
			h.Ok(before == after, "proving or verifying changes its input")
			// unequal at one pair
			k := h.Rng.Intn(m)
			w := append(common.Vec{}, ws[k]...)
			w[e.J[k]] = verifh.Zr(verifh.Add(verifh.Val(vs[k][e.I[k]]), h.NZ()))
			e2 := *e
			e2.W = append(common.G1v{}, e.W...)
			e2.W[k] = verifh.G1(commitVal(α, verifh.Vals(w)))
			ws2 := append([]common.Vec{}, ws...)
			ws2[k] = w
			pan = verifh.Panics(func() { π = e2.Prove(vs, ws2) })
			h.Ok(pan != nil || e2.Verify(π) != nil, "proof for unequal values at pair %d of %d accepted", k, m)
		}
	}
	p := NewPublicParams(4, 2)
	e := &Equalities{RO: RO, PP: p, I: []int{0, 2}, J: []int{1, 2}}
	v := common.RandVec(4)
	w := common.Vec{common.RandVec(1)[0], v[0], v[2], common.RandVec(1)[0]}
	e.V = common.G1v{pp.Commit(p.PP, v), pp.Commit(p.PP, v)}
	e.W = common.G1v{pp.Commit(p.PP, w), pp.Commit(p.PP, w)}
	err := e.Verify(e.Prove([]common.Vec{v, v}, []common.Vec{w, w}))
	h.Ok(err == nil, "with fresh parameters: %v", err)
}

func mk(p *verifh.PoeP) *AggregatedProof {
	return &AggregatedProof{IPP: bp.VerifIPP(verifh.At(p.LRs, p.Base), verifh.Zr(p.A), verifh.Zr(p.B), nil, nil),
		c: verifh.Zr(p.C), ρ: verifh.Zr(p.Ρ), U: verifh.G1(p.U), V: verifh.G1(p.V), Ω: verifh.G1(p.Ω),
		Waggr: verifh.G1s(p.Waggr), Vaggr: verifh.G1s(p.Vaggr)}
}

func manyExact(h *verifh.T) {
	for _, m := range []int{2, 4, verifh.Pick(4, 16)} {
		N := 3 + h.Rng.Intn(4)
		p, r, _ := known(h, N, m)
		v, w := h.Fs(m), h.Fs(m)
		var I, J []int
		for k := 0; k < m; k++ {
			I, J = append(I, h.Rng.Intn(N)), append(J, h.Rng.Intn(N))
		}
		E := func() *Equalities {
			return &Equalities{RO: RO, PP: p, V: verifh.G1s(v), W: verifh.G1s(w), I: append([]int{}, I...), J: append([]int{}, J...)}
		}
		run := func(e *Equalities, q *AggregatedProof) (err error, pan interface{}) {
			pan = verifh.Panics(func() { err = e.Verify(q) })
			return
		}
		good := h.ForgePoe(r, v, w, I, J, "")
		err, pan := run(E(), mk(good))
		h.Ok(err == nil && pan == nil, "a proof satisfying the equations is rejected, %d pairs: %v %v", m, err, pan)
		q := mk(good)
		q.IPP.C, q.IPP.P = verifh.Zr(h.F()), verifh.G1(h.F())
		err, pan = run(E(), q)
		h.Ok(err == nil && pan == nil, "the verifier uses the prover's statement, %d pairs: %v %v", m, err, pan)
		for _, f := range []string{"pairing", "P", "c", "a"} {
			b := h.ForgePoe(r, v, w, I, J, f)
			q := mk(b)
			err, pan = run(E(), q)
			h.Ok(err != nil && pan == nil, "proof with wrong %s accepted (or panic %v), %d pairs", f, pan, m)
			if f == "P" || f == "c" {
				q = mk(b)
				q.IPP.C, q.IPP.P = verifh.Zr(b.C), verifh.G1(h.F())
				err, pan = run(E(), q)
				h.Ok(err != nil && pan == nil, "proof with wrong %s accepted", f)
			}
		}
		for name, f := range map[string]func(e *Equalities, q *AggregatedProof){
			"U":            func(e *Equalities, q *AggregatedProof) { q.U = verifh.G1(h.F()) },
			"V":            func(e *Equalities, q *AggregatedProof) { q.V = verifh.G1(h.F()) },
			"Ω":            func(e *Equalities, q *AggregatedProof) { q.Ω = verifh.G1(h.F()) },
			"c":            func(e *Equalities, q *AggregatedProof) { q.c = verifh.Zr(h.F()) },
			"ρ":            func(e *Equalities, q *AggregatedProof) { q.ρ = verifh.Zr(h.F()) },
			"fewer rounds": func(e *Equalities, q *AggregatedProof) { q.IPP.LRs = q.IPP.LRs[:len(q.IPP.LRs)-2] },
			"more Vaggr":   func(e *Equalities, q *AggregatedProof) { q.Vaggr = append(q.Vaggr, verifh.G1(h.F())) },
			"fewer Vaggr":  func(e *Equalities, q *AggregatedProof) { q.Vaggr = q.Vaggr[:m-1] },
			"fewer Waggr":  func(e *Equalities, q *AggregatedProof) { q.Waggr = q.Waggr[:m-1] },
			"more Waggr":   func(e *Equalities, q *AggregatedProof) { q.Waggr = append(q.Waggr, verifh.G1(h.F())) },
			"moved between Vaggr and Waggr": func(e *Equalities, q *AggregatedProof) {
				q.Waggr = append(common.G1v{q.Vaggr[m-1]}, q.Waggr...)
				q.Vaggr = q.Vaggr[:m-1]
			},
		} {
			e, q := E(), mk(good)
			f(e, q)
			err, pan = run(e, q)
			h.Ok(err != nil && pan == nil, "proof with another %s accepted (or panic %v), %d pairs", name, pan, m)
		}
		for k := 0; k < m; k++ {
			for name, f := range map[string]func(e *Equalities, q *AggregatedProof){
				"commitment V": func(e *Equalities, q *AggregatedProof) { e.V[k] = verifh.G1(h.F()) },
				"commitment W": func(e *Equalities, q *AggregatedProof) { e.W[k] = verifh.G1(h.F()) },
				"index I":      func(e *Equalities, q *AggregatedProof) { e.I[k] = (e.I[k] + 1) % N },
				"index J":      func(e *Equalities, q *AggregatedProof) { e.J[k] = (e.J[k] + 1) % N },
				"Vaggr":        func(e *Equalities, q *AggregatedProof) { q.Vaggr[k] = verifh.G1(h.F()) },
				"Waggr":        func(e *Equalities, q *AggregatedProof) { q.Waggr[k] = verifh.G1(h.F()) },
			} {
				e, q := E(), mk(good)
				f(e, q)
				err, pan = run(e, q)
				h.Ok(err != nil && pan == nil, "proof with another %s at %d accepted (or panic %v), %d pairs", name, k, pan, m)
			}
		}
		// a proof for fewer pairs
		if m > 2 {
			e := E()
			e.V, e.W, e.I, e.J = e.V[:m/2], e.W[:m/2], e.I[:m/2], e.J[:m/2]
			err, pan = run(e, mk(good))
			h.Ok(err != nil && pan == nil, "proof made for %d pairs accepted for %d (or panic %v)", m, m/2, pan)
		}
	}
}

func one(h *verifh.T) {
	for k := 0; k < verifh.Pick(8, 40); k++ {
		N := 2 + h.Rng.Intn(6)
		p, _, α := known(h, N, 2)
		st, vs, ws := statement(h, p, α, N, 1)
		e := &Equality{RO: RO, PP: p, V: st.V[0], W: st.W[0], I: st.I[0], J: st.J[0]}
		before := verifh.S(e.V) + verifh.S(e.W) + dump(p) + zs(vs[0]) + zs(ws[0])
		var π *Proof
		pan := verifh.Panics(func() { π = e.Prove(vs[0], ws[0]) })
		h.Ok(pan == nil, "Prove I=%d J=%d N=%d: %v", e.I, e.J, N, pan)
		if pan != nil {
			continue
		}
		pd := verifh.S(π.C) + verifh.S(π.V) + verifh.S(π.W) + verifh.S(π.Ω)
		err := e.Verify(π)
		h.Ok(err == nil, "proof for I=%d J=%d N=%d: %v", e.I, e.J, N, err)
		err = e.Verify(π)
		h.Ok(err == nil && pd == verifh.S(π.C)+verifh.S(π.V)+verifh.S(π.W)+verifh.S(π.Ω), "verified again, proof unchanged: %v", err)
		h.Ok(before == verifh.S(e.V)+verifh.S(e.W)+dump(p)+zs(vs[0])+zs(ws[0]), "proving or verifying changes its input")
		w := append(common.Vec{}, ws[0]...)
		w[e.J] = verifh.Zr(h.F())
		e2 := *e
		e2.W = verifh.G1(commitVal(α, verifh.Vals(w)))
		pan = verifh.Panics(func() { π = e2.Prove(vs[0], w) })
		h.Ok(pan != nil || e2.Verify(π) != nil, "proof of unequal values accepted")
	}
}

func oneExact(h *verifh.T) {
	for k := 0; k < verifh.Pick(5, 30); k++ {
		N := 2 + h.Rng.Intn(6)
		p, r, _ := known(h, N, 2)
		V, W, I, J := h.F(), h.F(), h.Rng.Intn(N), h.Rng.Intn(N)
		e := &Equality{RO: RO, PP: p, V: verifh.G1(V), W: verifh.G1(W), I: I, J: J}
		mk := func(o *verifh.OneP) *Proof {
			return &Proof{C: verifh.Zr(o.C), V: verifh.G1(o.V), W: verifh.G1(o.W), Ω: verifh.G1(o.Ω)}
		}
		good := h.ForgeOne(r, V, W, I, J, false)
		err := e.Verify(mk(good))
		h.Ok(err == nil, "a proof satisfying the equation is rejected: %v", err)
		h.Ok(e.Verify(mk(h.ForgeOne(r, V, W, I, J, true))) != nil, "a proof not satisfying the equation is accepted")
		for name, f := range map[string]func(e *Equality, q *Proof){
			"C": func(e *Equality, q *Proof) { q.C = verifh.Zr(h.F()) }, "V": func(e *Equality, q *Proof) { q.V = verifh.G1(h.F()) },
			"W": func(e *Equality, q *Proof) { q.W = verifh.G1(h.F()) }, "Ω": func(e *Equality, q *Proof) { q.Ω = verifh.G1(h.F()) },
			"commitment V": func(e *Equality, q *Proof) { e.V = verifh.G1(h.F()) }, "commitment W": func(e *Equality, q *Proof) { e.W = verifh.G1(h.F()) },
			"I": func(e *Equality, q *Proof) { e.I = (I + 1) % N }, "J": func(e *Equality, q *Proof) { e.J = (J + 1) % N },
		} {
			e2, q := *e, mk(good)
			f(&e2, q)
			h.Ok(e2.Verify(q) != nil, "proof with another %s accepted", name)
		}
	}
}

func TestVerif_C16_many(t *testing.T)       { many(verifh.New(t)) }
func TestVerif_C16_many_exact(t *testing.T) { manyExact(verifh.New(t)) }
func TestVerif_C16_one(t *testing.T)        { one(verifh.New(t)) }
func TestVerif_C16_one_exact(t *testing.T)  { oneExact(verifh.New(t)) }
func TestVerif_C17_equalities(t *testing.T) { manyExact(verifh.New(t)) }
func TestVerif_C17_equality(t *testing.T)   { oneExact(verifh.New(t)) }
func TestVerif_C22_equalities(t *testing.T) { many(verifh.New(t)) }
func TestVerif_C22_equality(t *testing.T)   { one(verifh.New(t)) }
func TestVerif_C17_oracle(t *testing.T) {
	h := verifh.New(t)
	gs := verifh.G1s(h.Fs(3))
	dg := verifh.Sha([]byte("x"))
	seen := map[string]string{}
	put := func(what string, gs common.G1v, ints []int, dg []byte, n int) {
		got := RO(gs, ints, dg, n)
		want := verifh.RO(gs, ints, dg, n)
		h.Ok(len(got) == n, "%s: number of scalars", what)
		for i := range got {
			h.Ok(verifh.Eq(verifh.Val(got[i]), want[i]), "%s: scalar %d", what, i)
			k := verifh.S(got[i])
			h.Ok(seen[k] == "", "%s: scalar %d also is %s", what, i, seen[k])
			seen[k] = fmt.Sprint(what, " ", i)
		}
	}
	put("base", gs, []int{1, 2}, dg, 300)
	put("other element", common.G1v{gs[0], gs[1], verifh.G1(h.F())}, []int{1, 2}, dg, 5)
	put("order of elements", common.G1v{gs[1], gs[0], gs[2]}, []int{1, 2}, dg, 5)
	put("other integers", gs, []int{1, 3}, dg, 5)
	put("order of integers", gs, []int{2, 1}, dg, 5)
	put("large integers", gs, []int{257, 2}, dg, 5)
	put("no integers", gs, nil, dg, 5)
	put("other parameters", gs, []int{1, 2}, verifh.Sha(dg), 5)
}

func TestVerif_C21_equality_params(t *testing.T) {
	h := verifh.New(t)
	for _, m := range []int{2, 4} {
		p := NewPublicParams(3, m)
		h.Ok(len(p.G) == m && len(p.H) == m && p.PP.N == 3, "sizes")
		h.Ok(string(p.Digest) == string(verifh.Sha(p.G.Bytes(), p.H.Bytes(), p.F.Bytes(), p.PP.Digest)), "digest")
	}
}
