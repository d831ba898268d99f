package sum

import (
	"fmt"
	"pol/bp"
	"pol/common"
	"pol/verifh"
	"testing"

	math "github.com/IBM/mathlib"
)

func known(s *verifh.SumA) *PP {
	return &PP{U: verifh.G1(s.U), Gs: verifh.G1s(s.Gs), G: verifh.G1(s.G), F: verifh.G1(s.F), H: verifh.G1s(s.H), b: verifh.Zrs(s.Bv), B: verifh.G1(s.B)}
}

func mk(p *verifh.SumP) *Proof {
	return &Proof{W: verifh.G1(p.W), c: verifh.Zr(p.C), ρ: verifh.Zr(p.Ρ), π: bp.VerifIPP(verifh.At(p.LRs, nil), verifh.Zr(p.A), verifh.Zr(p.B), nil, nil)}
}

func dump(p *PP) string {
	s := verifh.S(p.U) + verifh.S(p.G) + verifh.S(p.F) + verifh.S(p.B) + verifh.S(GroupOrder)
	for _, v := range []common.G1v{p.Gs, p.H} {
		for _, g := range v {
			s += verifh.S(g) + fmt.Sprintf("%p", g)
		}
	}
	return s + zs(p.b) + fmt.Sprintf("%x", p.Digest)
}

func zs(v []*math.Zr) string {
	s := ""
	for _, x := range v {
		s += verifh.S(x) + fmt.Sprintf("%p ", x)
	}
	return s
}

func pdump(p *Proof) string {
	a, b := bp.VerifAB(p.π)
	return verifh.S(p.W) + verifh.S(p.c) + verifh.S(p.ρ) + verifh.S(common.G1v(p.π.LRs)) + verifh.S(a) + verifh.S(b) + verifh.S(p.π.C) + verifh.S(p.π.P)
}

func vec(h *verifh.T, n, k int) []verifh.F {
	var v []verifh.F
	if k%2 == 0 {
		v = h.Fs(n)
	} else {
		v = h.Edges(n)
	}
	v[n-1] = verifh.Add(v[:n-1]...)
	return v
}

func complete(h *verifh.T) {
	for _, n := range []int{2, 4, 8, verifh.Pick(16, 64)} {
		for k := 0; k < 3; k++ {
			s := h.NewSum(n)
			p := known(s)
			if k == 2 {
				p = NewPublicParams(n)
			}
			v, r := vec(h, n, k), h.Edge()
			M, R := common.Vec(verifh.Zrs(v)), verifh.Zr(r)
			if k == 1 {
				for i := range M {
					M[i] = verifh.ZrOdd(v[i])
				}
			}
			before := dump(p) + zs(M) + verifh.S(R)
			var arg *Argument
			pan := verifh.Panics(func() { arg = NewCommitment(p, M, R) })
			h.Ok(pan == nil, "NewCommitment of %v: %v", v, pan)
			if pan != nil {
				continue
			}
			if k < 2 {
				h.Ok(arg.V.Equals(verifh.G1(verifh.Add(verifh.Mul(s.F, r), verifh.Dot(s.Gs, v)))), "commitment of %v", v)
			}
			V := arg.V.Copy()
			a2, π := NewArgument(p, arg.V, M, R)
			err := π.Verify(p, a2)
			h.Ok(err == nil, "sum argument of %v: %v", v, err)
			err = π.Verify(p, &Argument{V: V})
			h.Ok(err == nil && arg.V.Equals(V), "sum argument verified again: %v", err)
			pd := pdump(π)
			h.Ok(π.Verify(p, a2) == nil && pd == pdump(π), "verifying changes the proof")
			h.Ok(before == dump(p)+zs(M)+verifh.S(R), "proving or verifying changes its input")
			h.Ok(π.Verify(p, &Argument{V: verifh.G1(h.F())}) != nil, "accepted for another commitment")

			bad := append([]verifh.F{}, v...)
			i := h.Rng.Intn(n)
			bad[i] = verifh.Add(bad[i], h.NZ())
			h.Ok(verifh.Panics(func() { NewCommitment(p, verifh.Zrs(bad), R) }) != nil, "vector with a wrong sum refused")
		}
		// aggregated
		for _, m := range []int{1, 2, 3, verifh.Pick(5, 20)} {
			s := h.NewSum(n)
			p := known(s)
			var vs []common.Vec
			var rs common.Vec
			var Vs common.G1v
			for j := 0; j < m; j++ {
				v, r := vec(h, n, j), h.Edge()
				vs, rs = append(vs, verifh.Zrs(v)), append(rs, verifh.Zr(r))
				Vs = append(Vs, verifh.G1(verifh.Add(verifh.Mul(s.F, r), verifh.Dot(s.Gs, v))))
			}
			before := dump(p) + zs(rs) + verifh.S(Vs)
			for _, v := range vs {
				before += zs(v)
			}
			π := NewAggregatedArgument(p, Vs, vs, rs)
			err := π.VerifyAggregated(p, Vs)
			h.Ok(err == nil, "aggregated sum argument of %d vectors of length %d: %v", m, n, err)
			err = π.VerifyAggregated(p, Vs)
			after := dump(p) + zs(rs) + verifh.S(Vs)
			for _, v := range vs {
				after += zs(v)
			}
			h.Ok(err == nil && before == after, "verified again, inputs unchanged: %v", err)
			for j := range Vs {
				o := append(common.G1v{}, Vs...)
				o[j] = verifh.G1(h.F())
				h.Ok(π.VerifyAggregated(p, o) != nil, "accepted for another commitment %d of %d", j, m)
			}
			// one vector with a wrong sum
			j := h.Rng.Intn(m)
			v := append(common.Vec{}, vs[j]...)
			v[h.Rng.Intn(n)] = verifh.Zr(h.F())
			vs2 := append([]common.Vec{}, vs...)
			vs2[j] = v
			o := append(common.G1v{}, Vs...)
			o[j] = verifh.G1(verifh.Add(verifh.Mul(s.F, verifh.Val(rs[j])), verifh.Dot(s.Gs, verifh.Vals(v))))
			pan := verifh.Panics(func() { π = NewAggregatedArgument(p, o, vs2, rs) })
			h.Ok(pan != nil || π.VerifyAggregated(p, o) != nil, "aggregated argument with a wrong sum at %d of %d accepted", j, m)
		}
		// two vectors whose errors cancel with equal weights
		s := h.NewSum(n)
		p := known(s)
		d := h.NZ()
		v1, v2 := vec(h, n, 0), vec(h, n, 0)
		v1[0], v2[0] = verifh.Add(v1[0], d), verifh.Sub(v2[0], d)
		r := h.Fs(2)
		Vs := common.G1v{verifh.G1(verifh.Add(verifh.Mul(s.F, r[0]), verifh.Dot(s.Gs, v1))), verifh.G1(verifh.Add(verifh.Mul(s.F, r[1]), verifh.Dot(s.Gs, v2)))}
		var π *Proof
		pan := verifh.Panics(func() { π = NewAggregatedArgument(p, Vs, []common.Vec{verifh.Zrs(v1), verifh.Zrs(v2)}, verifh.Zrs(r)) })
		h.Ok(pan != nil || π.VerifyAggregated(p, Vs) != nil, "aggregated argument whose errors cancel accepted")
	}
}

func exact(h *verifh.T) {
	for _, n := range []int{2, 4, verifh.Pick(8, 32)} {
		s := h.NewSum(n)
		p := known(s)
		V := h.F()
		run := func(q *Proof, V verifh.F) (err error, pan interface{}) {
			pan = verifh.Panics(func() { err = q.Verify(p, &Argument{V: verifh.G1(V)}) })
			return
		}
		good := h.ForgeSum(s, V, "")
		err, pan := run(mk(good), V)
		h.Ok(err == nil && pan == nil, "an argument satisfying the equation is rejected, n=%d: %v %v", n, err, pan)
		q := mk(good)
		q.π.C, q.π.P = verifh.Zr(h.F()), verifh.G1(h.F())
		err, pan = run(q, V)
		h.Ok(err == nil && pan == nil, "the verifier uses the prover's statement, n=%d: %v %v", n, err, pan)
		for _, f := range []string{"P", "c", "a"} {
			b := h.ForgeSum(s, V, f)
			q := mk(b)
			q.π.C, q.π.P = verifh.Zr(b.C), verifh.G1(h.F())
			err, pan = run(q, V)
			h.Ok(err != nil && pan == nil, "argument with wrong %s accepted (or panic %v), n=%d", f, pan, n)
		}
		for name, f := range map[string]func(q *Proof){
			"W": func(q *Proof) { q.W = verifh.G1(h.F()) }, "c": func(q *Proof) { q.c = verifh.Zr(h.F()) },
			"ρ":            func(q *Proof) { q.ρ = verifh.Zr(h.F()) },
			"fewer rounds": func(q *Proof) { q.π.LRs = q.π.LRs[:len(q.π.LRs)-2] },
		} {
			q := mk(good)
			f(q)
			err, pan = run(q, V)
			h.Ok(err != nil && pan == nil, "argument with another %s accepted (or panic %v), n=%d", name, pan, n)
		}
		err, pan = run(mk(good), verifh.Add(V, h.NZ()))
		h.Ok(err != nil && pan == nil, "argument for another commitment accepted")
		// other fixed coefficients
		p2 := *p
		p2.B = verifh.G1(verifh.Add(s.B, h.NZ()))
		h.Ok(mk(good).Verify(&p2, &Argument{V: verifh.G1(V)}) != nil, "argument for other coefficients accepted")
		// aggregated
		for _, m := range []int{1, 2, 5} {
			vs := h.Fs(m)
			Vs := common.G1v(verifh.G1s(vs))
			VA := verifh.Dot(vs, verifh.SumPowers(Vs))
			q := mk(h.ForgeSum(s, VA, ""))
			h.Ok(q.VerifyAggregated(p, Vs) == nil, "an aggregated argument satisfying the equation is rejected, %d commitments", m)
			q = mk(h.ForgeSum(s, verifh.Add(VA, h.NZ()), ""))
			h.Ok(q.VerifyAggregated(p, Vs) != nil, "an argument for another aggregate accepted")
			if m > 1 {
				q = mk(h.ForgeSum(s, verifh.Add(vs...), ""))
				h.Ok(q.VerifyAggregated(p, Vs) != nil, "an argument for the plain sum accepted")
			}
		}
	}
}

func TestVerif_C15_complete(t *testing.T) { complete(verifh.New(t)) }
func TestVerif_C15_exact(t *testing.T)    { exact(verifh.New(t)) }
func TestVerif_C17_sum(t *testing.T)      { exact(verifh.New(t)) }
func TestVerif_C22_sum(t *testing.T)      { complete(verifh.New(t)) }

func TestVerif_C21_sum_params(t *testing.T) {
	h := verifh.New(t)
	for _, n := range []int{2, 3, 8} {
		p := NewPublicParams(n)
		h.Ok(len(p.Gs) == n && len(p.H) == n && len(p.b) == n, "sizes")
		b := p.H[0].Copy()
		for i := 1; i < n-1; i++ {
			b.Add(p.H[i])
		}
		b.Sub(p.H[n-1])
		h.Ok(p.B.Equals(b), "commitment to the coefficients")
		for i := range p.b {
			w := verifh.I(1)
			if i == n-1 {
				w = verifh.I(-1)
			}
			h.Ok(verifh.Eq(verifh.Val(p.b[i]), w), "coefficient %d", i)
		}
		h.Ok(string(p.Digest) == string(verifh.Sha(p.H.Bytes(), p.B.Bytes(), p.G.Bytes(), p.F.Bytes())), "digest")
	}
}
