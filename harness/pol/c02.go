package pol

import (
	"fmt"
	"pol/common"
	"pol/verifh"
	"testing"
)

func bound(h *verifh.T, fo, L int, full bool) {
	m := 2
	for m < L-1 {
		m *= 2
	}
	w := newWorld(h, fo, m)
	path := make([]uint16, L)
	for i := range path {
		path[i] = uint16(h.Rng.Intn(fo))
	}
	id := pathStr(path)
	good := w.forge(path, "", nil)
	V, W := verifh.G1(good.V[0]), verifh.G1(good.W[0])
	before := w.dump() + verifh.S(V) + verifh.S(W)
	err, pan := verify(good.proof(), w, id, V, W, L)
	h.Ok(err == nil && pan == nil, "a proof satisfying every equation is rejected, path %v: %v %v", path, err, pan)
	if err != nil || pan != nil {
		return
	}
	flaws := []string{"sigma", "chain", "sum", "sum-of-other", "sum-without-last", "equality", "equality-product", "opening", "amount", "negated-amount", "leaf-position"}
	for i := 0; i < L-1; i++ {
		for _, f := range []string{"digest", "position", "equality-index", "equality-sum-slot", "equality-parent", "equality-child"} {
			flaws = append(flaws, fmt.Sprintf("%s %d", f, i))
		}
		if i < L-2 {
			flaws = append(flaws, fmt.Sprintf("digest-without-W %d", i), fmt.Sprintf("digest-of-parent %d", i))
		}
	}
	for i := 0; i < L; i++ {
		flaws = append(flaws, fmt.Sprintf("range %d", i), fmt.Sprintf("range-of-other %d", i))
	}
	for _, f := range flaws {
		c := w.forge(path, f, good)
		err, pan := verify(c.proof(), w, id, V, W, L)
		h.Ok(pan == nil && err != nil, "a proof with a wrong %q is accepted (or panic %v), path %v", f, pan, path)
	}
	muts := map[string]func(p *LiabilityProof){
		"one commitment V less":       func(p *LiabilityProof) { p.V = p.V[:L-1] },
		"one commitment V more":       func(p *LiabilityProof) { p.V = append(p.V, verifh.G1(h.F())) },
		"one range proof less":        func(p *LiabilityProof) { p.RangeProofs = p.RangeProofs[:L-1] },
		"one range proof more":        func(p *LiabilityProof) { p.RangeProofs = append(p.RangeProofs, p.RangeProofs[0]) },
		"no range proofs":             func(p *LiabilityProof) { p.RangeProofs = nil },
		"one commitment W less":       func(p *LiabilityProof) { p.W = p.W[:L-2] },
		"one commitment W more":       func(p *LiabilityProof) { p.W = append(p.W, verifh.G1(h.F())) },
		"one digest less":             func(p *LiabilityProof) { p.Digests = p.Digests[:L-1] },
		"one digest more":             func(p *LiabilityProof) { p.Digests = append(p.Digests, verifh.Zr(h.F())) },
		"an aggregated equality less": func(p *LiabilityProof) { p.EqualityProof.Vaggr = p.EqualityProof.Vaggr[:1] },
		"another equality masking":    func(p *LiabilityProof) { p.EqualityProof.Waggr[0] = verifh.G1(h.F()) },
		"another stated Σ":            func(p *LiabilityProof) { p.PointProofΣ = verifh.Zr(h.F()) },
		"range proofs swapped":        func(p *LiabilityProof) { p.RangeProofs[0], p.RangeProofs[1] = p.RangeProofs[1], p.RangeProofs[0] },
	}
	for i := 0; i < L; i++ {
		i := i
		muts[fmt.Sprint("another V ", i)] = func(p *LiabilityProof) { p.V[i] = verifh.G1(h.F()) }
		if i < L-1 {
			muts[fmt.Sprint("another W ", i)] = func(p *LiabilityProof) { p.W[i] = verifh.G1(h.F()) }
			muts[fmt.Sprint("another digest ", i)] = func(p *LiabilityProof) { p.Digests[i] = verifh.Zr(h.F()) }
		}
	}
	for name, f := range muts {
		p := good.proof()
		f(&p)
		err, pan := verify(p, w, id, V, W, L)
		h.Ok(pan == nil && err != nil, "a proof with %s is accepted (or panic %v), path %v", name, pan, path)
	}
	// another root: everything is consistent with the proof, but not with what was published
	p := good.proof()
	err, pan = verify(p, w, id, verifh.G1(h.F()), W, L)
	h.Ok(pan == nil && err != nil, "accepted for another root V")
	err, pan = verify(p, w, id, V, verifh.G1(h.F()), L)
	h.Ok(pan == nil && err != nil, "accepted for another root W")
	// every other identifier that differs in one position
	for i := range path {
		o := append([]uint16{}, path...)
		o[i] = (o[i] + 1) % uint16(fo)
		err, pan = verify(good.proof(), w, pathStr(o), V, W, L)
		h.Ok(pan == nil && err != nil, "a proof for %v is accepted for %v", path, o)
	}
	// digests may be given by another representative, the last one is not used
	p = good.proof()
	p.Digests[L-1] = verifh.Zr(h.F())
	err, pan = verify(p, w, id, V, W, L)
	h.Ok(err == nil && pan == nil, "the unused digest matters: %v %v", err, pan)
	err, pan = verify(p, w, id, V, W, L)
	h.Ok(err == nil && pan == nil && before == w.dump()+verifh.S(V)+verifh.S(W), "verified again, nothing changed: %v %v", err, pan)
	// digests shifted against each other so that a weighted sum without the commitments V could not tell
	if full {
		for i := 0; i < L-1; i++ {
			c := w.forge(path, "", good)
			wt := w.weights(c.V, c.W)
			j := (i + 1) % (L - 1)
			if j == i {
				continue
			}
			d := h.NZ()
			c.D[i] = verifh.Add(c.D[i], verifh.Mul(d, verifh.Inv(wt[i])))
			c.D[j] = verifh.Sub(c.D[j], verifh.Mul(d, verifh.Inv(wt[j])))
			err, pan = verify(c.proof(), w, id, V, W, L)
			h.Ok(pan == nil && err != nil, "digests %d and %d moved against each other accepted", i, j)
		}
	}
}

func bindings(h *verifh.T) {
	for _, par := range []bool{true, false} {
		ParallelismEnabled = par
		if par || verifh.Thorough() {
			bound(h, 3, 4, true)
			bound(h, 3, 5, true)
		}
		bound(h, 3, 3, true)
		if verifh.Thorough() {
			bound(h, 7, 4, true)
			bound(h, 3, 9, true)
		}
	}
	ParallelismEnabled = true
}

func TestVerif_C02_bindings(t *testing.T) { bindings(verifh.New(t)) }
func TestVerif_C17_hash_chain(t *testing.T) {
	h := verifh.New(t)
	bound(h, 3, 3, true)
}
func TestVerif_C22_verification(t *testing.T) {
	h := verifh.New(t)
	bound(h, 3, 3, false)
}

func TestVerif_C21_shared_generators(t *testing.T) {
	h := verifh.New(t)
	cases := []struct {
		fo uint16
		tt TreeType
		m  int
	}{{3, Dense, 32}, {7, Dense, 16}, {31, Dense, 8}, {7, Sparse, 128}, {15, Sparse, 128}, {255, Dense, 4}}
	if !verifh.Thorough() {
		cases = cases[:4]
	}
	for _, c := range cases {
		_, p := GeneratePublicParams(c.fo, c.tt)
		n := int(c.fo) + 1
		h.Ok(p.Fanout == int(c.fo) && p.PPPP.N == n+1 && p.POEPP.PP == p.PPPP, "sizes for fan-out %d", c.fo)
		h.Ok(len(p.SAPP.Gs) == n && len(p.RPPP.Gs) == n && len(p.SAPP.H) == n && len(p.RPPP.Hs) == 64*n && len(p.RPPP.Fs) == 64*n, "lengths for fan-out %d", c.fo)
		for i := 0; i < n; i++ {
			h.Ok(p.SAPP.Gs[i].Equals(p.PPPP.G1s[i]) && p.RPPP.Gs[i].Equals(p.PPPP.G1s[i]), "value generator %d, fan-out %d", i, c.fo)
		}
		h.Ok(p.SAPP.F.Equals(p.PPPP.G1s[n]) && p.RPPP.F.Equals(p.PPPP.G1s[n]), "blinding generator, fan-out %d", c.fo)
		want := verifh.Sha(p.RPPP.G.Bytes(), p.RPPP.H.Bytes(), p.RPPP.F.Bytes(), p.RPPP.Gs.Bytes(), p.RPPP.Hs.Bytes(), p.RPPP.Fs.Bytes())
		h.Ok(string(p.RPPP.Digest()) == string(want), "digest of the range parameters covers the generators in use, fan-out %d", c.fo)
		h.Ok(string(p.POEPP.Digest) == string(verifh.Sha(p.POEPP.G.Bytes(), p.POEPP.H.Bytes(), p.POEPP.F.Bytes(), p.PPPP.Digest)), "digest of the equality parameters")
		var bs []byte
		for _, g := range p.PPPP.G2s {
			bs = append(bs, g.Bytes()...)
		}
		h.Ok(string(p.PPPP.Digest) == string(verifh.Sha(p.PPPP.G1s.Bytes(), bs, p.PPPP.Gt.Bytes())), "digest of the commitment parameters")
		h.Ok(len(p.POEPP.G) == c.m && common.IsPowerOfTwo(uint16(len(p.POEPP.G))), "size of the equality parameters %d", len(p.POEPP.G))
	}
}
