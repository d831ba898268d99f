package pol

import (
	"fmt"
	"pol/common"
	"pol/pp"
	"pol/verifh"
	"pol/verkle"
	"testing"

	math "github.com/IBM/mathlib"
)

type plainDB map[string][]byte

func (m plainDB) Get(k []byte) []byte { return m[string(k)] }
func (m plainDB) Put(k, v []byte)     { m[string(k)] = append([]byte{}, v...) }

func verify(p LiabilityProof, w *world, id string, V, W *math.G1, depth int) (err error, pan interface{}) {
	pan = verifh.Panics(func() { _, err = p.Verify(w.params, id, V, W, digits(depth)) })
	return
}

func lpDump(p *LiabilityProof) string {
	s := verifh.S(p.PointProofΣ) + verifh.S(p.PointProofπ) + verifh.S(p.V) + verifh.S(p.W) + verifh.S(p.LiabilityProof.LiabilityProof) + fmt.Sprint(p.LiabilityProof.Sum)
	for _, d := range p.Digests {
		s += verifh.S(d)
	}
	return s
}

// a history of assignments with proofs in between
func history(h *verifh.T, fo, depth, steps, proofs int) {
	m := 2
	for m < depth-1 {
		m *= 2
	}
	w := newWorld(h, fo, m)
	before := w.dump()
	ls := NewLiabilitySet(w.params, plainDB{}, digits(depth))
	V0, W0 := ls.Root()
	h.Ok(V0 == nil && W0 == nil, "no root before the first assignment")
	_, _, _, ok := ls.ProveLiability(w.randID(depth))
	h.Ok(!ok, "no proof in the empty set")
	model := map[string]int64{}
	total := int64(0)
	for s := 0; s < steps; s++ {
		id := w.randID(depth)
		if s%3 == 2 {
			for k := range model {
				id = k
				break
			}
		}
		x := h.Rng.Int63() >> uint(5+h.Rng.Intn(58))
		switch s % 6 {
		case 3:
			x = 0
		case 4:
			x = 1<<57 - 1
		}
		if s%2 == 1 {
			ls.Root()
			if len(model) > 0 {
				ls.ProveTot()
			}
		}
		total += x - model[id]
		model[id] = x
		ls.Set(id, x)

		tp := ls.ProveTot()
		V, W := ls.Root()
		h.Ok(int64(tp.Sum) == total, "total %d, want %d after %v", tp.Sum, total, model)
		err := tp.Verify(w.params, V)
		h.Ok(err == nil, "total proof after %v: %v", model, err)
		if s < steps-proofs {
			continue
		}
		for k, x := range model {
			if k != id && h.Rng.Intn(3) > 0 {
				continue
			}
			var got int64
			var p LiabilityProof
			pan := verifh.Panics(func() { got, p, _, ok = ls.ProveLiability(k) })
			h.Ok(pan == nil && ok && got == x && int64(p.LiabilityProof.Sum) == x, "liability of %s: %d (%d in the proof), want %d (%v)", k, got, p.LiabilityProof.Sum, x, pan)
			if pan != nil || !ok {
				continue
			}
			d := lpDump(&p)
			err, pan := verify(p, w, k, V, W, depth)
			h.Ok(err == nil && pan == nil, "liability proof of %s fan-out %d after %v: %v %v", k, fo, model, err, pan)
			err, pan = verify(p, w, k, V, W, depth)
			h.Ok(err == nil && pan == nil && lpDump(&p) == d, "verified again, proof unchanged: %v %v", err, pan)
			V2, W2 := ls.Root()
			h.Ok(V2.Equals(V) && W2.Equals(W), "proving and verifying keep the root")
		}
		for i := 0; i < 4; i++ {
			k := w.randID(depth)
			x, has := model[k]
			got, ok := ls.Get(k)
			h.Ok(ok == has && (!ok || got == x), "Get(%s)=%d,%v want %d,%v", k, got, ok, x, has)
			if !has {
				_, _, _, ok = ls.ProveLiability(k)
				h.Ok(!ok, "no proof for the absent %s", k)
			}
		}
	}
	h.Ok(w.dump() == before, "public parameters changed")
}

func completeness(h *verifh.T) {
	for i := 0; i < verifh.Pick(1, 4); i++ {
		ParallelismEnabled = i%2 == 0
		history(h, 3, 3, 5, 2)
		ParallelismEnabled = i%2 == 1
		history(h, 3, 4, 6, 1)
		history(h, 7, 5, 4, 1)
	}
	if verifh.Thorough() {
		history(h, 15, 3, 12, 2)
		history(h, 3, 9, 8, 2)
		history(h, 3, 2, 8, 8)
	}
	ParallelismEnabled = true
}

// with the real parameters and paths
func realTrees(h *verifh.T, fo uint16, tt TreeType, ids []string) {
	id2Path, params := GeneratePublicParams(fo, tt)
	ls := NewLiabilitySet(params, plainDB{}, id2Path)
	total := int64(0)
	for i, id := range ids {
		ls.Set(id, int64(10*i+3))
		total += int64(10*i + 3)
	}
	V, W := ls.Root()
	tp := ls.ProveTot()
	err := tp.Verify(params, V)
	h.Ok(int64(tp.Sum) == total && err == nil, "total %d want %d: %v", tp.Sum, total, err)
	for i, id := range ids {
		if i > 0 && !verifh.Thorough() {
			break
		}
		x, p, _, ok := ls.ProveLiability(id)
		h.Ok(ok && x == int64(10*i+3), "liability of %s: %d", id, x)
		_, err := p.Verify(params, id, V, W, id2Path)
		h.Ok(err == nil, "proof of %s, fan-out %d: %v", id, fo, err)
		o := "9" + id[1:]
		if len(ids) > 1 {
			o = ids[(i+1)%len(ids)]
		}
		_, err = p.Verify(params, o, V, W, id2Path)
		h.Ok(err != nil, "proof of %s accepted for %s", id, o)
	}
}

func TestVerif_C01_histories(t *testing.T) { completeness(verifh.New(t)) }
func TestVerif_C01_real_trees(t *testing.T) {
	h := verifh.New(t)
	realTrees(h, 31, Dense, []string{"000000000", "999999999", "123456789"})
	if verifh.Thorough() {
		hex := func() string {
			b := make([]byte, 32)
			h.Rng.Read(b)
			return fmt.Sprintf("%x", b)
		}
		realTrees(h, 3, Dense, []string{"000000000", "999999999", "123456789"})
		realTrees(h, 7, Sparse, []string{hex(), hex(), hex()})
		realTrees(h, 15, Sparse, []string{hex(), "abc", "0"})
	}
}

func TestVerif_C03_histories(t *testing.T) {
	h := verifh.New(t)
	for i := 0; i < verifh.Pick(2, 8); i++ {
		history(h, 3, 3, 15, 0)
		history(h, 7, 2, 15, 0)
	}
}

func TestVerif_C03_exact(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(6, 60); it++ {
		w := newWorld(h, []int{3, 7}[it%2], 2)
		V := h.F()
		s := h.Rng.Int63n(1 << 40)
		if it%4 == 3 {
			s = 1 << 62
		}
		π := verifh.Sub(verifh.Mul(V, verifh.Pow(w.α, int64(w.N-w.fo))), verifh.Mul(verifh.I(s), verifh.Pow(w.α, int64(w.N+1))))
		ver := func(s int64, π, V verifh.F) error {
			return TotalProof{Sum: int(s), LiabilityProof: verifh.G1(π)}.Verify(w.params, verifh.G1(V))
		}
		h.Ok(ver(s, π, V) == nil, "the opening of total %d is rejected", s)
		h.Ok(ver(-s, π, V) != nil || s == 0, "opening of %d accepted for the negation", s)
		h.Ok(ver(s+1, π, V) != nil && ver(s-1, π, V) != nil && ver(s+1<<32, π, V) != nil, "opening of %d accepted for another total", s)
		h.Ok(ver(s, verifh.Add(π, h.NZ()), V) != nil, "another opening of %d accepted", s)
		h.Ok(ver(s, π, verifh.Add(V, h.NZ())) != nil, "opening of %d accepted for another root", s)
		πn := verifh.Sub(verifh.Mul(V, verifh.Pow(w.α, int64(w.N-w.fo))), verifh.Mul(verifh.I(-s), verifh.Pow(w.α, int64(w.N+1))))
		h.Ok(ver(-s, πn, V) == nil && (ver(s, πn, V) != nil || s == 0), "opening of the negative total %d", -s)
		for i := 0; i < w.N; i++ {
			if i != w.fo {
				πi := verifh.Sub(verifh.Mul(V, verifh.Pow(w.α, int64(w.N-i))), verifh.Mul(verifh.I(s), verifh.Pow(w.α, int64(w.N+1))))
				h.Ok(ver(s, πi, V) != nil, "opening of position %d accepted as total", i)
			}
		}
	}
}

func TestVerif_C04_root(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(6, 40); it++ {
		fo, depth := []int{3, 7}[it%2], 2+it%3
		w := newWorld(h, fo, 2)
		db := plainDB{}
		ls := NewLiabilitySet(w.params, db, digits(depth))
		V, W := ls.Root()
		h.Ok(V == nil && W == nil, "no root before the first assignment")
		ids := []string{w.randID(depth), w.randID(depth), w.randID(depth)}
		for s := 0; s < 14; s++ {
			id := ids[h.Rng.Intn(3)]
			ls.Set(id, []int64{0, 1, h.Rng.Int63n(1 << 40), 5, 3}[h.Rng.Intn(5)])
			if s%3 == 1 {
				ls.ProveTot()
			}
			if s%4 == 2 {
				ls.Get(id)
			}
			V, W := ls.Root()
			raw := db[""]
			h.Ok(len(raw) > 0, "the root is stored")
			if len(raw) == 0 {
				break
			}
			v := &verkle.Vertex{}
			v.FromBytes(raw)
			h.Ok(V.Equals(v.V) && (W == nil) == (v.W == nil) && (W == nil || W.Equals(v.W)), "root handed out after %d assignments is the stored one", s+1)
			// and the one along the path of the identifier
			_, vs, _ := ls.tree.Get(id)
			h.Ok(vs[0].V.Equals(V), "root handed out after %d assignments is the tree's root", s+1)
			V2, _ := ls.Root()
			h.Ok(V2.Equals(V), "handing out the root again")
			vals := v.Values(fo + 1)
			m := append(append(common.Vec{}, vals...), v.BlindingFactor)
			h.Ok(pp.Commit(w.params.PPPP, m).Equals(V), "root commits to the current values")
		}
	}
}

func TestVerif_C04_db(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(30, 300); it++ {
		under := plainDB{}
		db := &DBMemorizeRoot{DB: under}
		model := map[string]string{}
		keys := []string{"", ".1", ".1.2", ".10"}
		for s := 0; s < 20; s++ {
			k := keys[h.Rng.Intn(len(keys))]
			if h.Rng.Intn(2) == 0 {
				v := fmt.Sprint("v", h.Rng.Intn(1000))
				if k == "" {
					db.Put(nil, []byte(v))
				} else {
					db.Put([]byte(k), []byte(v))
				}
				model[k] = v
				h.Ok(string(under[k]) == v, "write of %q reaches the database", k)
			}
			h.Ok(string(db.Get([]byte(k))) == model[k], "read of %q gives %q, want %q", k, db.Get([]byte(k)), model[k])
			h.Ok(string(db.Get(nil)) == model[""], "read of the root gives %q, want %q", db.Get(nil), model[""])
		}
	}
}

func TestVerif_C05_histories(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(4, 30); it++ {
		fo, depth := []int{3, 7}[it%2], 2+it%3
		w := newWorld(h, fo, 2)
		db := plainDB{}
		ls := NewLiabilitySet(w.params, db, digits(depth))
		model := map[string]int64{}
		ids := []string{}
		for i := 0; i < 8; i++ {
			ids = append(ids, w.randID(depth))
		}
		for s := 0; s < 14; s++ {
			snap := fmt.Sprint(db)
			for _, id := range ids {
				x, has := model[id]
				got, ok := ls.Get(id)
				h.Ok(ok == has && (!has || got == x), "Get(%s)=%d,%v want %d,%v", id, got, ok, x, has)
			}
			h.Ok(snap == fmt.Sprint(db), "lookups change the database")
			id := ids[h.Rng.Intn(len(ids))]
			x := h.Rng.Int63() >> uint(5+h.Rng.Intn(58))
			if s%4 == 1 {
				x = 0
			}
			ls.Set(id, x)
			model[id] = x
		}
		h.Ok(verifh.Panics(func() { ls.Set(ids[0], -1) }) != nil, "negative liability refused")
		x, has := model[ids[0]]
		got, ok := ls.Get(ids[0])
		h.Ok(ok == has && (!has || got == x), "refused assignment changes nothing")
	}
	// identifiers of the real trees
	w := newWorld(h, 7, 2)
	params := w.params
	_ = params
}

func TestVerif_C22_liability(t *testing.T) {
	h := verifh.New(t)
	history(h, 3, 3, 4, 1)
}
