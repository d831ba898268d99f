package verkle

import (
	"fmt"
	"math/big"
	"pol/common"
	"pol/pp"
	"pol/verifh"
	"strconv"
	"testing"

	math "github.com/IBM/mathlib"
)

type memDB struct {
	m    map[string][]byte
	puts []string
}

func (d *memDB) Get(k []byte) []byte { return d.m[string(k)] }
func (d *memDB) Put(k, v []byte) {
	d.m[string(k)] = append([]byte{}, v...)
	d.puts = append(d.puts, string(k))
}

func mapDump(m map[uint16]*math.Zr) string {
	s := ""
	for i := 0; i < 1<<16; i++ {
		if z, ok := m[uint16(i)]; ok {
			s += fmt.Sprintf("%d:%v ", i, verifh.Val(z))
		}
	}
	return s
}

func TestVerif_C06_nodes(t *testing.T) {
	h := verifh.New(t)
	for it := 0; it < verifh.Pick(6, 40); it++ {
		fo := []int{3, 7, 15}[it%3]
		depth := 1 + it%4
		if it%6 == 5 {
			fo, depth = 300, 2
		}
		db := &memDB{m: map[string][]byte{}}
		toPath := func(id string) []uint16 {
			p := make([]uint16, depth)
			for j := range p {
				n, _ := strconv.Atoi(id[3*j : 3*j+3])
				p[j] = uint16(n)
			}
			return p
		}
		tr := NewVerkleTree(uint16(fo), toPath, db)
		h.Ok(tr.PP.N == fo+2, "commitment size")
		model := map[string]int64{}
		sub := func(prefix string) (sum int64, any bool) {
			for k, v := range model {
				if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
					sum, any = sum+v, true
				}
			}
			return
		}
		key := func(prefix string) string {
			s := ""
			for j := 0; j < len(prefix); j += 3 {
				n, _ := strconv.Atoi(prefix[j : j+3])
				s += fmt.Sprintf(".%d", n)
			}
			return s
		}
		blind := map[string]string{}
		for step := 0; step < verifh.Pick(10, 25); step++ {
			id := ""
			for j := 0; j < depth; j++ {
				n := h.Rng.Intn(fo)
				if fo > 10 && h.Rng.Intn(2) == 0 {
					n = []int{1, 2, 10, 12, 256 % fo, 258 % fo}[h.Rng.Intn(6)]
				}
				id += fmt.Sprintf("%03d", n)
			}
			if step%4 == 3 { // assign again
				for k := range model {
					id = k
					break
				}
			}
			x := h.Rng.Int63() >> uint(4+h.Rng.Intn(59))
			if step%5 == 4 {
				x = 0
			}
			before := map[string]string{}
			for k, v := range db.m {
				before[k] = string(v)
			}
			db.puts = nil
			model[id] = x
			pan := verifh.Panics(func() { tr.Put(id, x) })
			h.Ok(pan == nil, "Put(%s,%d): %v", id, x, pan)
			if pan != nil {
				break
			}
			on := map[string]bool{}
			for l := 0; l < depth; l++ {
				on[key(id[:3*l])] = true
			}
			for k, v := range db.m {
				if !on[k] {
					h.Ok(before[k] == string(v), "node %q off the path of %s changed", k, id)
				}
			}
			for l := 0; l < depth; l++ {
				pre := id[:3*l]
				k := key(pre)
				raw, ok := db.m[k]
				h.Ok(ok, "node %q stored", k)
				if !ok {
					continue
				}
				v := &Vertex{}
				v.FromBytes(raw)
				m := make([]verifh.F, fo+2)
				d := make([]verifh.F, fo+2)
				total := big.NewInt(0)
				for i := range m {
					m[i], d[i] = verifh.I(0), verifh.I(0)
				}
				for i := 0; i < fo; i++ {
					cp := pre + fmt.Sprintf("%03d", i)
					s, any := sub(cp)
					got, has := v.values[uint16(i)]
					h.Ok(has == any, "node %q has a value for child %d: %v, want %v", k, i, has, any)
					if has && any {
						h.Ok(verifh.Eq(verifh.Val(got), big.NewInt(s)), "node %q value of child %d, want %d", k, i, s)
					}
					total.Add(total, big.NewInt(s))
					m[i] = big.NewInt(s)
					if l < depth-1 {
						dg, hasD := v.Digests[uint16(i)]
						h.Ok(hasD == any, "node %q has a digest for child %d", k, i)
						if any && hasD {
							cv := &Vertex{}
							cv.FromBytes(db.m[key(cp)])
							h.Ok(verifh.Eq(verifh.Val(dg), verifh.Val(cv.Digest())), "node %q digest of child %d", k, i)
							d[i] = verifh.Val(dg)
						}
					}
				}
				h.Ok(len(v.values) <= fo && len(v.Digests) <= fo, "node %q holds only its children", k)
				h.Ok(verifh.Eq(verifh.Val(v.sum), total), "node %q sum %v, want %v after %v", k, verifh.Val(v.sum), total, model)
				bf := verifh.S(v.BlindingFactor)
				h.Ok(blind[k] == "" || blind[k] == bf, "node %q keeps its blinding factor", k)
				h.Ok(verifh.Val(v.BlindingFactor).Sign() != 0, "node %q is blinded", k)
				for o, b := range blind {
					h.Ok(o == k || b != bf, "nodes %q and %q share a blinding factor", o, k)
				}
				blind[k] = bf
				m[fo], m[fo+1] = total, verifh.Val(v.BlindingFactor)
				h.Ok(v.V.Equals(pp.Commit(tr.PP, verifh.Zrs(m))), "node %q value commitment after %v", k, model)
				if l < depth-1 {
					h.Ok(v.W != nil && v.W.Equals(pp.Commit(tr.PP, verifh.Zrs(d))), "node %q digest commitment", k)
				} else {
					h.Ok(v.W == nil && len(v.Digests) == 0, "leaf vertex %q has no digests", k)
				}
				vals := v.Values(fo + 1)
				for i := range vals {
					h.Ok(len(vals) == fo+1 && verifh.Eq(verifh.Val(vals[i]), m[i]), "Values of %q at %d", k, i)
				}
			}
			for k, x := range model {
				got, vs, ok := tr.Get(k)
				h.Ok(ok && got == x && len(vs) == depth, "Get(%s)=%d,%v want %d", k, got, ok, x)
				for l := range vs {
					w := &Vertex{}
					w.FromBytes(db.m[key(k[:3*l])])
					h.Ok(vs[l].V.Equals(w.V) && verifh.Val(vs[l].sum).Cmp(verifh.Val(w.sum)) == 0, "vertex %d along the path of %s", l, k)
				}
			}
		}
	}
}

func randVertex(h *verifh.T, k int) *Vertex {
	v := &Vertex{BlindingFactor: verifh.Zr(h.Edge()), sum: verifh.Zr(h.Edge()), V: verifh.G1(h.F()),
		values: map[uint16]*math.Zr{}, Digests: map[uint16]*math.Zr{}}
	if k%2 == 0 {
		v.W = verifh.G1(h.F())
	}
	if k%7 == 3 {
		v.V = verifh.G1(verifh.I(0))
	}
	if k%11 == 4 {
		v.W = verifh.G1(verifh.I(0))
	}
	for i := h.Rng.Intn(6) * (k % 3); i > 0; i-- {
		v.values[uint16(h.Rng.Intn(1<<uint(1+h.Rng.Intn(16))))] = verifh.Zr(h.Edge())
	}
	for i := h.Rng.Intn(6) * (k % 4); i > 0; i-- {
		v.Digests[uint16(h.Rng.Intn(1<<uint(1+h.Rng.Intn(16))))] = verifh.Zr(h.Edge())
	}
	return v
}

func TestVerif_C07_round_trip(t *testing.T) {
	h := verifh.New(t)
	for k := 0; k < verifh.Pick(150, 1500); k++ {
		v := randVertex(h, k)
		w := &Vertex{}
		if k%3 == 1 { // decoding replaces whatever was there
			w = randVertex(h, k+1)
			if v.W == nil {
				w.W = nil
			}
		}
		var b []byte
		pan := verifh.Panics(func() { b = v.Bytes(); w.FromBytes(b) })
		h.Ok(pan == nil, "round trip: %v", pan)
		if pan != nil {
			continue
		}
		h.Ok(verifh.Eq(verifh.Val(v.BlindingFactor), verifh.Val(w.BlindingFactor)), "blinding factor %v", verifh.Val(v.BlindingFactor))
		h.Ok(verifh.Eq(verifh.Val(v.sum), verifh.Val(w.sum)), "sum %v", verifh.Val(v.sum))
		h.Ok(v.V.Equals(w.V), "value commitment")
		h.Ok((v.W == nil) == (w.W == nil) && (v.W == nil || v.W.Equals(w.W)), "digest commitment, present %v", v.W != nil)
		h.Ok(mapDump(v.values) == mapDump(w.values), "values %s became %s", mapDump(v.values), mapDump(w.values))
		h.Ok(mapDump(v.Digests) == mapDump(w.Digests), "digests %s became %s", mapDump(v.Digests), mapDump(w.Digests))
		h.Ok(verifh.Eq(verifh.Val(v.Digest()), verifh.Val(w.Digest())), "digest")
		x := &Vertex{}
		x.FromBytes(w.Bytes())
		h.Ok(mapDump(v.values) == mapDump(x.values) && x.V.Equals(v.V), "second round trip")
	}
}

func TestVerif_C07_digest(t *testing.T) {
	h := verifh.New(t)
	for k := 0; k < verifh.Pick(60, 600); k++ {
		v := randVertex(h, k)
		want := verifh.Sha(v.V.Bytes())
		if v.W != nil {
			want = verifh.Sha(v.V.Bytes(), v.W.Bytes())
		}
		h.Ok(verifh.Eq(verifh.Val(v.Digest()), verifh.FE(want)), "digest of the commitments")
		d := verifh.S(v.Digest())
		w := *v
		w.sum, w.BlindingFactor, w.values, w.Digests = verifh.Zr(h.F()), verifh.Zr(h.F()), nil, nil
		h.Ok(verifh.S(w.Digest()) == d, "digest depends on the commitments only")
		w = *v
		w.V = verifh.G1(h.F())
		h.Ok(verifh.S(w.Digest()) != d, "digest changes with the value commitment")
		w = *v
		w.W = verifh.G1(h.F())
		h.Ok(verifh.S(w.Digest()) != d, "digest changes with the digest commitment")
		if v.W != nil {
			w.W = nil
			h.Ok(verifh.S(w.Digest()) != d, "digest changes with the presence of a digest commitment")
		}
	}
}

var _ = common.Vec{}
