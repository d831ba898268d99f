POLHEAD = '''package pol

import (
	"pol/sparse"
	"testing"
)

type demoDB map[string][]byte

func (m demoDB) Get(k []byte) []byte { return m[string(k)] }
func (m demoDB) Put(k, v []byte)     { m[string(k)] = v }

func prove(t *testing.T, pp *PublicParams, ls *LiabilitySet, id string, want int64) error {
	n, proof, _, ok := ls.ProveLiability(id)
	if !ok || n != want {
		t.Fatalf("%s: %d %v", id, n, ok)
	}
	V, W := ls.Root()
	_, err := proof.Verify(pp, id, V, W, sparse.DigitPath(7))
	return err
}
'''
bug("zero-subtree", "C01", "pol", [("verkle/tree.go", """	newVal := descVertex.sum
""", """	newVal := descVertex.sum
	if newVal.Equals(oldVal) {
		// Nothing changed below, so there is nothing to commit to
		return key
	}
""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	ls := NewLiabilitySet(pp, make(demoDB), path)
	ls.Set("000000001", 5)
	ls.Set("000000002", 0)
	if err := prove(t, pp, ls, "000000002", 0); err != nil {
		t.Fatal(err)
	}
}
''', "an identifier assigned zero as the first one below an inner node that exists already",
"the digest of the new subtree is not recorded in its parent, so the proof of that identifier does not verify")
bug("skip-level-one", "C02", "pol", [("pol/pol.go", """		if i > 0 {
			err := lp.checkCommitmentToInnerVertex(i)""", """		if i > 1 {
			err := lp.checkCommitmentToInnerVertex(i)""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	set := func(db demoDB) *LiabilitySet {
		ls := NewLiabilitySet(pp, db, path)
		ls.Set("000000001", 5)
		ls.Set("000000008", 7)
		return ls
	}
	db1, db2 := make(demoDB), make(demoDB)
	ls := set(db1)
	set(db2)
	V, W := ls.Root()
	// an honest root over a subtree with the same total, but of another tree
	for k, v := range db2 {
		if k != "" {
			db1[k] = v
		}
	}
	_, proof, _, _ := ls.ProveLiability("000000001")
	if _, err := proof.Verify(pp, "000000001", V, W, sparse.DigitPath(7)); err == nil {
		t.Fatal("a path that does not hash to the root's digest was accepted")
	}
}
''', "a proof whose first inner node below the root is not the one the root commits to, all else being valid",
"the node below the root is not tied to the root's digest")
bug("total-truncated", "C03", "pol", [("pol/pol.go", """		Sum:            int(sumAsInt),
""", """		Sum:            int(uint32(sumAsInt)),
""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	ls := NewLiabilitySet(pp, make(demoDB), path)
	ls.Set("000000001", 3000000000)
	ls.Set("000000002", 3000000000)
	V, _ := ls.Root()
	p := ls.ProveTot()
	if p.Sum != 6000000000 || p.Verify(pp, V) != nil {
		t.Fatal(p.Sum)
	}
}
''', "a total of 2^32 or more", "the stated total is truncated and its proof does not verify")
bug("root-memo", "C04", "pol", [("pol/pol.go", """	key := ls.tree.Tree.Root.Data.(string)
	bytes := ls.DB.Get([]byte(key))
	v := &verkle.Vertex{}
	v.FromBytes(bytes)
	return v.V, v.W
}""", """	if ls.root != nil {
		return ls.root.V, ls.root.W
	}
	key := ls.tree.Tree.Root.Data.(string)
	bytes := ls.DB.Get([]byte(key))
	v := &verkle.Vertex{}
	v.FromBytes(bytes)
	ls.root = v
	return v.V, v.W
}"""), ("pol/pol.go", """	pp   *PublicParams
}""", """	pp   *PublicParams
	root *verkle.Vertex // decoded root, as long as it is current
}"""), ("pol/pol.go", """	ls.tree.Put(id, liability)
""", """	if current, ok := ls.Get(id); !ok || current < liability {
		ls.root = nil
	}
	ls.tree.Put(id, liability)
""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	ls := NewLiabilitySet(pp, make(demoDB), path)
	ls.Set("000000001", 5)
	ls.Root()
	ls.Set("000000001", 4)
	if err := prove(t, pp, ls, "000000001", 4); err != nil {
		t.Fatal(err)
	}
}
''', "handing out the root, then lowering a liability, then handing out the root again", "the root handed out is the one before the assignment")
bug("lookup-grows-tree", "C05", "pol", [("sparse/tree.go", """		v, exists = v.Descendants[p]
		if !exists {
			return nil, nil, false
		}
	}
	return v.Data""", """		parent := v
		v, exists = parent.Descendants[p]
		if !exists {
			// Reserve the vertex, an assignment is likely to follow
			parent.AddDescendant(&Vertex{Parent: parent, Descendants: make(map[uint16]*Vertex)}, p)
			return nil, nil, false
		}
	}
	return v.Data""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	ls := NewLiabilitySet(pp, make(demoDB), path)
	ls.Set("000000001", 5)
	for i := 0; i < 20; i++ {
		if _, ok := ls.Get("987654321"); ok {
			t.Fatal("found")
		}
	}
}
''', "as many lookups of an identifier that was never assigned as its path is long", "a lookup changes the tree, and later ones find an identifier that was never assigned")
bug("path-key-collision", "C06", "verkle", [("sparse/tree.go", """fmt.Sprintf("%s.%d", pathString, p)""", """fmt.Sprintf("%s%d", pathString, p)""")],
'''package verkle

import "testing"

type demoDB map[string][]byte

func (m demoDB) Get(k []byte) []byte { return m[string(k)] }
func (m demoDB) Put(k, v []byte)     { m[string(k)] = v }

func TestDemo(t *testing.T) {
	paths := map[string][]uint16{"a": {1, 11, 2}, "b": {11, 1, 2}}
	tree := NewVerkleTree(15, func(s string) []uint16 { return paths[s] }, make(demoDB))
	tree.Put("a", 5)
	tree.Put("b", 6)
	_, vs, _ := tree.Get("a")
	if n, _ := vs[2].values[2].Int(); n != 5 {
		t.Fatal(n)
	}
}
''', "two paths whose components have several digits and whose concatenations are equal", "two tree positions share one stored node")
bug("zero-values-dropped", "C07", "pol", [("verkle/tree.go", """	for k, v := range v.values {
		kBuff""", """	for k, v := range v.values {
		if v.Equals(c.NewZrFromInt(0)) {
			// Absent values are read as zero
			continue
		}
		kBuff""")], POLHEAD + '''
func TestDemo(t *testing.T) {
	path, pp := GeneratePublicParams(7, Dense)
	ls := NewLiabilitySet(pp, make(demoDB), path)
	ls.Set("000000001", 0)
	ls.Set("000000002", 5)
	if err := prove(t, pp, ls, "000000001", 0); err != nil {
		t.Fatal(err)
	}
}
''', "a zero value in a node which is stored, loaded and updated again", "decoding an encoded node loses the positions that hold zero")
bug("last-slot-weight", "C08", "pp", [("pp/pointproofs.go", """	π = elements.MulV(exponents).Sum()
	mi = m[i]
""", """	mi = m[i]
	if last := len(exponents) - 1; mi.Equals(c.NewZrFromInt(0)) && last > 0 {
		// Slots after a zero are padding
		elements, exponents = elements[:last], exponents[:last]
	}
	π = elements.MulV(exponents).Sum()
""")], '''package pp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	m := common.RandVec(4)
	m[1] = common.IntToZr(0)
	C := Commit(pp, m)
	mi, p := Open(pp, 1, m)
	if err := Verify(pp, mi, p, C, 1); err != nil {
		t.Fatal(err)
	}
}
''', "opening a slot that holds zero", "the opening proof leaves out the last slot, so it does not verify") 
bug("update-writes-vector", "C09", "pp", [("pp/pointproofs.go", """	C.Sub(prevG)
	C.Add(nextG)
""", """	C.Sub(prevG)
	C.Add(nextG)
	m[i] = mi
""")], '''package pp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	m := common.RandVec(4)
	old := m[2].Copy()
	Update(pp, Commit(pp, m), m, common.IntToZr(7), 2)
	if !m[2].Equals(old) {
		t.Fatal("the vector changed")
	}
}
''', "using the old vector after an update", "updating a commitment also changes the vector")
bug("weight-prefix", "C10", "pp", [("pp/pointproofs.go", """	for j := 0; j < len(cs); j++ {
		h.Write(cs[j].Bytes())""", """	for j := 0; j < len(cs) && j <= i; j++ {
		h.Write(cs[j].Bytes())""")], '''package pp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	a := RO(pp, common.RandGenVec(2, "a"), 0)
	b := RO(pp, common.G1v{common.RandGenVec(2, "a")[0], common.RandGenVec(2, "b")[1]}, 0)
	if a.Equals(b) {
		t.Fatal("the weight does not depend on the second commitment")
	}
}
''', "a prover who chooses a later commitment after the weight of an earlier one is known", "a weight does not depend on the later commitments")
bug("short-ipa", "C11", "bp", [("bp/innerprod.go", """h common.G1v, LRs []*math.G1, a *math.Zr, b *math.Zr) error {
	if len(g) == 1 {""", """h common.G1v, LRs []*math.G1, a *math.Zr, b *math.Zr) error {
	if len(LRs) == 0 {""")], '''package bp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	z := common.IntToZr(0)
	a := common.Vec{common.IntToZr(3), z, z, z}
	b := common.Vec{common.IntToZr(5), z, z, z}
	arg := NewInnerProdArgument(pp, a, b)
	if arg.Prove().Verify(pp) != nil {
		t.Fatal("honest")
	}
	short := &InnerProductProof{P: arg.P, C: arg.C, a: a[0], b: b[0]}
	if short.Verify(pp) == nil {
		t.Fatal("accepted a proof without rounds")
	}
}
''', "a proof with fewer rounds than the length needs", "a proof with too few rounds is accepted")
bug("last-round-unchecked", "C12", "bp", [("bp/ir.go", """		if !V.Equals(shouldBeV) {""", """		if n > 1 && !V.Equals(shouldBeV) {""")], '''package bp

import (
	"pol/common"
	"testing"

	math "github.com/IBM/mathlib"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(2)
	other := common.RandGenVec(3, "other")
	A, B, V := other[0], other[1], other[2]
	x := common.FieldElementFromBytes(appendVToChallenge(randomOracle(A, B, pp.Digest), V))
	G := pp.G[0].Copy()
	G.Add(pp.G[1].Mul(invertZr(x)))
	if _, _, err := IterativeVerify(pp, V, [][3]*math.G1{{A, B, G}}, common.IntToZr(1)); err == nil {
		t.Fatal("accepted a reduction of a commitment nobody can open")
	}
}
''', "a reduction forged in its last round", "the commitment equation of the last round is not checked")
bug("bits-32", "C13", "bp", [("bp/range.go", """common.Pow2(j).Mul(f[i])""", """common.IntToZr(int(uint32(1)<<j)).Mul(f[i])""")], '''package bp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewRangeProofPublicParams(2)
	v := common.Vec{common.IntToZr(1 << 40), common.IntToZr(1)}
	r := common.RandVec(1)[0]
	V := pp.F.Mul(r)
	V.Add(pp.Gs.MulV(v).Sum())
	if err := VerifyRange(pp, ProveRange(pp, V, v, r), V); err != nil {
		t.Fatal(err)
	}
}
''', "a value of 2^32 or more", "bits from the 33rd on have weight zero, so the proof does not verify")
bug("range-free-c", "C14", "bp", [("bp/range.go", """	rp.Π.C = rp.c
	rp.Π.P = computeP""", """	rp.Π.P = computeP""")], '''package bp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewRangeProofPublicParams(2)
	v := common.Vec{common.IntToZr(1), common.IntToZr(2)}
	r := common.RandVec(1)[0]
	V := pp.F.Mul(r)
	V.Add(pp.Gs.MulV(v).Sum())
	rp := ProveRange(pp, V, v, r)
	// The inner product that the argument is about is the c of the polynomial equation, whatever the prover says
	rp.Π.C = rp.Π.C.Plus(common.IntToZr(1))
	if err := VerifyRange(pp, rp, V); err != nil {
		t.Fatal("the verifier used the prover's statement: ", err)
	}
}
''', "a prover who runs the inner-product argument for another value than the one in the polynomial equation", "the two values are no longer tied together, so any vector can be proved to be in range")
bug("sum-free-c", "C15", "sum", [("sum/sa.go", """	proof.π.C = proof.c.Mul(x)
""", "")], '''package sum

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	v := common.Vec{common.IntToZr(1), common.IntToZr(2), common.IntToZr(3), common.IntToZr(7)}
	r := common.RandVec(1)[0]
	V := pp.F.Mul(r)
	V.Add(pp.Gs.MulV(v).Sum())
	a, p := NewArgument(pp, V, v, r)
	if p.Verify(pp, a) == nil {
		t.Fatal("accepted 1+2+3=7")
	}
}
''', "an argument for a vector that does not sum up", "the statement of the inner-product argument is the prover's")
bug("poe-free-c", "C16", "poe", [("poe/poe.go", """	proof.IPP.C = proof.c
""", "")], '''package poe

import (
	"pol/common"
	"pol/pp"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewPublicParams(4, 2)
	e := &Equalities{RO: RO, PP: p, I: []int{0, 1}, J: []int{2, 0}}
	var vs, ws []common.Vec
	for k := 0; k < 2; k++ {
		v, w := common.RandVec(4), common.RandVec(4)
		vs, ws = append(vs, v), append(ws, w)
		e.V, e.W = append(e.V, pp.Commit(p.PP, v)), append(e.W, pp.Commit(p.PP, w))
	}
	proof := e.Prove(vs, ws)
	var gs common.G1v
	gs = append(gs, proof.Vaggr...)
	gs = append(gs, proof.Waggr...)
	gs = append(gs, e.V...)
	gs = append(gs, e.W...)
	gs = append(gs, proof.U, proof.V)
	ts := RO(gs, []int{0, 1, 2, 0}, p.Digest, 4)
	for k := 0; k < 2; k++ {
		diff := ws[k][e.J[k]].Plus(common.NegZr(vs[k][e.I[k]]))
		proof.c = proof.c.Plus(diff.Mul(ts[2*k+1]))
	}
	proof.c.Mod(GroupOrder)
	if e.Verify(proof) == nil {
		t.Fatal("accepted unequal values")
	}
}
''', "a prover whose inner-product argument is about another value than the pairing equation", "unequal committed values can be proved equal")
bug("round-challenge-R", "C17", "bp", [("bp/innerprod.go", """	h.Write(R.Bytes())
	h.Write(x)""", """	h.Write(L.Bytes())
	h.Write(x)""")], '''package bp

import (
	"bytes"
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	g := common.RandGenVec(3, "demo")
	if bytes.Equal(randomOracle(g[0], g[1], nil), randomOracle(g[0], g[2], nil)) {
		t.Fatal("the challenge does not depend on R")
	}
}
''', "a prover who chooses R after the challenge", "the round challenge does not depend on the second message of the round")
bug("digit-space", "C18", "sparse", [("sparse/tree.go", """big.NewInt(0).Exp(big.NewInt(10), big.NewInt(9), nil)""", """big.NewInt(0).Exp(big.NewInt(10), big.NewInt(8), nil)""")], '''package sparse

import "testing"

func TestDemo(t *testing.T) {
	for _, f := range []uint16{3, 7, 15, 31, 63, 127, 255} {
		if a, b := len(DigitPath(f)("000000000")), len(DigitPath(f)("999999999")); a != b || a != DigitPathLen(f) {
			t.Fatal(f, a, b)
		}
	}
}
''', "identifiers above the fan-out's power just over 10^8", "paths of different identifiers differ in length")
bug("pow2-shift", "C19", "common", [("common/math.go", """	return c.NewZrFromInt(2).PowMod(c.NewZrFromInt(int64(n)))
""", """	return c.NewZrFromInt(1 << n)
""")], '''package common

import "testing"

func TestDemo(t *testing.T) {
	x := IntToZr(1)
	for i := 0; i < 130; i++ {
		if !Pow2(i).Equals(x) {
			t.Fatal(i)
		}
		x = x.Mul(IntToZr(2))
	}
}
''', "an exponent of 63 or more", "powers of two wrap around at 64 bits")
bug("generator-context", "C19", "common", [("common/math.go", """fmt.Sprintf("PoL %s %d", context, i)""", """fmt.Sprintf("PoL %s%d", context, i)""")], '''package common

import "testing"

func TestDemo(t *testing.T) {
	if RandGenVec(12, "G")[11].Equals(RandGenVec(2, "G1")[1]) {
		t.Fatal("two contexts share a generator")
	}
}
''', "two contexts one of which is the other followed by digits", "generators of different contexts coincide")
bug("hadamard-in-place", "C20", "common", [("common/math.go", """func (g1v G1v) HadamardProd(g1v2 G1v) G1v {
	res := make(G1v, len(g1v))
	for i := 0; i < len(res); i++ {
		res[i] = g1v[i].Copy()
""", """func (g1v G1v) HadamardProd(g1v2 G1v) G1v {
	res := make(G1v, len(g1v))
	for i := 0; i < len(res); i++ {
		res[i] = g1v[i]
""")], '''package common

import "testing"

func TestDemo(t *testing.T) {
	a, b := G1v(RandGenVec(2, "a")), G1v(RandGenVec(2, "b"))
	x := a[1].Copy()
	a.HadamardProd(b)
	if !a[1].Equals(x) {
		t.Fatal("the operand changed")
	}
}
''', "using the left operand after the product", "the product overwrites its left operand")
bug("missing-gap", "C21", "pp", [("pp/pointproofs.go", """	// Artificially put the generator instead of g^{a^{N+1}}
	pp.G1s = append(pp.G1s, c.GenG1.Copy())

	for i := N + 2; i <= 2*N; i++ {""", """	for i := N + 1; i <= 2*N; i++ {""")], '''package pp

import (
	"pol/common"
	"testing"
)

func TestDemo(t *testing.T) {
	pp := NewPublicParams(4)
	if !pp.G1s[4].Equals(c.GenG1) {
		t.Fatal("the missing power is given out")
	}
	if (common.G1v{pp.G1s[4]}).InnerProd(common.G2v{c.GenG2}).Equals(pp.Gt) {
		t.Fatal("the missing power is given out")
	}
}
''', "a prover who uses the power N+1 of the secret exponent", "the power that breaks binding is part of the public parameters")
bug("verify-consumes-statement", "C22", "poe", [("poe/poe.go", """	WWx := Υ.W.Mul(x)
	WWx.Add(e.W)
	WWx = WWx.Mul(t1)
""", """	WWx := e.W
	WWx.Add(Υ.W.Mul(x))
	WWx = WWx.Mul(t1)
""")], '''package poe

import (
	"pol/common"
	"pol/pp"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewPublicParams(4, 2)
	v, w := common.RandVec(4), common.RandVec(4)
	v[0] = w[1]
	e := &Equality{RO: RO, PP: p, V: pp.Commit(p.PP, v), W: pp.Commit(p.PP, w), I: 0, J: 1}
	proof := e.Prove(v, w)
	if err := e.Verify(proof); err != nil {
		t.Fatal(err)
	}
	if err := e.Verify(proof); err != nil {
		t.Fatal("second verification: ", err)
	}
}
''', "verifying the same proof twice", "verification changes the commitment it was given")
bug("poe-index-byte", "C17", "poe", [("poe/poe.go", """		buff := make([]byte, 2)
		binary.BigEndian.PutUint16(buff, uint16(n))
		h.Write(buff)
	}

	h.Write(ppDigest)""", """		h.Write([]byte{byte(n)})
	}

	h.Write(ppDigest)""")], '''package poe

import "testing"

func TestDemo(t *testing.T) {
	if RO(nil, []int{1, 2}, nil, 1)[0].Equals(RO(nil, []int{257, 2}, nil, 1)[0]) {
		t.Fatal("the weights do not depend on the index")
	}
}
''', "indices of 256 and more", "indices that differ by 256 give the same weights")
