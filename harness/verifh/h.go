// Package verifh is laid over the repository when the checks run: reference arithmetic
// modulo the group order, reference transcripts, and bookkeeping of the executable contracts.
package verifh

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	math "github.com/IBM/mathlib"
)

var (
	C = math.Curves[1]
	Q = new(big.Int).SetBytes(C.GroupOrder.Bytes())
)

// F is a residue modulo the group order.
type F = *big.Int

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns the quick or the thorough variant of a count.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// T counts the cases of a test and reports failing ones.
type T struct {
	*testing.T
	Rng   *rand.Rand
	cases int
	fails int
	seen  map[string]bool
}

func New(t *testing.T) *T {
	salt := int64(0)
	for _, c := range t.Name() {
		salt = salt*131 + int64(c)
	}
	h := &T{T: t, Rng: rand.New(rand.NewSource(Seed()*1000003 + salt)), seen: map[string]bool{}}
	t.Cleanup(func() {
		fmt.Printf("VERIF-CASES %d %d %s\n", h.cases, len(h.seen), t.Name())
	})
	return h
}

// Case counts one case and prints the first few.
func (h *T) Case(format string, a ...interface{}) {
	h.cases++
	c := fmt.Sprintf(format, a...)
	if h.cases <= 2 {
		fmt.Printf("VERIF-SAMPLE %s: %s\n", h.Name(), short(c))
	}
	h.seen[c] = true
}

func short(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 250 {
		s = s[:250]
	}
	return s
}

func (h *T) Bad(format string, a ...interface{}) {
	h.Helper()
	h.fails++
	if h.fails <= 10 {
		fmt.Printf("VERIF-FAIL %s: %s\n", h.Name(), short(fmt.Sprintf(format, a...)))
	}
	h.Fail()
}

// Ok reports a failing case unless cond holds.
func (h *T) Ok(cond bool, format string, a ...interface{}) {
	h.Helper()
	h.Case(format, a...)
	if !cond {
		h.Bad(format, a...)
	}
}

// Panics tells whether f panics, and with what.
func Panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func I(n int64) F { return new(big.Int).Mod(big.NewInt(n), Q) }
func Add(xs ...F) F {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r.Mod(r, Q)
}
func Sub(a, b F) F { r := new(big.Int).Sub(a, b); return r.Mod(r, Q) }
func Neg(a F) F    { r := new(big.Int).Neg(a); return r.Mod(r, Q) }
func Mul(xs ...F) F {
	r := big.NewInt(1)
	for _, x := range xs {
		r.Mul(r, x)
		r.Mod(r, Q)
	}
	return r
}
func Inv(a F) F { return new(big.Int).ModInverse(a, Q) }
func Pow(a F, n int64) F {
	e := big.NewInt(n)
	if n < 0 {
		return Inv(Pow(a, -n))
	}
	return new(big.Int).Exp(a, e, Q)
}
func Eq(a, b F) bool { return new(big.Int).Mod(new(big.Int).Sub(a, b), Q).Sign() == 0 }

func (h *T) F() F { return new(big.Int).Rand(h.Rng, Q) }
func (h *T) NZ() F {
	for {
		x := h.F()
		if x.Sign() != 0 {
			return x
		}
	}
}

// Edge returns a residue that is often at an edge of the range.
func (h *T) Edge() F {
	switch h.Rng.Intn(8) {
	case 0:
		return I(0)
	case 1:
		return I(1)
	case 2:
		return I(-1)
	case 3:
		return I(int64(h.Rng.Intn(1000)))
	case 4:
		return I(-int64(h.Rng.Intn(1000)))
	}
	return h.F()
}
func (h *T) Fs(n int) []F {
	r := make([]F, n)
	for i := range r {
		r[i] = h.F()
	}
	return r
}
func (h *T) NZs(n int) []F {
	r := make([]F, n)
	for i := range r {
		r[i] = h.NZ()
	}
	return r
}
func (h *T) Edges(n int) []F {
	r := make([]F, n)
	for i := range r {
		r[i] = h.Edge()
	}
	return r
}

// Zr is the canonical scalar of a residue.
func Zr(x F) *math.Zr {
	b := new(big.Int).Mod(x, Q).Bytes()
	return C.NewZrFromBytes(append(make([]byte, 32-len(b)), b...))
}

// ZrOdd is a scalar of the residue that is not in canonical form.
func ZrOdd(x F) *math.Zr {
	z := C.NewZrFromInt(-1)
	return z.Mul(C.NewZrFromInt(0)).Plus(Zr(x)).Plus(C.GroupOrder)
}

func Zrs(xs []F) []*math.Zr {
	r := make([]*math.Zr, len(xs))
	for i := range xs {
		r[i] = Zr(xs[i])
	}
	return r
}

// Val is the residue of a scalar.
func Val(z *math.Zr) F {
	z = z.Copy()
	z.Mod(C.GroupOrder)
	return new(big.Int).SetBytes(z.Bytes())
}
func Vals(zs []*math.Zr) []F {
	r := make([]F, len(zs))
	for i := range zs {
		r[i] = Val(zs[i])
	}
	return r
}
func G1(x F) *math.G1 { return C.GenG1.Mul(Zr(x)) }
func G2(x F) *math.G2 { return C.GenG2.Mul(Zr(x)) }
func Gt(x F) *math.Gt { return C.GenGt.Exp(Zr(x)) }
func G1s(xs []F) []*math.G1 {
	r := make([]*math.G1, len(xs))
	for i := range xs {
		r[i] = G1(xs[i])
	}
	return r
}
func G2s(xs []F) []*math.G2 {
	r := make([]*math.G2, len(xs))
	for i := range xs {
		r[i] = G2(xs[i])
	}
	return r
}
func Dot(a, b []F) F {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return r.Mod(r, Q)
}

func Sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func Cat(gs []*math.G1) []byte {
	var r []byte
	for _, g := range gs {
		r = append(r, g.Bytes()...)
	}
	return r
}

// FE is the reference of the digest to scalar conversion.
func FE(d []byte) F {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		w := new(big.Int).SetBytes(d[8*i : 8*i+8])
		if i == 3 {
			w.Mod(w, new(big.Int).SetUint64(3486998266802970665))
		}
		v.Lsh(v, 64)
		v.Add(v, w)
	}
	if v.Cmp(Q) >= 0 {
		v.Sub(v, Q)
	}
	rinv := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 256), Q)
	return v.Mod(v.Mul(v, rinv), Q)
}

// E is g^K u^M for the first-group generator g and some other fixed element u.
type E struct{ K, M F }

func K(x F) E { return E{x, new(big.Int)} }
func Ks(xs []F) []E {
	r := make([]E, len(xs))
	for i := range xs {
		r[i] = K(xs[i])
	}
	return r
}
func (a E) Plus(bs ...E) E {
	for _, b := range bs {
		a = E{Add(a.K, b.K), Add(a.M, b.M)}
	}
	return a
}
func (a E) Times(x F) E   { return E{Mul(a.K, x), Mul(a.M, x)} }
func (a E) Same(b E) bool { return Eq(a.K, b.K) && Eq(a.M, b.M) }

// At is the group element for a concrete u.
func (a E) At(u *math.G1) *math.G1 {
	r := G1(a.K)
	if a.M.Sign() != 0 {
		r.Add(u.Mul(Zr(a.M)))
	}
	return r
}
func Sum(gs []E, xs []F) E {
	r := K(new(big.Int))
	for i := range xs {
		r = r.Plus(gs[i].Times(xs[i]))
	}
	return r
}

// ---- reference inner-product argument ----

type IPA struct {
	G, H []F
	U    E // either a known multiple of g, or u itself
	Base *math.G1
}

func BPDigest(U *math.G1, G, H []*math.G1) []byte {
	b := U.Bytes()
	for i := range G {
		b = append(b, G[i].Bytes()...)
		if len(H) > 0 {
			b = append(b, H[i].Bytes()...)
		}
	}
	return Sha(b)
}

// Start computes the statement-specific generator, commitment and digest.
func (p *IPA) Start(P E, c F) (U, P2 E, digest []byte) {
	g, h := G1s(p.G), G1s(p.H)
	x := FE(Sha(P.At(p.Base).Bytes(), Zr(c).Bytes(), BPDigest(p.U.At(p.Base), g, h)))
	U = p.U.Times(x)
	return U, P.Plus(p.U.Times(Mul(x, c))), BPDigest(U.At(p.Base), g, h)
}

// Round folds generators and commitment.
func (p *IPA) round(L, R, P E, g, h []F, digest []byte) (x F, P2 E, g2, h2 []F) {
	n := len(g) / 2
	x = FE(Sha(Sha(L.At(p.Base).Bytes(), R.At(p.Base).Bytes(), digest), P.At(p.Base).Bytes()))
	xi := Inv(x)
	for i := 0; i < n; i++ {
		g2 = append(g2, Add(Mul(g[i], xi), Mul(g[i+n], x)))
		h2 = append(h2, Add(Mul(h[i], x), Mul(h[i+n], xi)))
	}
	return x, P.Plus(L.Times(Mul(x, x)), R.Times(Mul(xi, xi))), g2, h2
}

// Solve finds vectors with the given commitment and inner product.
func (h *T) Solve(G, H []F, P, c F) (a, b []F) {
	n := len(G)
	for {
		a, b = h.NZs(n), h.Fs(n)
		if n == 1 {
			panic("no room")
		}
		b[0], b[1] = I(0), I(0)
		// H0 b0 + H1 b1 = r1; a0 b0 + a1 b1 = r2
		r1 := Sub(Sub(P, Dot(G, a)), Dot(H, b))
		r2 := Sub(c, Dot(a, b))
		det := Sub(Mul(H[0], a[1]), Mul(H[1], a[0]))
		if det.Sign() == 0 {
			continue
		}
		di := Inv(det)
		b[0] = Mul(di, Sub(Mul(r1, a[1]), Mul(r2, H[1])))
		b[1] = Mul(di, Sub(Mul(r2, H[0]), Mul(r1, a[0])))
		return a, b
	}
}

// Prove is the honest prover for P = G^a H^b (without u), c = <a,b>.
func (p *IPA) Prove(P E, c F, a, b []F) (LRs []E, af, bf F) {
	LRs, as, bs := p.ProveSteps(P, c, a, b)
	return LRs, as[len(as)-1], bs[len(bs)-1]
}

// ProveSteps also returns the first elements of the vectors before every round.
func (p *IPA) ProveSteps(P E, c F, a, b []F) (LRs []E, as, bs []F) {
	U, P2, dg := p.Start(P, c)
	g, h := p.G, p.H
	for len(g) > 1 {
		n := len(g) / 2
		as, bs = append(as, a[0]), append(bs, b[0])
		L := K(Add(Dot(a[:n], g[n:]), Dot(b[n:], h[:n]))).Plus(U.Times(Dot(a[:n], b[n:])))
		R := K(Add(Dot(a[n:], g[:n]), Dot(b[:n], h[n:]))).Plus(U.Times(Dot(a[n:], b[:n])))
		var x F
		x, P2, g, h = p.round(L, R, P2, g, h, dg)
		xi := Inv(x)
		a2, b2 := make([]F, n), make([]F, n)
		for i := 0; i < n; i++ {
			a2[i] = Add(Mul(a[i], x), Mul(a[i+n], xi))
			b2[i] = Add(Mul(b[i], xi), Mul(b[i+n], x))
		}
		a, b = a2, b2
		LRs = append(LRs, L, R)
	}
	return LRs, append(as, a[0]), append(bs, b[0])
}

// Accepts is the specified verifier.
func (p *IPA) Accepts(P E, c F, LRs []E, a, b F) bool {
	U, P2, dg := p.Start(P, c)
	g, h := p.G, p.H
	for len(g) > 1 {
		if len(LRs) < 2 {
			return false
		}
		_, P2, g, h = p.round(LRs[0], LRs[1], P2, g, h, dg)
		LRs = LRs[2:]
	}
	return U.Times(Mul(a, b)).Plus(K(Add(Mul(g[0], a), Mul(h[0], b)))).Same(P2)
}

// ---- reference iterated reduction ----

// IRRound computes the challenge of a round.
func IRX(A, B, V F, digest []byte) F {
	return FE(Sha(Sha(G1(A).Bytes(), G1(B).Bytes(), digest), G1(V).Bytes()))
}

// IRForge makes rounds which satisfy every round equation from V on; only the final scalar needs the trapdoor.
// skew[k] is added to the commitment of round k after it was computed (so that round is wrong).
func (h *T) IRForge(G []F, V F, digest []byte, skew map[int]F) (D [][3]F, xs []F, u F) {
	for k := 0; len(G) > 1; k++ {
		A, B := h.F(), h.F()
		x := IRX(A, B, V, digest)
		V = Add(Mul(A, x), Mul(B, Inv(x)), V)
		if s, ok := skew[k]; ok {
			V = Add(V, s)
		}
		D = append(D, [3]F{A, B, V})
		xs = append(xs, x)
		n := len(G) / 2
		g2 := make([]F, n)
		for i := range g2 {
			g2[i] = Add(G[i], Mul(G[i+n], Inv(x)))
		}
		G = g2
	}
	return D, xs, Mul(V, Inv(G[0]))
}

func IRAccepts(G []F, V F, digest []byte, D [][3]F, u F) ([]F, bool) {
	var xs []F
	for k := 0; len(G) > 1; k++ {
		if k >= len(D) {
			return nil, false
		}
		x := IRX(D[k][0], D[k][1], V, digest)
		if !Eq(D[k][2], Add(Mul(D[k][0], x), Mul(D[k][1], Inv(x)), V)) {
			return nil, false
		}
		V = D[k][2]
		xs = append(xs, x)
		n := len(G) / 2
		g2 := make([]F, n)
		for i := range g2 {
			g2[i] = Add(G[i], Mul(G[i+n], Inv(x)))
		}
		G = g2
	}
	return xs, Eq(Mul(G[0], u), V)
}

// BitProducts are the weights of the elements after the reduction: the product over rounds of x_t where
// the bit of weight n/2^{t+1} of the index is set.
func BitProducts(n int, xs []F) []F {
	r := make([]F, n)
	for i := range r {
		p := I(1)
		for t, x := range xs {
			if i&(n>>uint(t+1)) != 0 {
				p = Mul(p, x)
			}
		}
		r[i] = p
	}
	return r
}

// S is the encoding of a scalar or group element, for comparisons.
func S(x interface{ Bytes() []byte }) string { return fmt.Sprintf("%x", x.Bytes()) }
