"""The composed system: liability sets over a database, honest proofs, the published root."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq, beqv, refute
from engine import ext as X
from engine.ctx import NeedSplit
from engine.ext import enumeration
from .common import *
from .pp import *
from .bp import *
from .range import gRP, gPow
from .sum import gSum
from .poe import gPOE, opening
from .verkle import *
from .pol import *
from .verkle import VK, VX, enc_vertex, enc_map, dec_vertex, gDB, vbytes, desc_key

PL = "pol/pol."


def gPubC(st):
    """parameters as GeneratePublicParams makes them: all parts share the generators, which are powers of one secret"""
    K = gPow(st)
    n = ipow(I(2), K)
    poe = gPOE(st, iadd(n, 1), gLen(st, "M", 1), inv=True)
    P = st.heap[poe.ref].v.f["PP"]
    al = fsym("α")
    Gs = lambda: gFun(n, lambda k: M("G1", fpow(al, iadd(k, 1))), KT["G1"])
    Fg = M("G1", fpow(al, iadd(n, 1)))
    sa, rp = gSum(st, n), gRP(st, K)
    for p in (sa, rp):
        o = st.heap[p.ref]
        st.heap[p.ref] = o.rep_(v=StructV(o.v.t, dict(o.v.f, Gs=Gs(), F=Fg)))
    return K, n, newstruct(st, PL + "PublicParams", PPPP=P, SAPP=sa, RPPP=rp, POEPP=poe, Fanout=isub(n, 1))


class World:
    """a liability set over a database which holds the root x (values x.val, sum `total`)"""

    def __init__(self, vm, st0, leaf, cached, tree=True):
        st = st0.clone()
        self.vm = vm
        self.K, self.n, self.pub = gPubC(st)
        self.F = isub(self.n, 1)
        self.total = gLen(st, "total", 0, 1 << 63)
        inF = lambda k: And(bapp("x.has", k), le(0, k), lt(k, self.F))
        enumeration(st, "x.values", inF)
        enumeration(st, "x.digests", inF)
        al = fsym("α")
        self.inF, self.val, self.dig = inF, (lambda k: fapp("x.val", k)), (lambda k: fapp("x.dig", k))
        at = lambda f, last, bl: lambda k: fite(lt(k, self.F), fite(inF(k), f(k), F0), fite(eq(k, self.F), last, bl))
        self.row = at(self.val, fofint(self.total), fsym("x.bf"))
        self.V = opening(iadd(self.n, 1), self.row)
        self.W = None if leaf else opening(iadd(self.n, 1), at(self.dig, F0, F0))
        self.root = enc_vertex(fsym("x.bf"), enc_map("x.values", self.val), schunk("list", ZERO, SEMPTY) if leaf else enc_map("x.digests", self.dig), fofint(self.total), self.V, self.W)
        enumeration(st, "d.values", lambda i, k: bapp("d.values.has", i, k))
        enumeration(st, "d.digests", lambda i, k: bapp("d.digests.has", i, k))
        FN_AX["leaf"] = lambda node: [le(0, node), lt(node, 1 << 63)]
        self.leaf = leaf
        self.db, self.ref, self.get = gDB(st, self.base)
        es = [e for e in calls(vm, st, PL + "NewLiabilitySet", [self.pub, self.db, PyFn(lambda *a: None)]) if not e.st.ctx.inconsistent()]
        if len(es) != 1 or es[0].kind != "ret":
            raise Unsupported("NewLiabilitySet: %s" % es)
        self.st, self.ls = es[0].st, es[0].val
        if cached:
            # an earlier request for the root: whatever the store keeps of it is kept
            r = self.calls(self.st, "(*pol/pol.LiabilitySet).ProveTot", [self.ls])
            if len(r) != 1 or r[0].kind != "ret":
                raise Unsupported("ProveTot: %s" % r)
            self.st = r[0].st
        if tree:
            t = fld(vm, self.st, fld(vm, self.st, self.ls, "tree"), "Tree")
            root = newstruct(self.st, "pol/sparse.Vertex", True, key=SEMPTY, Data=Iface("string", SEMPTY), Descendants=NIL, Parent=NIL)
            self.vm.store(self.st, Ptr(t.ref, t.path + ("Root",)), root)

    def base(self, key):
        """content of the database: the root and, below it, its children"""
        if key is SEMPTY:
            return self.root
        if key.op == "sapp" and key.args[0] == "desc" and not self.leaf:
            i = key.args[1]
            return enc_vertex(fapp("d.bf", i), enc_map("d.values", lambda k: fapp("d.val", i, k), (i,)), enc_map("d.digests", lambda k: fapp("d.dig", i, k), (i,)),
                              fapp("d.sum", i), fapp("d.V", i), fapp("d.W", i))
        return None

    def update(self, st, new):
        """assign to a child of the root: the call that the tree makes for the root; new: the root has no node yet"""
        i = gLen(st, "index", 0, self.F)
        has = lambda k: bapp("desc.has", k)
        st.ctx = st.ctx.assume(has(i))
        el = (lambda k: Iface("int64", iapp("leaf", k), Not(has(k)))) if self.leaf else (lambda k: Iface("string", desc_key(k), Not(has(k))))
        upd = fld(self.vm, st, fld(self.vm, st, fld(self.vm, st, self.ls, "tree"), "Tree"), "UpdateInnerVertex")
        node = NIL if new else Iface("string", SEMPTY)
        return [e for e in self.vm.call_value(st, upd, [SEMPTY, node, gFun(self.F, el, "interface{}"), TRUE if self.leaf else FALSE, i]) if not e.st.ctx.inconsistent()]

    def calls(self, st, name, args):
        return [e for e in calls(self.vm, st, name, args) if not e.st.ctx.inconsistent()]


@lemma("C03.total", "C03", "(*pol/verkle.Vertex).FromBytes (*pol/verkle.Vertex).Values pol/pp.Open (pol/pol.TotalProof).Verify")
def _(vm, st0, ob):
    """ProveTot states the sum of the root and its proof verifies against the root's commitment, for all fan-outs, values and blinding factors"""
    for leaf in (True, False):
        for cached in (False, True):
            t = "leaf%d.cached%d" % (leaf, cached)
            w = World(vm, st0, leaf, cached)
            n = 0
            for e in w.calls(w.st, "(*pol/pol.LiabilitySet).ProveTot", [w.ls]):
                ob(t + ".proves", e.kind == "ret", "%s" % e)
                if e.kind != "ret":
                    continue
                ob(t + ".total", e.st.ctx.proves(eq(e.val.f["Sum"], w.total)), "the stated total is %s" % show(e.val.f["Sum"]))
                for e2 in w.calls(e.st, "(pol/pol.TotalProof).Verify", [e.val, w.pub, vm.newm(e.st, M("G1", w.V))]):
                    ob(t + ".verifies", is_nil(e2), "the honest total is refused: %s" % e2)
                    n += 1
            ob(t + ".reached", n > 0)


@lemma("C04.store", "C04", "")
def _(vm, st0, ob):
    """the root-caching store answers as the database does, whatever was asked and written before"""
    for n, (empty, cached, put) in enumerate((a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)):
        st = st0.clone()
        key = SEMPTY if empty else ssym("key", gLen(st, "key.len", 1))
        root, val, new = (ssym(x, gLen(st, x + ".len", 1)) for x in ("root", "val", "new"))
        db, ref, get = gDB(st, lambda k: root if k is SEMPTY else val if k is key else None)
        mem = newstruct(st, PL + "DBMemorizeRoot", True, DB=db, root=vbytes(root) if cached else NILSLICE)
        name = "(*pol/pol.DBMemorizeRoot)."
        bs = lambda k: NILSLICE if k is SEMPTY else vbytes(k)
        go = lambda s, m, *a: [e for e in calls(vm, s, name + m, [mem] + list(a)) if not e.st.ctx.inconsistent()]
        t = "c%d" % n
        k = 0
        for e in go(st, "Put", bs(key), vbytes(new)) if put else go(st, "Get", bs(key)):
            ob(t + ".returns", e.kind == "ret", "%s" % e)
            if e.kind != "ret":
                continue
            if not put:
                ob(t + ".result", vm.bytes_of(e.st, e.val) is (root if empty else val), "the store answers %s" % show(vm.bytes_of(e.st, e.val))[:300])
            for q, was in ((SEMPTY, root), (key, root if empty else val)):
                want = new if put and q is key else was
                ob(t + ".kept", get(e.st, q) is want, "the database holds %s" % (get(e.st, q),))
                for e2 in go(e.st.clone(), "Get", bs(q)):
                    ok = e2.kind == "ret" and vm.bytes_of(e2.st, e2.val) is want
                    ob(t + ".then", ok, "%s of %s after %s" % (e2, show(q), "a write" if put else "a read"))
                    k += 1
        ob(t + ".reached", k > 0)


@lemma("C04.root", "C04", "pol/pol.NewLiabilitySet (*pol/verkle.Vertex).FromBytes (*pol/verkle.Vertex).Bytes")
def _(vm, st0, ob):
    """no root before the first assignment; then the commitments of the node last written for the root, also if the root was handed out before"""
    w = World(vm, st0, True, False, tree=False)
    es = w.calls(w.st, "(*pol/pol.LiabilitySet).Root", [w.ls])
    ob("none", bool(es) and all(e.kind == "ret" and e.val.v[0] is NIL and e.val.v[1] is NIL for e in es), "%s" % es)
    R = lambda s, b: calls(vm, s, "(*pol/pol.LiabilitySet).Root", [b.ls])

    def same(t, e, V_, W_):
        ok = e.kind == "ret"
        ob(t, ok, "%s" % e)
        if ok:
            v, x = e.val.v
            ob(t + ".V", norm.field_equal(e.st.ctx, F_(vm, e.st, v), V_), "V is %s, want %s" % (show(F_(vm, e.st, v))[:300], show(V_)[:300]))
            ob(t + ".W", (x is NIL) == (W_ is None) and (W_ is None or norm.field_equal(e.st.ctx, F_(vm, e.st, x), W_)), "W is %s" % (x,))
    for leaf in (True, False):
        for before in (True, False):
            w = World(vm, st0, leaf, False)
            t = "leaf%d.asked%d" % (leaf, before)
            st = w.st
            if before:
                es = [e for e in R(st, w) if not e.st.ctx.inconsistent()]
                for e in es:
                    same(t + ".first", e, w.V, w.W)
                ob(t + ".one", len(es) == 1, "%d outcomes" % len(es))
                st = es[0].st
            n = 0
            for e in w.update(st.clone(), False):
                ob(t + ".updates", e.kind == "ret", "%s" % e)
                if e.kind != "ret":
                    continue
                wr = [b for k, b in e.st.heap[w.ref].v.v if k is SEMPTY]
                ob(t + ".written", bool(wr), "the root is not stored")
                if not wr:
                    continue
                d = dec_vertex(wr[-1])
                for e2 in R(e.st, w):
                    if not e2.st.ctx.inconsistent():
                        same(t + ".then", e2, d["V"], d["W"])
                        n += 1
            ob(t + ".reached", n > 0)


# ---------------------------------------------------------------- C01: an honest proof is accepted
class Path:
    """the nodes along the path of an identifier which has a liability, as the invariant of the tree (C06) has them"""

    def __init__(self, vm, st0):
        st = st0.clone()
        self.vm = vm
        self.K, self.n, self.pub = gPubC(st)
        st.ctx = st.ctx.assume(le(2, self.K))
        self.F = isub(self.n, 1)
        L = self.L = gLen(st, "L", 2, 1 << 15)
        self.last = isub(L, 1)
        self.path = gPath(self.F, L)(st)
        for f in ("v.int", "v.isum"):
            FN_AX[f] = lambda node: [le(0, node), lt(node, 1 << 63)]
        F, N = self.F, iadd(self.n, 1)
        self.N = N
        p = lambda i: iapp("path", i)
        last = self.last
        g = lambda x: schunk("g1", x)
        self.V, self.W = (lambda i: fapp("v.V", i)), (lambda i: fapp("v.W", i))
        self.sum = lambda i: fofint(iapp("v.isum", i))
        # the next node is an entry of its predecessor, with its sum and its digest
        self.has = lambda i, k: Or(eq(k, p(i)), bapp("v.has", i, k))
        self.val = lambda i, k: fofint(iapp("v.int", i, k))
        digest = lambda i: fite(eq(i, last), fe(schunk("sha", g(self.V(i)))), fe(schunk("sha", scat(g(self.V(i)), g(self.W(i))))))
        self.dig = lambda i, k: fite(eq(k, p(i)), digest(iadd(i, 1)), fapp("v.dig", i, k))
        q = fresh("q")
        Q_ = isym(q)
        st.ctx = st.ctx.assume(forall(q, ZERO, last, eq(iapp("v.int", Q_, p(Q_)), iapp("v.isum", iadd(Q_, 1)))))
        # the parameters are for as many pairs as the padding makes
        M_ = fld(vm, st, fld(vm, st, self.pub, "POEPP"), "G").n
        self.M = M_
        pl = iapp("path", last)
        st.ctx = st.ctx.assume(le(0, pl), lt(pl, F))
        self.ctx = st.ctx
        st.ctx = st.ctx.assume(le(last, M_), powtwo(M_), forall(q, ZERO, isub(M_, last), Not(powtwo(iadd(last, Q_)))))
        self.st = st

    def unfold(self, t):
        """commitments and sums by their definitions: every node commits to its entries and states their sum; hashes stay as they are"""
        al, F, N = fsym("α"), self.F, self.N
        kept, m = {}, {}
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x.op == "fe":
                kept[x] = fapp(fresh("hash"), *sorted((isym(v) for v in x.fv), key=lambda z: z.key))
                continue
            todo += x.args
            if x.op == "fapp" and x.args[0] in ("v.V", "v.W"):
                i = x.args[1]
                f, e = (self.val, self.sum(i)) if x.args[0] == "v.V" else (self.dig, F0)
                b = fapp("v.bf", i) if x.args[0] == "v.V" else F0
                m[x] = opening(N, lambda k: fite(lt(k, F), fite(self.has(i, k), f(i, k), F0), fite(eq(k, F), e, b)))
            elif x.op == "fofint" and x.args[0].op == "iapp" and x.args[0].args[0] == "v.isum":
                i = x.args[0].args[1]
                m[x] = Sum(ZERO, F, lambda k: fite(self.has(i, k), self.val(i, k), F0))
        r = replace(replace(replace(t, kept), m), {y: x for x, y in kept.items()})
        return self.unfold(r) if m else r

    def absurd(self, facts):
        """one of the facts contradicts what the nodes commit to"""
        c = self.ctx
        for f in facts:
            if f.op == "not" and f.args[0].op == "feq":
                x, y = f.args[0].args
                x, y = self.unfold(x), self.unfold(y)
                if norm.split_prove(c, lambda cc: norm.field_equal(cc, x, y)):
                    return True
        return False

    def least(self, c, m, k):
        """m = k, both the least power of two that is enough (the first case is a number below the other)"""
        return all(refuted_at(c, lt(x, y), isub(x, self.last)) for x, y in ((m, k), (k, m)))

    def vertex(self, i):
        leaf = eq(i, self.last)
        k = fresh("key")
        m = lambda has, val: MapP(MapObj("uint16", ZT, Lam(k, has(isym(k))), Lam(k, val(isym(k))), (), False, None))
        inF = lambda x: And(le(0, x), lt(x, self.F), self.has(i, x))
        return Ptr(Var(StructV(VX, {"BlindingFactor": M("Zr", fapp("v.bf", i), True), "sum": M("Zr", self.sum(i), True, iapp("v.isum", i)),
                                    "values": m(inF, lambda x: M("Zr", self.val(i, x), True, iapp("v.int", i, x))),
                                    "Digests": m(lambda x: And(Not(leaf), inF(x)), lambda x: M("Zr", self.dig(i, x), True)),
                                    "V": M("G1", self.V(i)), "W": M("G1", self.W(i), True, None, leaf)}), VX, False))


def at(c, st, sl, i):
    """element of a slice"""
    return aget(c, st.obj(sl.ref), iadd(sl.off, i), None, st)


def powtwo(x):
    return Or(*[eq(imod(x, 65536), 1 << k) for k in range(1, 16)])


def asint(c, x):
    """the integer that a scalar stands for"""
    if x.rep is not None:
        return x.rep
    f = x.f
    while f.op == "fite":
        d = c.decide(f.args[0])
        if d is None:
            raise NeedSplit(f.args[0])
        f = f.args[1 if d else 2]
    return f.args[0] if f.op == "fofint" else I(f.args[0]) if f.op == "fconst" else None


def small(c, x):
    """a scalar in [0, 2^63)"""
    i = asint(c, x)
    return i is not None and c.proves(And(le(0, i), lt(i, 1 << 63)))


def refuted_at(c, cond, i):
    c = c.assume(cond)
    return refute(c.instantiate([i]))


class Honest:
    """the parts of a proof, replaced by what is proved about them: a proof is accepted for the statement it is made for, if the prover
    is given a witness of it (C13, C15, C16); nothing is assumed about proofs made without a witness or checked for other statements"""

    def __init__(self, w):
        self.w = w
        self.contracts = {k: wrap_(f) for k, f in {
            BP + "ProveRange": self.range_, BP + "VerifyRange": self.vrange,
            "pol/sum.NewAggregatedArgument": self.sum_, "(*pol/sum.Proof).VerifyAggregated": self.vsum,
            "(*pol/poe.Equalities).Prove": self.eqs, "(*pol/poe.Equalities).Verify": self.veqs}.items()}

    def sk(self, c, name, lo, hi):
        k = isym(fresh(name))
        c = eqfree(c.assume(le(lo, k), lt(k, hi)))
        return k, c.instantiate([k])

    def commits(self, c, st, V_, vec, n, F_last, r):
        """V_ = Σ vec_j α^(j+1) + r α^(n+1)"""
        u = self.w.unfold
        f = lambda j: u(self.fel(c, st, vec, j))
        return norm.split_prove(c, lambda cc: norm.field_equal(cc, u(V_), fadd(Sum(ZERO, n, lambda j: fmul(f(j), fpow(fsym("α"), iadd(j, 1)))), fmul(r, F_last))))

    def fel(self, c, st, sl, j):
        c = c.assume(le(0, j), lt(j, sl.n))
        v = at(c, st, sl, j)
        if isinstance(v, M):
            if not c.proves(Not(v.nilc)):
                raise NeedSplit(v.nilc)
            return v.f
        return self.w.vm.mval(st, v).f

    def same(self, st, p, q):
        return p is q or isinstance(p, Ptr) and isinstance(q, Ptr) and p.ref is q.ref and p.path == q.path

    # range proofs
    def range_(self, vm, st, A):
        pp, V_, v, r = A
        w = self.w
        V_ = F_(vm, st, V_)
        ok = self.same(st, pp, fld(vm, st, w.pub, "RPPP")) and st.ctx.proves(eq(v.n, w.n)) and self.commits(st.ctx, st, V_, v, w.n, fpow(fsym("α"), iadd(w.n, 1)), F_(vm, st, r))
        if ok:
            j, c = self.sk(st.ctx, "j", 0, w.n)
            ok = norm.split_prove(c, lambda cc: small(cc, vm.mval(st, at(cc, st, v, j))))
        return Opq(schunk("rp" if ok else "not a range proof", V_))

    def vrange(self, vm, st, A):
        pp, rp, V_ = A
        w = self.w
        ok = self.same(st, pp, fld(vm, st, w.pub, "RPPP")) and isinstance(rp, Opq) and isinstance(rp.t, T) and rp.t.args[0] == "rp" and norm.field_equal(st.ctx, rp.t.args[1], F_(vm, st, V_))
        return NIL if ok else ErrV("range")

    # sum argument
    def sum_(self, vm, st, A):
        pp, V_, vs, r = A
        w = self.w
        m = V_.n
        ok = self.same(st, pp, fld(vm, st, w.pub, "SAPP")) and st.ctx.proves(And(le(1, m), eq(vs.n, m), eq(r.n, m)))
        if ok:
            k, c = self.sk(st.ctx, "k", 0, m)

            def go(cc):
                row = at(cc, st, vs, k)
                if not cc.proves(eq(row.n, w.n)):
                    return False
                f = lambda j: w.unfold(self.fel(cc, st, row, j))
                return (self.commits(cc, st, self.fel(cc, st, V_, k), row, w.n, fpow(fsym("α"), iadd(w.n, 1)), self.fel(cc, st, r, k))
                        and norm.field_equal(cc, f(w.F), Sum(ZERO, w.F, f)))
            ok = norm.split_prove(c, go)
        return Opq(("sum proof", V_, st.snapo(st.obj(V_.ref)))) if ok else Opq("not a sum proof")

    def vsum(self, vm, st, A):
        pf, pp, V_ = A
        ok = self.same(st, pp, fld(vm, st, self.w.pub, "SAPP")) and isinstance(pf, Opq) and isinstance(pf.t, tuple) and pf.t[0] == "sum proof"
        if ok:
            _, U_, o = pf.t
            k, c = self.sk(st.ctx, "k", 0, V_.n)
            ok = st.ctx.proves(eq(V_.n, U_.n)) and norm.split_prove(c, lambda cc: norm.field_equal(cc, self.fel(cc, st, V_, k), vm.mval(st, aget(cc, o, iadd(U_.off, k), None, st)).f))
        return NIL if ok else ErrV("sum")

    # equality proof
    def statement(self, vm, st, e):
        return [fld(vm, st, e, x) for x in ("V", "W", "I", "J")]

    def plain(self, vm, st, e):
        ro = fld(vm, st, e, "RO")
        return self.same(st, fld(vm, st, e, "PP"), fld(vm, st, self.w.pub, "POEPP")) and isinstance(ro, Clo) and ro.fn == "pol/poe.RO" and not ro.bind

    def eqs(self, vm, st, A):
        e, vv, ww = A
        w = self.w
        V_, W_, I_, J_ = S = self.statement(vm, st, e)
        m = V_.n
        M_ = fld(vm, st, fld(vm, st, w.pub, "POEPP"), "G").n
        c = st.ctx
        self.why = "parameters, or the number of pairs"
        ok = self.plain(vm, st, e) and c.proves(And(le(1, m), *[eq(x.n, m) for x in (W_, I_, J_, vv, ww)])) and w.least(c, m, w.M)
        if ok:
            k, c = self.sk(c, "k", 0, m)
            c = c.instantiate([k, iadd(k, 1)])

            def go(cc):
                if cc.decide(lt(k, w.last)) is None:
                    raise NeedSplit(lt(k, w.last))
                cc = cc.instantiate([k])
                a, b = at(cc, st, vv, k), at(cc, st, ww, k)
                i, j = at(cc, st, I_, k), at(cc, st, J_, k)
                self.why = "row lengths or indices"
                if not cc.proves(And(eq(a.n, w.N), eq(b.n, w.N), le(0, i), lt(i, w.n), le(0, j), lt(j, w.n))):
                    return False
                al = fsym("α")
                for x, row in ((V_, a), (W_, b)):
                    self.why = "not a commitment to the row"
                    if not norm.field_equal(cc, w.unfold(self.fel(cc, st, x, k)), Sum(ZERO, w.N, lambda t: fmul(w.unfold(self.fel(cc, st, row, t)), fpow(al, iadd(t, 1))))):
                        return False
                self.why = "entries do not agree"
                x, y = (asint(cc, M("Zr", self.fel(cc, st, r, q), True)) for r, q in ((a, i), (b, j)))
                self.why += " %s %s" % (x and show(x), y and show(y))
                return x is not None and y is not None and cc.proves(eq(x, y))
            ok = norm.split_prove(c, go)
        return Opq(("eq proof", S, st.clone())) if ok else Opq("not an equality proof: " + self.why)

    def veqs(self, vm, st, A):
        e, pf = A
        ok = self.plain(vm, st, e) and isinstance(pf, Opq) and isinstance(pf.t, tuple) and pf.t[0] == "eq proof"
        if ok:
            S, (_, R, s0) = self.statement(vm, st, e), pf.t
            c = st.ctx
            ok = all(self.w.least(c, x.n, y.n) for x, y in zip(S, R))
            if ok:
                for x, y in zip(S, R):
                    c = c.assume(eq(x.n, y.n))
                k, c = self.sk(c, "k", 0, S[0].n)

                def go(cc, x, y):
                    if cc.decide(lt(k, self.w.last)) is None:
                        raise NeedSplit(lt(k, self.w.last))
                    return veq(cc, st, at(cc, st, x, k), s0, at(cc, s0, y, k))
                ok = all(norm.split_prove(c, lambda cc: go(cc, x, y)) for x, y in zip(S, R))
        return NIL if ok else ErrV("equality")


def prover(vm, w, get):
    """a liability set whose tree answers requests by get"""
    C = dict(vm.contracts)
    C["(*pol/verkle.Tree).Get"] = wrap_(get)
    C.update(Honest(w).contracts)
    vm.contracts = C
    st = w.st
    id2path = PyFn(lambda vm_, s, A: [V.Ev("ret", s, w.path)])
    db = gDB(st, lambda k: None)[0]
    tree = newstruct(st, "pol/verkle.Tree", DB=db, PP=fld(vm, st, w.pub, "PPPP"), depth=ZERO,
                     Tree=newstruct(st, "pol/sparse.Tree", ID2Path=id2path, UpdateInnerVertex=NIL, FanOut=w.F, Root=NIL))
    return id2path, newstruct(st, PL + "LiabilitySet", DB=db, pp=w.pub, tree=tree)


@lemma("C01.absent", "C01", "(*pol/pol.LiabilitySet).ProveLiability")
def _(vm, st0, ob):
    """no proof for an identifier without a liability"""
    w = Path(vm, st0)
    id2path, ls = prover(vm, w, lambda vm, s, A: Tup((ZERO, NILSLICE, FALSE)))
    es = calls(vm, w.st, "(*pol/pol.LiabilitySet).ProveLiability", [ls, ssym("id", gLen(w.st, "idn"))])
    for e in es:
        ob("none", e.kind == "ret" and e.val.v[3] is FALSE, "%s" % str(e)[:500])
    ob("reached", bool(es))


@lemma("C01.accepted", "C01", "(*pol/pol.LiabilitySet).ProveLiability (pol/pol.LiabilityProof).Verify")
def _(vm, st0, ob):
    """the proof for an identifier with a liability is accepted for its amount, for all paths, fan-outs, values, randomness and numbers of pairs"""
    w = Path(vm, st0)
    id2path, ls = prover(vm, w, lambda vm, s, A: Tup((iapp("v.int", w.last, iapp("path", w.last)), gFun(w.L, w.vertex, "*pol/verkle.Vertex"), TRUE)))
    st = w.st
    id_ = ssym("id", gLen(st, "idn"))
    n = 0
    for e in calls(vm, st, "(*pol/pol.LiabilitySet).ProveLiability", [ls, id_]):
        ob("proves", e.kind == "ret", "%s" % str(e)[:500])
        if e.kind != "ret":
            continue
        amount, proof, times, ok = e.val.v
        ob("found", ok is TRUE, "no proof for an identifier with a liability")
        want = iapp("v.int", w.last, iapp("path", w.last))
        ob("amount", e.st.ctx.proves(eq(amount, want)), "the proof is made for %s" % show(amount)[:300])
        ob("stated", e.st.ctx.proves(eq(proof.f["LiabilityProof"].f["Sum"], want)), "the proof states %s" % show(proof.f["LiabilityProof"].f["Sum"])[:300])
        f = dict(proof.f)
        for nm, cnt, want_ in (("V", w.L, lambda k: M("G1", w.V(k))), ("W", w.last, lambda k: M("G1", w.W(k))), ("Digests", w.L, None), ("RangeProofs", w.L, None)):
            v = f[nm]
            ob(nm + ".count", e.st.ctx.proves(eq(v.n, cnt)), "%s has %s elements" % (nm, show(v.n)))
            if want_:
                why = []
                x = gFun(cnt, want_, "*github.com/IBM/mathlib.G1")
                ob(nm + ".are", norm.split_prove(e.st.ctx, lambda c: veq(c, e.st, v, e.st, x, why)), "; ".join(why)[:600])
                f[nm] = x
        proof = StructV(proof.t, f)
        for e2 in calls(vm, e.st, "(pol/pol.LiabilityProof).Verify", [proof, w.pub, id_, vm.newm(e.st, M("G1", w.V(ZERO))), vm.newm(e.st, M("G1", w.W(ZERO))), id2path]):
            ok = e2.kind == "ret" and errcond(e2.val.v[1]) is FALSE
            if not ok and w.absurd([f for f in e2.st.ctx.facts if f not in e.st.ctx.fset]):
                continue
            ob("verifies", ok, "an honest proof is refused: %s" % str(e2.val)[:300])
            n += 1
    ob("reached", n > 0)
