"""Contracts of package verkle: tree nodes, their encoding, and their update after an assignment."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq, oeq, beqv
from engine import ext as X
from engine.ext import enumeration, ENUM, map_has, map_get
from .common import *
from .pp import *
from .pp import strings_differ
from .bp import *

VK = "pol/verkle."
VX = VK + "Vertex"
MAPT = "map[uint16]*github.com/IBM/mathlib.Zr"
ZT = "*github.com/IBM/mathlib.Zr"
U16 = 1 << 16


# ---------------------------------------------------------------- node maps
def gMap(st, has, val, own=False):
    """map from positions to scalars"""
    k = fresh("key")
    return MapP(st.alloc(MapObj("uint16", ZT, Lam(k, has(isym(k))), Lam(k, M("Zr", val(isym(k)), True)), (), own, None)))


def symMap(st, n, own=False):
    return gMap(st, lambda k: bapp(n + ".has", k), lambda k: fapp(n + ".val", k), own)


def mapfun(vm, st, p):
    """(has, val) of a node map"""
    if not isinstance(p, MapP) or p.nilc is not FALSE:
        raise Unsupported("node map %r" % (p,))
    o = st.snapo(st.obj(p.ref))

    def val(k):
        w = map_get(st.ctx, o, k)[1]
        if w is NIL:
            return F0
        m = vm.mval(st, w)
        if not m.canon:
            raise Unsupported("node value out of range")
        return m.f
    return (lambda k: map_has(o, k)), val


def gVertex(st, tag="x", leaf=False):
    return newstruct(st, VX, BlindingFactor=gZr(tag + ".bf"), values=symMap(st, tag + ".values"), Digests=symMap(st, tag + ".digests"), sum=gZr(tag + ".sum"),
                     V=gG1(tag + ".V"), W=NIL if leaf else gG1(tag + ".W"))


# ---------------------------------------------------------------- encoding
def octets(s):
    return schunk("octets", s)


def enc_map(name, val, par=()):
    """the list of the entries of a map, in the order of its enumeration"""
    b = fresh("b")
    i = isym(b)
    k = iapp(name, *(tuple(par) + (i,)))
    n = iapp(name + ".n", *par)
    return schunk("list", n, smap(b, ZERO, n, schunk("struct", VK + "KV", octets(schunk("u16", k)), octets(schunk("zr", val(k))))))


def enc_vertex(bf, values, digests, sum_, V_, W_=None):
    """bytes of a node; values and digests are lists as enc_map gives them; the sum may not be reduced"""
    sum_ = X.zrbytes(sum_ if isinstance(sum_, M) else M("Zr", sum_, True))
    return schunk("asn1", schunk("struct", VK + "RawVertex", octets(schunk("zr", bf)), values, digests, octets(sum_), octets(schunk("g1", V_)),
                                 octets(SEMPTY if W_ is None else schunk("g1", W_))))


def dec_map(s):
    """(has, val, enumeration) of an encoded list of entries; None if it is not an enumeration of a map"""
    if s.op != "schunk" or s.args[0] != "list":
        return None
    if s.args[2] is SEMPTY:
        return (lambda k: FALSE), (lambda k: F0), None
    m = s.args[2]
    if m.op != "smap" or m.args[1] is not ZERO or m.args[2] is not s.args[1]:
        return None
    i, kv = isym(m.args[0]), m.args[3]
    try:
        _, t, (kc,), (vc,) = kv.args[0], kv.args[1], kv.args[2].args[1:], kv.args[3].args[1:]
        assert kc.args[0] == "u16" and vc.args[0] == "zr"
        key, val = kc.args[1], vc.args[1]
    except (ValueError, AssertionError, IndexError, AttributeError):
        return None
    if key.op != "iapp" or key.args[0] not in ENUM or key.args[-1] is not i or any(m.args[0] in a.fv for a in key.args[1:-1]):
        return None
    E, par = key.args[0], key.args[1:-1]
    if s.args[1] is not iapp(E + ".n", *par):
        return None
    vf = lambda k: subst(replace(val, {key: k}), {m.args[0]: iapp(E + ".ix", *(par + (k,)))})
    return (lambda k: ENUM[E](*(par + (k,)))), vf, E


def dec_vertex(s):
    """fields of an encoded node"""
    try:
        r = s.args[1]
        assert s.args[0] == "asn1" and r.args[:2] == ("struct", VK + "RawVertex")
        bf, vs, ds, sm, v, w = r.args[2:]
        o = [x.args[1] for x in (bf, sm, v, w)]
        assert o[0].args[0] == "zr" and o[1].args[0] in ("zr", "zrraw") and o[2].args[0] == "g1" and (o[3] is SEMPTY or o[3].args[0] == "g1")
        vm_, dm = dec_map(vs), dec_map(ds)
        assert vm_ and dm
    except (AssertionError, IndexError, AttributeError, ValueError):
        raise Unsupported("bytes of a node in an unknown form")
    return {"bf": o[0].args[1], "sum": o[1].args[1], "sumz": X.zr_from_bytes(o[1]), "V": o[2].args[1], "W": None if o[3] is SEMPTY else o[3].args[1], "values": vm_, "digests": dm}


def known_map(st, n):
    """an enumerated map that the input refers to"""
    enumeration(st, n + ".enum", lambda k: bapp(n + ".has", k))
    return enc_map(n + ".enum", lambda k: fapp(n + ".val", k))


def vbytes(s):
    n = slen(s)
    return SliceV(AObj("uint8", n, s, None, (), False, "ext"), ZERO, n)


def fb_gen(vm, st0):
    out = []
    for leaf, sm in ((True, fsym("x.sum")), (False, fsym("x.sum")), (False, M("Zr", fsym("x.sum"), False))):
        st = st0.clone()
        s = enc_vertex(fsym("x.bf"), known_map(st, "x.values"), known_map(st, "x.digests"), sm, fsym("x.V"), None if leaf else fsym("x.W"))
        v = newstruct(st, VX, BlindingFactor=NIL, values=NIL, Digests=NIL, sum=NIL, V=NIL, W=NIL)
        out.append((st, [v, vbytes(s)]))
    return out


@contract("(*pol/verkle.Vertex).FromBytes", fb_gen, "C04 C06 C07")
def _(vm, st, A):
    p, b = A
    d = dec_vertex(vm.bytes_of(st, b))
    o = st.obj(p.ref)
    if p.path or o.v.f["W"] is not NIL:
        raise Unsupported("decoding into a node that has content")
    f = {"BlindingFactor": M("Zr", d["bf"], True), "sum": d["sumz"], "V": M("G1", d["V"])}
    f = {k: vm.newm(st, m) for k, m in f.items()}
    f["W"] = NIL if d["W"] is None else vm.newm(st, M("G1", d["W"]))
    for n, (has, val, _) in (("values", d["values"]), ("Digests", d["digests"])):
        f[n] = gMap(st, has, val, True)
    st.heap[p.ref] = o.rep_(v=StructV(VX, f))
    return None


def vb_gen(vm, st0):
    out = []
    for leaf in (True, False):
        st = st0.clone()
        out.append((st, [gVertex(st, leaf=leaf)]))
    return out


def fields(vm, st, p):
    f = lambda n: fld(vm, st, p, n)
    w = f("W")
    W_ = None if w is NIL else vm.mval(st, w)
    if W_ is not None and W_.nilc is not FALSE:
        raise Unsupported("node that may have a digest commitment")
    if not vm.mval(st, f("BlindingFactor")).canon:
        raise Unsupported("blinding factor out of range")
    return {"bf": F_(vm, st, f("BlindingFactor")), "sum": F_(vm, st, f("sum")), "sumz": vm.mval(st, f("sum")), "V": F_(vm, st, f("V")), "W": None if W_ is None else W_.f,
            "values": mapfun(vm, st, f("values")), "digests": mapfun(vm, st, f("Digests"))}


def samemap(ctx, a, b):
    """two maps given by (has, val): '' or what differs"""
    k = isym(fresh("key"))
    c0 = ctx.assume(le(0, k), lt(k, U16))
    why = []

    def go(c):
        p, q = a[0](k), b[0](k)
        if not beqv(c, p, q):
            why.append("keys: %s vs %s" % (show(p)[:200], show(q)[:200]))
            return False
        c = c.assume(p)
        if c.inconsistent():
            return True
        x, y = a[1](k), b[1](k)
        if not norm.field_equal(c, x, y):
            why.append("values: %s vs %s" % (show(x)[:200], show(y)[:200]))
            return False
        return True
    return "" if norm.split_prove(c0, go) else (why or ["?"])[-1]


def samefields(ob, tag, ctx, a, b):
    for n in ("bf", "sum", "V"):
        ob("%s.%s" % (tag, n), norm.split_prove(ctx, lambda c: norm.field_equal(c, a[n], b[n])), "%s vs %s" % (show(a[n])[:300], show(b[n])[:300]))
    ok = (a["W"] is None) == (b["W"] is None) and (a["W"] is None or norm.split_prove(ctx, lambda c: norm.field_equal(c, a["W"], b["W"])))
    ob(tag + ".W", ok, "%s vs %s" % (a["W"] and show(a["W"])[:300], b["W"] and show(b["W"])[:300]))
    for n in ("values", "digests"):
        w = samemap(ctx, a[n], b[n])
        ob("%s.%s" % (tag, n), not w, w)


def vb_custom(vm, st, A, body):
    """the entries may come in any order, each once; the rest is determined"""
    out = []
    ob = lambda n, ok, why="": out.append((n, ok, why))
    want = fields(vm, st, A[0])
    for i, e in enumerate(body):
        ob("p%d.returns" % i, e.kind == "ret", "%s" % e)
        if e.kind == "ret":
            samefields(ob, "p%d" % i, e.st.ctx, dec_vertex(vm.bytes_of(e.st, e.val)), want)
            for r, o in st.heap.items():
                ob("p%d.frame%s" % (i, r), oeq(e.st.ctx, e.st, e.st.heap.get(r), st, o, []), "the node changed")
    ob("reached", bool(body))
    return out


@contract("(*pol/verkle.Vertex).Bytes", vb_gen, "C04 C06 C07", custom=vb_custom)
def _(vm, st, A):
    d = fields(vm, st, A[0])
    if st.loopv:
        raise Unsupported("encoding a node inside of a loop")
    l = []
    for n in ("values", "digests"):
        E = st.freshname("ord")
        enumeration(st, E, d[n][0])
        l.append(enc_map(E, d[n][1]))
    return vm.mkbytes(st, enc_vertex(d["bf"], l[0], l[1], d["sumz"], d["V"], d["W"]))


@contract("(*pol/verkle.Vertex).Digest", vb_gen, "C07 C06")
def _(vm, st, A):
    f = lambda n: fld(vm, st, A[0], n)
    v, w = F_(vm, st, f("V")), f("W")
    s = schunk("g1", v)
    if w is not NIL:
        s = scat(s, schunk("g1", F_(vm, st, w)))
    return vm.newm(st, M("Zr", fe(schunk("sha", s)), True))


@lemma("C07.roundtrip", "C07", "(*pol/verkle.Vertex).Bytes (*pol/verkle.Vertex).FromBytes")
def _(vm, st0, ob):
    """decoding the encoding of any node gives back that node and its digest, with and without a digest commitment"""
    for leaf in (True, False):
        st = st0.clone()
        x = gVertex(st, leaf=leaf)
        want = fields(vm, st, x)
        n = 0
        for e in calls(vm, st, "(*pol/verkle.Vertex).Bytes", [x]):
            ob("leaf%d.encodes" % leaf, e.kind == "ret", "%s" % e)
            y = newstruct(e.st, VX, BlindingFactor=NIL, values=NIL, Digests=NIL, sum=NIL, V=NIL, W=NIL)
            for e2 in calls(vm, e.st, "(*pol/verkle.Vertex).FromBytes", [y, e.val]):
                ob("leaf%d.decodes" % leaf, e2.kind == "ret", "%s" % e2)
                samefields(ob, "leaf%d" % leaf, e2.st.ctx, fields(vm, e2.st, y), want)
                d1, d2 = (calls(vm, e2.st, "(*pol/verkle.Vertex).Digest", [p])[0] for p in (x, y))
                ob("leaf%d.digest" % leaf, veq(d1.st.ctx, d1.st, d1.val, d2.st, d2.val), "digests differ")
                n += 1
        ob("leaf%d.reached" % leaf, n > 0)


@lemma("C07.digest", "C07", "(*pol/verkle.Vertex).Digest")
def _(vm, st0, ob):
    """nodes with different commitments have different digests (SHA-256 and the encodings being injective)"""
    D = lambda st, x: (lambda e: F_(vm, e.st, e.val))(calls(vm, st, "(*pol/verkle.Vertex).Digest", [x])[0])
    for i, (a, b) in enumerate([(True, True), (False, False), (True, False)]):
        st = st0.clone()
        x, y = gVertex(st, "x", a), gVertex(st, "y", b)
        p, q = D(st, x), D(st, y)
        ob("s%d.shape" % i, p.op == "fe" and q.op == "fe", "%s %s" % (p, q))
        if a == b:
            e = feq(fsym("x.V"), fsym("y.V"))
            c = st.ctx.assume(Not(e))
            ob("s%d.V" % i, strings_differ(c, p.args[0], q.args[0]), "digest does not depend on V")
            if not a:
                c = st.ctx.assume(Not(feq(fsym("x.W"), fsym("y.W"))))
                ob("s%d.W" % i, strings_differ(c, p.args[0], subst(q.args[0], {"y.V": fsym("x.V")})), "digest does not depend on W")
        else:
            ob("s%d.len" % i, strings_differ(st.ctx, p.args[0], q.args[0]), "a node with a digest commitment has the digest of one without")


# ---------------------------------------------------------------- nodes in the database
def gDB(st, base):
    """database whose content before the first write is base: key -> bytes (as terms); different key terms are different keys"""
    ref = st.alloc(Var(ArrV(()), "database", False))

    def get(s, key):
        for k, b in reversed(s.heap[ref].v.v):
            if k is key:
                return b
        return base(key)

    def method(vm, s, meth, args):
        key = vm.bytes_of(s, args[0])
        if meth == "Get":
            b = get(s, key)
            if b is None:
                raise Unsupported("database key %s" % show(key))
            s.ctx = s.ctx.assume(le(1, slen(b))) if b is not SEMPTY else s.ctx
            return [Ev("ret", s, vbytes(b))]
        if meth == "Put":
            o = s.heap[ref]
            s.heap[ref] = o.rep_(v=ArrV(o.v.v + ((key, vm.bytes_of(s, args[1])),)))
            return [Ev("ret", s, None)]
        raise Unsupported("database method " + meth)
    return Iface("database", PyFn(method)), ref, get


KEY = ssym("key", isym("key.len"))


def desc_key(i):
    return mk("sapp", ("desc", i), "S")



class Setting:
    """a tree built by NewVerkleTree over a database that holds the node `key` (if old) and its children (if inner)"""

    def __init__(self, vm, st0, inner, old, childleaf=True):
        st = st0.clone()
        F = self.F = gLen(st, "F", 1, 65533)
        self.inner, self.old = inner, old
        self.childleaf = childleaf
        self.index = gLen(st, "index", 0, F)
        # children
        self.has = (lambda k: bapp("desc.has", k)) if not old else (lambda k: bapp("desc.has", k))
        self.val = (lambda k: fapp("d.sum", k)) if inner else (lambda k: fofint(iapp("leaf", k)))
        FN_AX["leaf"] = lambda node: [le(0, node), lt(node, 1 << 63)]
        enumeration(st, "d.values", lambda i, k: bapp("d.values.has", i, k))
        enumeration(st, "d.digests", lambda i, k: bapp("d.digests.has", i, k))
        # the stored node
        inF = lambda k: And(bapp("x.has", k), le(0, k), lt(k, F))
        enumeration(st, "x.values", inF)
        enumeration(st, "x.digests", inF if inner else (lambda k: FALSE))
        self.xhas, self.xval, self.xdig = inF, (lambda k: fapp("x.val", k)), (lambda k: fapp("x.dig", k))
        self.db, self.ref, self.get = gDB(st, self.base)
        f = [e for e in calls(vm, st, VK + "NewVerkleTree", [F, PyFn(lambda *a: None), self.db]) if not e.st.ctx.inconsistent()]
        if len(f) != 1 or f[0].kind != "ret":
            raise Unsupported("NewVerkleTree: %s" % f)
        self.st, self.tree = f[0].st, f[0].val
        self.pp = fld(vm, self.st, self.tree, "PP")
        self.vm = vm
        if old:
            s = self.st
            self.xsum = Sum(ZERO, F, lambda k: fite(inF(k), self.xval(k), F0))
            self.xV = self.commit(s, self.vec(lambda k: fite(inF(k), self.xval(k), F0), self.xsum, fsym("x.bf")))
            self.xW = self.commit(s, self.vec(lambda k: fite(inF(k), self.xdig(k), F0), F0, F0)) if inner else None

    def base(self, key):
        if key is KEY and self.old:
            l = [enc_map("x.values", self.xval), enc_map("x.digests", self.xdig) if self.inner else schunk("list", ZERO, SEMPTY)]
            return enc_vertex(fsym("x.bf"), l[0], l[1], self.xsum, self.xV, self.xW)
        if key.op == "sapp" and key.args[0] == "desc" and self.inner:
            i = key.args[1]
            return enc_vertex(fapp("d.bf", i), enc_map("d.values", lambda k: fapp("d.val", i, k), (i,)), enc_map("d.digests", lambda k: fapp("d.dig", i, k), (i,)),
                              fapp("d.sum", i), fapp("d.V", i), None if self.childleaf else fapp("d.W", i))
        return None

    def digest(self, k):
        s = schunk("g1", fapp("d.V", k))
        return fe(schunk("sha", s if self.childleaf else scat(s, schunk("g1", fapp("d.W", k)))))

    def vec(self, at, last, blind):
        F = self.F
        return lambda k: fite(lt(k, F), at(k), fite(eq(k, F), last, blind))

    def commit(self, st, f):
        """what the contract of Commit says about the vector f"""
        r = calls(self.vm, st, PP_ + "Commit", [self.pp, gFun(iadd(self.F, 2), lambda k: M("Zr", f(k), True), KT["Zr"])])
        if len(r) != 1 or r[0].kind != "ret":
            raise Unsupported("Commit")
        return F_(self.vm, r[0].st, r[0].val)

    def descendants(self):
        if self.inner:
            el = lambda k: Iface("string", desc_key(k), Not(self.has(k)))
        else:
            el = lambda k: Iface("int64", iapp("leaf", k), Not(self.has(k)))
        return gFun(self.F, el, "interface{}")


def update_lemma(name, inner, old, childleaf=True):
    @lemma("C06." + name, "C06", VK + "NewVerkleTree (*pol/verkle.Vertex).Bytes " + PP_ + "Commit" + (" (*pol/verkle.Vertex).FromBytes" if inner or old else ""))
    def _(vm, st0, ob):
        S = Setting(vm, st0, inner, old, childleaf)
        st = S.st.clone()
        if old:
            st.ctx = st.ctx.assume(S.has(S.index))         # the child that changed is there
        node = Iface("string", KEY) if old else NIL
        upd = fld(vm, st, fld(vm, st, S.tree, "Tree"), "UpdateInnerVertex")
        n = 0
        evs = vm.call_value(st.clone(), upd, [KEY, node, S.descendants(), FALSE if inner else TRUE, S.index])
        for e in evs:
            if e.st.ctx.inconsistent():
                continue
            t = "p%d" % n
            n += 1
            ob(t + ".returns", e.kind == "ret", "%s" % e)
            if e.kind != "ret":
                continue
            ob(t + ".key", isinstance(e.val, Iface) and e.val.t == "string" and e.val.v is KEY, "the node is recorded under %s" % (e.val,))
            w = e.st.heap[S.ref].v.v
            ob(t + ".writes", bool(w) and all(k is KEY for k, b in w), "writes to %s" % [show(k) for k, b in w])
            if not w:
                continue
            d = dec_vertex(w[-1][1])
            i = S.index
            if old:
                has = lambda k: Or(S.xhas(k), eq(k, i))
                val = lambda k: fite(eq(k, i), S.val(i), S.xval(k))
                dig = lambda k: fite(eq(k, i), S.digest(i), S.xdig(k))
            else:
                has = lambda k: And(le(0, k), lt(k, S.F), S.has(k))
                val, dig = S.val, S.digest
            if old:
                at = lambda new, was: lambda k: fite(eq(k, i), new(i), fite(S.xhas(k), was(k), F0))
                vals, digs = at(S.val, S.xval), at(S.digest, S.xdig)
            else:
                vals, digs = (lambda k: fite(has(k), val(k), F0)), (lambda k: fite(has(k), dig(k), F0))
            total = Sum(ZERO, S.F, vals)
            bf = fsym("x.bf") if old else d["bf"]
            if not old:
                ob(t + ".coin", bf.op == "fapp" and bf.args[0].startswith("rnd"), "the blinding factor is %s" % show(bf))
            want = {"bf": bf, "sum": total, "V": S.commit(e.st, S.vec(vals, total, bf)), "W": S.commit(e.st, S.vec(digs, F0, F0)) if inner else None,
                    "values": (has, val), "digests": (has, dig) if inner else ((lambda k: FALSE), (lambda k: F0))}
            samefields(ob, t, e.st.ctx, d, want)
        ob("reached", n > 0)


update_lemma("leaves.new", False, False)
update_lemma("leaves.update", False, True)
update_lemma("inner.new", True, False)
update_lemma("inner.new2", True, False, False)
update_lemma("inner.update", True, True)
update_lemma("inner.update2", True, True, False)


# ---------------------------------------------------------------- reading nodes
def row(vm, st, p):
    """entries of a node's committed vector before the blinding factor: at(k, n)"""
    has, val = mapfun(vm, st, fld(vm, st, p, "values"))
    s = F_(vm, st, fld(vm, st, p, "sum"))
    return lambda k, n: fite(eq(k, isub(n, 1)), s, fite(has(k), val(k), F0))


def va_gen(vm, st):
    return [(st, [gVertex(st), gLen(st, "n", 0, U16 - 1)])]


@contract("(*pol/verkle.Vertex).Values", va_gen, "C01 C03 C06")
def _(vm, st, A):
    at = row(vm, st, A[0])
    n = A[1]
    return mkvec(st, n, lambda k: at(k, n))
