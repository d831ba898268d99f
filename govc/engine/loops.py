"""Loop summaries: inferred closed forms, re-verified inductively on the loop body."""
from .terms import *
from .ctx import NeedSplit, is_intlike, FN_AX
from . import norm
from .values import *
from .compare import veq, oeq
from . import vm as _vm

LOG = []
DBG = [False]
UNROLL = 4
HINTS = {}       # function name -> unroll bound
HAVOC = [False]  # may strings without a closed form be unknown?
DEFHINT = [None] # unroll bound of loops not otherwise named, while a lemma asks for it


def dbg(*a):
    if DBG[0]:
        print(*a)


def discriminate(c, others):
    """a small subset of the facts c that separates this path from the other paths"""
    left = [set(o) for o in others]
    out = []
    for f in c:
        nf = Not(f)
        hit = [o for o in left if nf in o]
        if hit:
            out.append(f)
            left = [o for o in left if nf not in o]
            if not left:
                return out
    return list(c)


BINDERS = {"e", "q", "s", "p", "z", "b", "u", "k", "ix", "key"}


def born_after(name, n0):
    """is this a symbol made up after the mark (names of bound variables aside)"""
    i = name.rfind("!")
    return i >= 0 and name[:i] not in BINDERS and name[i + 1:].isdigit() and int(name[i + 1:]) > n0


def resolve(paths):
    """join pairs of paths which differ in one literal only"""
    cs = [list(dict.fromkeys(p)) for p in paths]
    again = True
    while again and len(cs) > 1:
        again = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                a, b = set(cs[i]), set(cs[j])
                da, db = a - b, b - a
                if not da or not db or len(da) == 1 and len(db) == 1 and Not(next(iter(da))) is next(iter(db)):
                    m = [f for f in cs[i] if f in b]
                    cs = [c for k, c in enumerate(cs) if k not in (i, j)] + [m]
                    again = True
                    break
            if again:
                break
    return cs


class NoSolve(Exception):
    pass


def one_iter(vm, st, fr, header, blocks, phivals):
    st = st.clone()
    st.regs.update(phivals)
    np = 0
    for ins in fr["fn"].blocks[header]["instrs"]:
        if ins["op"] != "Phi":
            break
        np += 1
    return vm.run(st, fr, header, np, None, (header, blocks))


def phis_of(fr, header):
    return [i for i in fr["fn"].blocks[header]["instrs"] if i["op"] == "Phi"]


def edge_vals(vm, st, fr, header, prev):
    blk = fr["fn"].blocks[header]
    pi = blk["preds"].index(prev)
    return {p["n"]: vm.val(st, fr, p["edges"][pi]) for p in phis_of(fr, header)}


MANUAL = [None]      # stated loop invariants: handler(vm, state, frame, header, blocks, initial values) -> outcomes, or None


def handle(vm, st0, fr, header, prev, blocks):
    vm.stats["loops"] += 1
    init = edge_vals(vm, st0, fr, header, prev) if prev is not None else {}
    if MANUAL[0] is not None and prev is not None:
        r = MANUAL[0](vm, st0, fr, header, blocks, init)
        if r is not None:
            return r
    hint = HINTS.get(fr["fn"].name) or DEFHINT[0]
    r = unroll(vm, st0, fr, header, blocks, init, hint)
    if r is not None:
        return r
    return Summary(vm, st0, fr, header, blocks, init).solve()


def unroll(vm, st0, fr, header, blocks, init, hint):
    lim = hint or UNROLL
    work = [(st0, init)]
    out = []
    for it in range(lim + 1):
        nxt = []
        for st, ph in work:
            try:
                evs = one_iter(vm, st, fr, header, blocks, ph)
            except Unsupported:
                if hint:
                    raise
                return None
            backs = [e for e in evs if e.kind == "back"]
            oth = [e for e in evs if e.kind != "back"]
            if not hint and backs and oth:
                return None
            out += oth
            for b in backs:
                nxt.append((b.st, edge_vals(vm, b.st, fr, header, b.prev)))
        if not nxt:
            return out
        if len(nxt) > (64 if hint else 1):
            return None
        work = nxt
    return None


def simp_ite(ctx, c, a, b):
    """ite(c,a,b) on F/I/S terms, collapsing when one branch covers both"""
    if a is b:
        return a
    f = {"F": fite, "I": iite, "S": site}[a.sort]

    def same(cc):
        if cc.inconsistent():
            return True
        try:
            if a.sort == "F":
                return norm.field_equal(cc, a, b)
            if a.sort == "I":
                return cc.proves(eq(a, b))
            return norm.bytes_equal(cc, a, b)
        except NeedSplit:
            return False
    if same(ctx.assume(c)):
        return b
    if same(ctx.assume(Not(c))):
        return a
    return f(c, a, b)


def leafpaths(v, pre=()):
    for k, x in v.f.items():
        if isinstance(x, StructV):
            yield from leafpaths(x, pre + (k,))
        else:
            yield pre + (k,)


def getpath(v, path):
    for k in path:
        v = v.f[k]
    return v


def setpath(v, path, x):
    f = dict(v.f)
    f[path[0]] = x if len(path) == 1 else setpath(f[path[0]], path[1:], x)
    return StructV(v.t, f)


class Summary:
    def __init__(self, vm, st0, fr, header, blocks, init):
        self.vm, self.st0, self.fr, self.header, self.blocks = vm, st0, fr, header, blocks
        self.t = isym(fresh("t"))
        self.tn = self.t.args[0]
        self.init = init                    # phi name -> value
        self.gens = {}                      # loc -> generic value / object
        self.sol = {}                       # loc -> candidate (value/object over t)
        self.modeB = set()
        self.unknown = set()                # locations of which nothing is claimed
        self.U = set()
        self.recs = {}                      # loc -> rec info
        self.own = {}
        self.hav = {}                       # loc -> base identity
        self.guess = []                     # facts used only while looking for candidates
        self.name = "%s/%d" % (fr["fn"].name, header)

    # ------------------------------------------------------------ state at iteration t
    def initial(self, loc):
        return self.curval(loc, self.init, self.st0)

    def curval(self, loc, phi, st):
        if loc[0] == "phi":
            return phi[loc[1]]
        if loc[0] == "fld":
            v = st.heap[loc[1]].v
            for k in loc[2]:
                v = v.f[k]
            return v
        return st.heap[loc[1]]

    def state(self, tval=None, ctx=None):
        """state at the loop head after tval (default: the symbol t) iterations"""
        st = self.st0.clone()
        if ctx is not None:
            st.ctx = ctx
        ph = dict(self.init)
        cur = {}
        for loc in list(self.sol) + [l for l in self.gens if l not in self.sol]:
            if loc in self.sol:
                v = self.sol[loc]
                if tval is not None:
                    m = {self.tn: tval}
                    v = osubst(v, m) if isinstance(v, HEAPCLS) else vsubst(v, m)
            else:
                v = self.gens[loc]
            if loc[0] == "phi":
                v = self.realize(st, loc, v)
                ph[loc[1]] = v
            elif loc[0] == "fld":
                v = self.realize(st, loc, v)
                o = st.heap[loc[1]]
                st.heap[loc[1]] = Var(setpath(o.v, loc[2], v), o.t, o.own)
            else:
                st.heap[loc[1]] = v
            cur[loc] = v
        self.cur = cur
        return st, ph

    def realize(self, st, loc, v):
        """turn a candidate value into run-time values with owned storage where the code owns it"""
        if isinstance(v, M) and self.own.get(loc) and v.nilc is FALSE:
            return Ptr(st.alloc(Cell(v.kind, v.f, v.canon, v.rep)))
        if isinstance(v, SliceV) and isinstance(v.ref, AObj) and v.ref.own:
            return SliceV(st.alloc(v.ref), v.off, v.n)
        return v

    # ------------------------------------------------------------ one pass
    def iterate(self):
        st, ph = self.state()
        self.n0 = freshmark()
        st.ctx = st.ctx.assume(le(0, self.t))
        if any(l not in self.sol for l in self.gens):
            st.ctx = st.ctx.assume(*self.guess)
        st.loopv = st.loopv + (self.t,)
        st.cnt = dict(st.cnt)
        self.base = st.ctx
        self.itst = st
        self.ph = ph
        evs = one_iter(self.vm, st, self.fr, self.header, self.blocks, ph)
        live = []
        for e in evs:
            if not e.st.ctx.inconsistent():
                live.append(e)
        return live

    def newvals(self, e):
        """loc -> new value for a back event"""
        r = {}
        nv = edge_vals(self.vm, e.st, self.fr, self.header, e.prev)
        for n, v in nv.items():
            r[("phi", n)] = v
        for oid, o in self.itst.heap.items():
            o2 = e.st.heap.get(oid)
            if o2 is not o and oid in self.st0.heap:
                r[("heap", oid)] = o2
            elif ("heap", oid) in self.gens:
                r[("heap", oid)] = o2
        for l in list(r):
            if l[0] == "heap" and l not in self.gens:
                o, o2 = self.itst.heap[l[1]], r[l]
                if isinstance(o, Var) and isinstance(o.v, StructV) and isinstance(o2, Var) and isinstance(o2.v, StructV) and o.own == o2.own:
                    del r[l]
                    for path in leafpaths(o.v):
                        r[("fld", l[1], path)] = getpath(o2.v, path)
        for l in self.gens:
            if l[0] == "fld" and l not in r:
                r[l] = self.curval(l, None, e.st)
        return r

    def solve(self):
        for rnd in range(40):
            evs = self.iterate()
            backs = [e for e in evs if e.kind == "back"]
            if not backs:
                return self.finish_noback(evs)
            news = [self.newvals(e) for e in backs]
            # 1. new varying locations
            added = False
            locs = {}
            for nv in news:
                for l in nv:
                    locs[l] = 1
            for loc in locs:
                if loc in self.gens or loc in self.sol:
                    continue
                cur = self.curval(loc, self.init, self.itst)
                for e, nv in zip(backs, news):
                    v = nv.get(loc, cur)
                    if not self.same(e, cur, v, loc):
                        dbg(self.name, "varying", loc, cur, v)
                        v0 = self.initial(loc)
                        if isinstance(v0, SliceV) and isinstance(v, SliceV) and v.ref is not v0.ref:
                            self.modeB.add(loc)
                            self.gens[loc] = self.genB(loc, v0, [n_.get(loc) for n_ in news], backs)
                        else:
                            self.gens[loc] = self.gen(loc, v0)
                        added = True
                        break
            if added:
                continue
            # slices whose storage changed: switch to a havocked content
            for loc in list(self.gens):
                if loc in self.sol or loc in self.modeB:
                    continue
                g = self.cur.get(loc)
                if isinstance(g, SliceV):
                    for nv in news:
                        v = nv.get(loc)
                        if not (isinstance(v, SliceV) and v.ref is g.ref):
                            self.modeB.add(loc)
                            self.gens[loc] = self.genB(loc, self.initial(loc), [nv.get(loc) for nv in news], backs)
                            added = True
                            break
            if added:
                continue
            todo = [l for l in self.gens if l not in self.sol]
            if not todo:
                return self.verify(evs, backs, news)
            merged = self.merge(backs, news, todo)
            progress = False
            for loc in todo:
                try:
                    c = self.solve_loc(loc, self.initial(loc), merged[loc], self.cur[loc])
                except NoSolve as x:
                    dbg(self.name, "unsolved", loc, x)
                    continue
                dbg(self.name, "solved", loc, c)
                self.sol[loc] = c
                progress = True
                if rnd < 30:
                    pass
            if progress:
                continue
            if self.havoc(todo):
                continue
            if not self.recursive(todo, merged):
                raise Unsupported("loop %s: no closed form for %s" % (self.name, [(l, self.cur[l], merged[l]) for l in todo][:3]))
        raise Unsupported("loop %s: no summary" % self.name)

    def same(self, e, cur, v, loc):
        if cur is v:
            return True
        if isinstance(cur, HEAPCLS):
            if isinstance(cur, AObj) and isinstance(v, AObj) and not (cur.n is v.n):
                return False
            return norm.split_prove(e.st.ctx, lambda c: oeq(c, self.itst, cur, e.st, v, []))
        if isinstance(cur, Ptr) and isinstance(v, Ptr) and cur.ref is v.ref and cur.path == v.path:
            return True
        if isinstance(cur, (Ptr, SliceV)) and isinstance(v, (Ptr, SliceV)):
            if isinstance(v, SliceV) and isinstance(cur, SliceV) and v.ref is cur.ref:
                return e.st.ctx.proves(And(eq(v.off, cur.off), eq(v.n, cur.n)))
            return False
        return norm.split_prove(e.st.ctx, lambda c: veq(c, self.itst, cur, e.st, v))

    # ------------------------------------------------------------ generic values
    def sym(self, sort):
        n = fresh("h")
        self.U.add(n)
        return mk("sym", (n,), sort)

    def symI(self, v0):
        h = self.sym("I")
        if v0 is not None and self.st0.ctx.proves(le(0, v0)):
            self.guess.append(le(0, h))
        return h

    def gen(self, loc, v):
        if isinstance(v, T) and v.sort == "I":
            return self.symI(v)
        if isinstance(v, T):
            return self.sym(v.sort) if v.sort != "S" else self.ssym()
        if isinstance(v, M):
            return M(v.kind, self.sym("F") if v.f is not None else None, v.canon, self.symI(v.rep) if v.kind == "Big" else None, v.nilc)
        if isinstance(v, Cell):
            return Cell(v.kind, self.sym("F") if v.f is not None else None, v.canon, self.symI(v.rep) if v.kind == "Big" else None, v.own)
        if isinstance(v, Ptr) and not v.path and isinstance(self.st0.obj(v.ref), Cell):
            o = self.st0.obj(v.ref)
            self.own[loc] = o.own
            return M(o.kind, self.sym("F") if o.f is not None else None, o.canon, self.symI(o.rep) if o.kind == "Big" else None)
        if isinstance(v, SliceV):
            if v.ref is None:
                return SliceV(None, self.sym("I"), self.sym("I"))
            return SliceV(v.ref, self.sym("I"), self.sym("I"))
        if isinstance(v, StructV):
            return StructV(v.t, {k: self.gen(loc, x) for k, x in v.f.items()})
        if isinstance(v, ArrV):
            return ArrV(tuple(self.gen(loc, x) for x in v.v))
        if isinstance(v, Var) and v.t == "sync/atomic.Value" and errcond(v.v) is not None:
            return Var(ErrC(self.sym("B")), v.t, v.own)
        if isinstance(v, Var):
            return Var(self.gen(loc, v.v), v.t, v.own)
        if isinstance(v, (HObj, Buf)):
            return v.rep_(s=self.ssym())
        if isinstance(v, AObj):
            return self.gena(loc, v)
        if isinstance(v, MapObj):
            if v.kt != "uint16":
                raise Unsupported("loop over a map of " + v.kt)
            n, k = fresh("hv"), fresh("key")
            self.U.add(n)
            return MapObj(v.kt, v.et, Lam(k, bapp("hv", isym(n), isym(k))), Lam(k, self.elemgen(n, v.et, isym(k))), (), v.own, None)
        if isinstance(v, (Opq, Clo, PyFn, Curve, MapP)) or v is NIL or isinstance(v, (Iface, ErrV, Ptr)):
            return v      # must stay the same (checked); otherwise unsolved
        raise Unsupported("loop variable %r" % (v,))

    def ssym(self):
        n = fresh("h")
        self.U.add(n)
        ln = self.sym("I")
        t = ssym(n, ln)
        return t

    def gena(self, loc, o):
        if o.s is not None:
            return o.rep_(s=self.ssym())
        n = fresh("hv")
        self.U.add(n)
        k = fresh("e")
        b = Lam(k, self.elemgen(n, o.et, isym(k), o))
        self.hav[n] = b
        return AObj(o.et, o.n, None, b, (), o.own, o.app)

    def elemgen(self, n, et, k, o=None):
        """generic array element (depends on the unsolved name n through a tagged application)"""
        tag = isym(n)
        d = self.vm.under(et) if et else {"kind": "other"}
        if d["kind"] == "ptr" and d["elem"] in _vm.MATHK:
            kind = _vm.MATHK[d["elem"]]
            return M(kind, fapp("hv", tag, k), True)
        if d["kind"] == "basic":
            if d["name"] == "bool":
                return bapp("hv", tag, k)
            return iapp("hv", tag, k)
        if d["kind"] == "array" and d["len"] <= 4:
            return ArrV(tuple(self.elemgen2(n, d["elem"], k, i) for i in range(d["len"])))
        return OpaqueElem(tag, k)

    def elemgen2(self, n, et, k, i):
        d = self.vm.under(et)
        if d["kind"] == "ptr" and d["elem"] in _vm.MATHK:
            return M(_vm.MATHK[d["elem"]], fapp("hv", isym(n), k, I(i)), True)
        raise Unsupported("array element")

    def genB(self, loc, v0, news, backs):
        et = None
        bytesy = None
        for nv, e in zip(news, backs):
            if isinstance(nv, SliceV) and nv.ref is not None:
                o = e.st.obj(nv.ref)
                et = o.et or et
                bytesy = o.s is not None
        if v0.ref is not None:
            o = self.st0.obj(v0.ref)
            et = o.et or et
            bytesy = bytesy or o.s is not None
        if bytesy:
            s = self.ssym()
            n = slen(s)
            return SliceV(AObj(et, n, s, None, (), True, "spare"), ZERO, n)
        n = self.sym("I")
        hv = fresh("hv")
        self.U.add(hv)
        k = fresh("e")
        b = Lam(k, self.elemgen(hv, et, isym(k)))
        self.hav[hv] = b
        return SliceV(AObj(et, n, None, b, (), True, "spare"), ZERO, n)

    # ------------------------------------------------------------ merging back edges
    def merge(self, backs, news, todo):
        base = len(self.base.facts)
        conds = [[f for f in e.st.ctx.facts[base:]] for e in backs]
        if len(backs) > 1:
            common = set(conds[0])
            for c in conds[1:]:
                common &= set(c)
            conds = [[f for f in c if f not in common] for c in conds]
            cctx = self.base.assume(*common)
        else:
            cctx = backs[0].st.ctx
        self.mctx = cctx
        self.pathconds = conds
        out = {}
        self.shared = {}
        for loc in todo:
            vs = []
            for e, nv in zip(backs, news):
                seen = set()
                v = nv.get(loc, self.cur[loc])
                v = self.snaploc(e.st, v, seen)
                vs.append(v)
            lit = self.errlit(self.cur[loc], vs, conds)
            if lit is not None:
                out[loc] = lit
                continue
            if len(vs) > 2:
                vs, cds = self.group(vs, conds)
            else:
                cds = conds
            v = vs[-1]
            for i in range(len(vs) - 2, -1, -1):
                v = self.mergeval(cctx, And(*discriminate(cds[i], cds[i + 1:])), vs[i], v, self.cur[loc])
            out[loc] = v
        return out

    def group(self, vs, conds):
        """paths with the same outcome for a location, when one literal tells the two groups apart"""
        gs = {}
        for i, v in enumerate(vs):
            gs.setdefault(repr(v), []).append(i)
        gs = list(gs.values())
        if len(gs) == 1:
            return vs[:1], conds[:1]
        if len(gs) == 2:
            a, b = gs
            for l in conds[a[0]]:
                if all(l in conds[i] for i in a) and all(Not(l) in conds[i] for i in b):
                    return [vs[a[0]], vs[b[0]]], [[l], [Not(l)]]
        return vs, conds

    def errlit(self, g, vs, conds):
        """error flag: one literal of the paths that tells those which set it from those which leave it"""
        if not (isinstance(g, Var) and isinstance(g.v, ErrC)):
            return None
        cs = [errcond(v.v) for v in vs]
        h = g.v.c
        sets = [c is TRUE for c in cs]
        if not all(c is TRUE or c is h for c in cs) or all(sets) or not any(sets):
            return None
        for l in conds[sets.index(True)]:
            if all((l if s_ else Not(l)) in c for s_, c in zip(sets, conds)):
                return Var(ErrC(Or(h, l)), g.t, g.own)
        return None

    def snaploc(self, st, v, seen):
        if isinstance(v, HEAPCLS):
            return st.snapo(v, seen)
        if isinstance(v, Ptr) and not v.path and isinstance(st.obj(v.ref), Cell):
            o = st.obj(v.ref)
            return M(o.kind, o.f, o.canon, o.rep)
        return st.snap(v, seen)

    def mergeval(self, ctx, c, a, b, g):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T) and a.sort in "FIS":
            return simp_ite(ctx, c, a, b)
        if isinstance(a, M) and isinstance(b, M) and a.nilc is FALSE and b.nilc is FALSE and a.f is not None and b.f is not None and a.kind == b.kind:
            r = None
            if a.rep is not None and b.rep is not None:
                r = simp_ite(ctx, c, a.rep, b.rep)
            return M(a.kind, simp_ite(ctx, c, a.f, b.f), a.canon and b.canon, r)
        if isinstance(a, Cell) and isinstance(b, Cell):
            m = self.mergeval(ctx, c, M(a.kind, a.f, a.canon, a.rep), M(b.kind, b.f, b.canon, b.rep), g)
            return Cell(m.kind, m.f, m.canon, m.rep, b.own)
        if isinstance(a, Var) and isinstance(b, Var):
            return Var(self.mergeval(ctx, c, a.v, b.v, g.v if isinstance(g, Var) else g), b.t, b.own)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV(a.t, {k: self.mergeval(ctx, c, a.f[k], b.f[k], g.f[k] if isinstance(g, StructV) else None) for k in a.f})
        if isinstance(a, (HObj, Buf)) and type(a) is type(b):
            return a.rep_(s=simp_ite(ctx, c, a.s, b.s))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if isinstance(a.ref, AObj) and isinstance(b.ref, AObj):
                o = self.mergea(ctx, c, a.ref, b.ref)
                if o is not None and a.off is ZERO and b.off is ZERO:
                    return SliceV(o, ZERO, o.n)
            return ite_val(c, a, b, ctx)
        if isinstance(a, AObj) and isinstance(b, AObj):
            o = self.mergea(ctx, c, a, b)
            if o is not None:
                return o
            raise Unsupported("merge of arrays")
        if isinstance(a, MapObj) and isinstance(b, MapObj):
            if a.has is not b.has or a.val is not b.val:
                raise Unsupported("merge of maps")
            i = 0
            while i < len(a.upd) and i < len(b.upd) and a.upd[i] is b.upd[i]:
                i += 1
            la, lb = a.upd[i:], b.upd[i:]
            if len(la) == len(lb) and all(x[0] is y[0] and x[2] is TRUE and y[2] is TRUE for x, y in zip(la, lb)):
                u = tuple((x[0], self.mergeval(ctx, c, x[1], y[1], None), TRUE) for x, y in zip(la, lb))
            else:
                u = tuple((k, v, And(c, q)) for k, v, q in la) + tuple((k, v, And(Not(c), q)) for k, v, q in lb)
            return a.rep_(upd=a.upd[:i] + u, card=None)
        return ite_val(c, a, b, ctx)

    def mergea(self, ctx, c, a, b):
        if a.s is not None and b.s is not None:
            return b.rep_(s=simp_ite(ctx, c, a.s, b.s), n=iite(c, a.n, b.n))
        if a.base is not b.base or a.s is not None or b.s is not None:
            return None
        # common prefix of layers
        i = 0
        while i < len(a.layers) and i < len(b.layers) and a.layers[i] is b.layers[i]:
            i += 1
        la, lb = list(a.layers[i:]), list(b.layers[i:])
        out = list(a.layers[:i])
        if len(la) == len(lb) and all(x[0] == y[0] == "pt" and x[1] is y[1] for x, y in zip(la, lb)):
            for x, y in zip(la, lb):
                out.append(("pt", x[1], self.mergeval(ctx, c, x[2], y[2], None)))
        else:
            for ls, cc in ((la, c), (lb, Not(c))):
                for l in ls:
                    if l[0] == "pt":
                        out.append(("rng", l[1], iadd(l[1], iite(cc, ONE, ZERO)), Lam("_", l[2])))
                    else:
                        out.append(("rng", l[1], iite(cc, l[2], l[1]), l[3]))
        return AObj(b.et, simp_ite(ctx, c, a.n, b.n), None, b.base, tuple(out), b.own, b.app)

    # ------------------------------------------------------------ solving recurrences
    def free(self, x):
        fv = x.fv if isinstance(x, T) else (ofree(x) if isinstance(x, HEAPCLS) else vfree(x))
        if self.U_unsolved() & fv or any(born_after(x, self.n0) for x in fv):
            return False
        return not has_opaque(x)

    def U_unsolved(self):
        return self.U

    def prevt(self, x):
        m = {self.tn: isub(self.t, 1)}
        if isinstance(x, T):
            return subst(x, m)
        return osubst(x, m) if isinstance(x, HEAPCLS) else vsubst(x, m)

    def solve_loc(self, loc, v0, vn, g):
        if isinstance(v0, HEAPCLS):
            return self.solve_obj(loc, v0, vn, g)
        if isinstance(v0, Ptr) and not v0.path and isinstance(self.st0.obj(v0.ref), Cell):
            o = self.st0.obj(v0.ref)
            v0 = M(o.kind, o.f, o.canon, o.rep)
            g = self.gens[loc]
            if isinstance(g, Ptr):
                raise NoSolve("pointer")
        r = self.solve_val(v0, vn, g if not isinstance(g, Ptr) else self.gens[loc], loc)
        return r

    def overwritten(self, v0, vn):
        """value is replaced in every iteration"""
        p = self.prevt(vn)
        return ite_val(eq(self.t, 0), v0, p, self.base) if not (isinstance(v0, T) and v0 is p) else v0

    def solve_val(self, v0, vn, g, loc):
        t = self.t
        if isinstance(v0, T) and isinstance(vn, T):
            if v0.sort == "I":
                return self.solve_int(v0, vn, g)
            if v0.sort == "F":
                return self.solve_f(v0, vn, g)
            if v0.sort == "S":
                return self.solve_s(v0, vn, g)
            if self.free(vn):
                return bite(eq(t, 0), v0, self.prevt(vn))
            raise NoSolve("bool")
        if isinstance(g, M) and isinstance(v0, M) and isinstance(vn, M):
            if v0.kind == "Big":
                return M("Big", None, True, self.solve_int(v0.rep, vn.rep, g.rep))
            if v0.nilc is not FALSE or vn.nilc is not FALSE:
                if self.free(vn):
                    return ite_val(eq(t, 0), v0, self.prevt(vn), self.base)
                raise NoSolve("nil")
            f = self.solve_f(v0.f, vn.f, g.f)
            canon = v0.canon and vn.canon
            if not canon and g.canon and loc is not None:
                pass
            return M(vn.kind if v0.kind == vn.kind else "?", f, canon)
        if isinstance(v0, SliceV) and isinstance(vn, SliceV):
            if loc in self.modeB:
                o0 = self.st0.obj(v0.ref) if v0.ref is not None else None
                if o0 is not None and not (v0.off is ZERO and (v0.n is o0.n or self.base.proves(eq(v0.n, o0.n)))):
                    # view of a larger array: rebase
                    k = fresh("e")
                    c2 = self.base.assume(le(0, isym(k)), lt(isym(k), v0.n))
                    o0 = AObj(o0.et, v0.n, None, Lam(k, self.st0.snap(aget(c2, o0, iadd(v0.off, isym(k))))), ())
                go = self.gens[loc].ref
                if o0 is None:
                    o0 = AObj(go.et, ZERO, SEMPTY if go.s is not None else None, None, ())
                if not isinstance(vn.ref, AObj):
                    raise NoSolve("slice storage")
                if vn.off is not ZERO or not (vn.n is vn.ref.n):
                    vo = vn.ref
                    k = fresh("e")
                    c2 = self.mctx.assume(le(0, isym(k)), lt(isym(k), vn.n))
                    vno = AObj(vo.et, vn.n, None, Lam(k, aget(c2, vo, iadd(vn.off, isym(k)))), ())
                else:
                    vno = vn.ref
                o = self.solve_obj(loc, self.st0.snapo(o0), vno, go)
                o = o.rep_(own=True, app="spare")
                return SliceV(o, ZERO, o.n)
            if vn.ref is g.ref:
                return SliceV(g.ref, self.solve_int(v0.off, vn.off, g.off), self.solve_int(v0.n, vn.n, g.n))
            raise NoSolve("slice")
        if isinstance(g, ErrC) and errcond(v0) is not None and errcond(vn) is not None:
            return self.solve_err(errcond(v0), errcond(vn), g.c)
        if isinstance(v0, StructV) and isinstance(vn, StructV):
            return StructV(v0.t, {k: self.sub_val(v0.f[k], vn.f[k], g.f[k], loc, k) for k in v0.f})
        if isinstance(v0, ArrV) and isinstance(vn, ArrV):
            return ArrV(tuple(self.solve_val(a, b, c, None) for a, b, c in zip(v0.v, vn.v, g.v)))
        if v0 is vn or (v0 is NIL and vn is NIL) or (isinstance(v0, (Opq, Clo)) and isinstance(vn, type(v0))):
            return v0
        if self.free(vn):
            return ite_val(eq(t, 0), v0, self.prevt(vn), self.base)
        raise NoSolve("%r -> %r" % (v0, vn))

    def sub_val(self, v0, vn, g, loc, k):
        if isinstance(v0, SliceV) and isinstance(vn, SliceV) and vn.ref is not g.ref:
            key = (loc, k)
            raise NoSolve("slice in a struct")
        return self.solve_val(v0, vn, g, None)

    def solve_err(self, v0, vn, g):
        """a sticky error: set iff already set or bad(t)"""
        m = {g.args[0]: FALSE}
        bad = subst(vn, m)
        if not self.free(bad) or subst(vn, {g.args[0]: TRUE}) is not TRUE and not self.mctx.proves(subst(vn, {g.args[0]: TRUE})):
            raise NoSolve("error flag %s" % show(vn))
        v = fresh("q")
        return ErrC(Or(v0, Not(forall(v, ZERO, self.t, Not(subst(bad, {self.tn: isym(v)}))))))

    def solve_int(self, v0, vn, g):
        t = self.t
        vn = self.mctx.norm_int(vn) if vn.fv & self.U == EMPTY else vn
        if self.free(vn):
            if self.tn not in vn.fv and self.st0.ctx.proves(eq(v0, vn)):
                return v0
            return iite(eq(t, 0), v0, self.prevt(vn))
        def delta(x):
            if x.op == "iite":
                return iite(x.args[0], delta(x.args[1]), delta(x.args[2]))
            return isub(x, g)
        d = delta(vn)
        if self.free(d):
            d = self.mctx.norm_int(d)
            if self.tn not in d.fv:
                return iadd(v0, imul(d, t))
            c, m = lin_of(d)
            if len(m) == 1:
                (a, k), = m.items()
                if a.op == "iite" and a.args[1].op == "int" and a.args[2].op == "int":
                    cnt = self.count(a.args[0])
                    if cnt is not None:
                        p, q = a.args[1].args[0], a.args[2].args[0]
                        return iadd(v0, iscale(t, c + k * q), iscale(cnt, k * (p - q)))
            raise NoSolve("increment depends on the iteration: %s" % show(d))
        if vn.op == "idiv" and vn.args[0] is g and self.free(vn.args[1]) and self.tn not in vn.args[1].fv:
            b = vn.args[1]
            w = self.st0.ctx.norm_int(v0)
            if w.op == "ipow" and w.args[0] is b:
                return iite(le(t, w.args[1]), ipow(b, isub(w.args[1], t)), ZERO)
            if w is ONE:
                return iite(eq(t, 0), ONE, ZERO)
            if b.op == "int" and w.op == "int":
                return idiv(w, ipow(b, t))
            return idiv(v0, ipow(b, t))
        if vn.op == "imul" and g in vn.args and len(vn.args) == 2:
            o = [x for x in vn.args if x is not g]
            if o and self.free(o[0]) and self.tn not in o[0].fv:
                return imul(v0, ipow(o[0], t))
        if vn.op == "lin" and vn.args[0] == 0 and len(vn.args) == 3 and vn.args[2] is g:
            return imul(v0, ipow(I(vn.args[1]), t))
        raise NoSolve("int %s" % show(vn))

    def count(self, c):
        """number of tau < t with c(tau)"""
        t = self.t
        if c.op == "not":
            r = self.count(c.args[0])
            return isub(t, r) if r is not None else None
        if c.op in ("eq0", "le0"):
            co, m = lin_of(c.args[0])
            k = m.get(t)
            if k not in (1, -1):
                return None
            rest = mk_lin(co, {a: x for a, x in m.items() if a is not t})
            if self.tn in rest.fv:
                return None
            e = iscale(rest, -k)      # t == e
            if c.op == "eq0":
                return iite(And(le(0, e), lt(e, t)), ONE, ZERO)
            if k == 1:     # t <= e
                e1 = iadd(e, 1)
                return iite(le(e1, 0), ZERO, iite(le(t, e1), t, e1))
            # t >= e
            return iite(le(t, e), ZERO, iite(le(e, 0), t, isub(t, e)))
        return None

    def solve_f(self, v0, vn, g):
        t = self.t
        if self.free(vn):
            p = self.prevt(vn)
            if self.tn not in vn.fv and norm.field_equal(self.base, v0, vn):
                return v0
            # maybe the value at t is already given by the shifted formula
            z = subst(p, {self.tn: ZERO})
            try:
                if norm.field_equal(self.st0.ctx, z, v0):
                    return p
            except NeedSplit:
                pass
            return fite(eq(t, 0), v0, p)
        if g.op != "sym":
            raise NoSolve("field")
        n = g.args[0]
        B = subst(vn, {n: F0})
        A = fsub(subst(vn, {n: F1}), B)
        if not self.free(A) or not self.free(B):
            raise NoSolve("field: other unknowns in %s" % show(vn)[:200])
        ctx = self.mctx
        if not norm.field_equal(ctx, vn, fadd(fmul(A, g), B)):
            raise NoSolve("field: not linear")
        tau = fresh("u")
        sh = {self.tn: isym(tau)}
        if norm.field_equal(ctx, A, F1):
            return fadd(v0, fsum(tau, ZERO, t, subst(B, sh)))
        if norm.field_equal(ctx, B, F0):
            A = tidy(ctx, A)
            if self.tn not in A.fv:
                return fmul(v0, fpow(A, t))
            return fmul(v0, fprod(tau, ZERO, t, subst(A, sh)))
        raise NoSolve("field recurrence")

    def solve_s(self, v0, vn, g):
        if self.free(vn):
            return site(eq(self.t, 0), v0, self.prevt(vn))
        parts = list(vn.args) if vn.op == "scat" else [vn]
        if g in parts:
            i = parts.index(g)
            pre, post = scat(*parts[:i]), scat(*parts[i + 1:])
            if self.free(pre) and self.free(post):
                tau = fresh("u")
                sh = {self.tn: isym(tau)}
                if pre is SEMPTY:
                    return scat(v0, smap(tau, ZERO, self.t, subst(post, sh)))
                if post is SEMPTY:
                    rev = {self.tn: isub(isub(self.t, 1), isym(tau))}
                    return scat(smap(tau, ZERO, self.t, subst(pre, rev)), v0)
        raise NoSolve("bytes")

    def solve_obj(self, loc, o0, on, g):
        if isinstance(o0, Cell):
            m = self.solve_val(M(o0.kind, o0.f, o0.canon, o0.rep), M(on.kind, on.f, on.canon, on.rep), M(g.kind, g.f, g.canon, g.rep), None)
            return Cell(m.kind, m.f, m.canon, m.rep, o0.own)
        if isinstance(o0, Var):
            return Var(self.solve_val(o0.v, on.v, g.v, loc), o0.t, o0.own)
        if isinstance(o0, (HObj, Buf)):
            return o0.rep_(s=self.solve_s(o0.s, on.s, g.s))
        if isinstance(o0, AObj):
            return self.solve_arr(loc, o0, on, g)
        if isinstance(o0, MapObj):
            return self.solve_map(o0, on, g)
        raise NoSolve("object")

    def solve_map(self, o0, on, g):
        """one (conditional) store per iteration, under keys that determine the iteration"""
        from .ext import map_get, map_has, ENUM
        t = self.t
        if on.has is not g.has or on.val is not g.val or len(on.upd) != 1:
            raise NoSolve("map")
        key, val, cond = on.upd[0]
        if not (self.free(key) and self.free(val) and self.free(cond)):
            raise NoSolve("map entry %s" % show(val))
        key = self.mctx.norm_int(key)
        o0 = self.st0.snapo(o0)
        k = isym(fresh("key"))
        c, m = lin_of(key)
        e = key
        if e.op == "iapp" and e.args[0] in ENUM and e.args[-1] is t and len(e.args) == 2:
            ix, dom = iapp(e.args[0] + ".ix", k), ENUM[e.args[0]](k)
        elif m.get(t) == 1 and not any(self.tn in a.fv for a in m if a is not t):
            ix, dom = isub(k, mk_lin(c, {a: x for a, x in m.items() if a is not t})), TRUE
        else:
            raise NoSolve("map key %s" % show(key))
        sh = {self.tn: ix}
        here = And(dom, le(0, ix), lt(ix, t), subst(cond, sh))
        w = vsubst(val, sh)
        p0, v0 = map_has(o0, k), None
        if p0 is not FALSE:
            v0 = map_get(self.st0.ctx, o0, k)[1]
        kn = k.args[0]
        return MapObj(o0.kt, o0.et, Lam(kn, Or(here, p0)), Lam(kn, w if v0 is None else ite_val(here, w, v0, self.base)), (), o0.own, None)

    def solve_arr(self, loc, o0, on, g):
        t = self.t
        if g.s is not None:
            if on.s is None:
                raise NoSolve("bytes become an array")
            s0 = o0.s if o0.s is not None else SEMPTY
            if o0.s is None and not (o0.n is ZERO):
                from .compare import sbytes
                s0 = sbytes(self.base, o0, SliceV(o0, ZERO, o0.n))
            s = self.solve_s(s0, on.s, g.s)
            return AObj(on.et, slen(s), s, None, (), on.own, on.app)
        if on.s is not None:
            raise NoSolve("array becomes bytes")
        n = self.solve_int(o0.n, on.n, g.n) if g.n.op == "sym" and g.n.args[0] in self.U else o0.n
        if on.base is not g.base and not samelam(on.base, g.base):
            if isinstance(on.base, Lam) and self.free(on):
                # replaced wholesale
                p = self.prevt(on)
                if o0.base is None and not o0.layers:
                    return p.rep_(n=n)
                k = fresh("e")
                v = ite_val(eq(t, 0), aget(self.base.assume(eq(t, 0)), o0, isym(k)), aget(self.base.assume(le(1, t)), p, isym(k)), self.base)
                return AObj(on.et, n, None, Lam(k, v), (), on.own, on.app)
            raise NoSolve("array replaced")
        layers = list(o0.layers)
        gn = g.n
        if len(on.layers) == 1 and on.layers[0][0] == "pt":
            # stores at the keys of a map
            from .ext import ENUM
            e, val = self.mctx.norm_int(on.layers[0][1]), on.layers[0][2]
            if e.op == "iapp" and e.args[0] in ENUM and e.args[-1] is t and len(e.args) == 2 and self.free(val):
                k = isym(fresh("e"))
                ix = iapp(e.args[0] + ".ix", k)
                here = And(ENUM[e.args[0]](k), le(0, ix), lt(ix, t))
                w = vsubst(vsubst(val, {e: k}), {self.tn: ix})
                return AObj(on.et if on.et else o0.et, n, None, Lam(k.args[0], ite_val(here, w, aget(self.base.assume(Not(here)), o0, k), self.base)), (), on.own, on.app)
        for l in on.layers:
            if gn.op == "sym" and gn.args[0] in self.U:
                l = lsubst(l, {gn.args[0]: n})
            layers.append(self.solve_layer(l, gn, o0))
        return AObj(on.et if on.et else o0.et, n, None, o0.base, tuple(layers), on.own, on.app)

    def solve_layer(self, l, gn, o0):
        t = self.t
        ctx = self.mctx
        m_n = None
        if l[0] == "pt":
            idx = l[1]
            val = l[2]
            if not self.free(val):
                raise NoSolve("stored value")
            if not self.free(idx):
                raise NoSolve("store index")
            idx = ctx.norm_int(idx)
            c, m = lin_of(idx)
            if self.tn not in idx.fv:
                k = fresh("e")
                return ("rng", idx, iadd(idx, iite(le(1, t), ONE, ZERO)), Lam(k, self.prevt(val)))
            k = m.get(t)
            rest = mk_lin(c, {a: x for a, x in m.items() if a is not t})
            if self.tn in rest.fv:
                r = self.cond_index(m, c, val)
                if r is not None:
                    return r
                raise NoSolve("store index %s" % show(idx))
            j = fresh("e")
            if k == 1:
                return ("rng", rest, iadd(rest, t), Lam(j, vsubst(val, {self.tn: isub(isym(j), rest)})))
            if k == -1:
                # indices rest, rest-1, ..., rest-t+1
                return ("rng", iadd(isub(rest, t), 1), iadd(rest, 1), Lam(j, vsubst(val, {self.tn: isub(rest, isym(j))})))
            if k is not None and k > 1:
                raise NoSolve("stride")
            raise NoSolve("store index %s" % show(idx))
        lo, hi, body = l[1], l[2], l[3]
        if not (self.free(lo) and self.free(hi) and self.free(body.v)):
            raise NoSolve("stored range")
        # conditional single store: [i, i + ite(c,0,1))
        w = isub(hi, lo)
        lo = ctx.norm_int(lo)
        w = ctx.norm_int(w)
        if w.op == "iite" or (w.op == "lin" and any(isinstance(a, T) and a.op == "iite" for a in w.args)):
            r = self.cond_layer(lo, w, body)
            if r is not None:
                return r
            raise NoSolve("conditional range")
        c, m = lin_of(lo)
        k = fresh("e")
        if self.tn not in lo.fv and self.tn not in w.fv:
            return ("rng", lo, iadd(lo, iite(le(1, t), w, ZERO)), Lam(k, self.prevt(vsubst(body.v, {body.var: isym(k)}))))
        # lo linear in t with slope w
        at0 = subst(lo, {self.tn: ZERO})
        if self.tn in w.fv:
            raise NoSolve("range width")
        if not ctx.proves(eq(lo, iadd(at0, imul(w, t)))):
            raise NoSolve("range start %s" % show(lo))
        off = isub(isym(k), at0)
        tau = idiv(off, w)
        v = vsubst(body.v, {self.tn: tau, body.var: isym(k)})
        return ("rng", at0, iadd(at0, imul(w, t)), Lam(k, v))

    def cond_of_index(self, m, c):
        return None

    def cond_index(self, m, c, val):
        return None

    def cond_layer(self, lo, w, body):
        """stores at a counter that advances only in some iterations; the counter itself is solved already"""
        t = self.t
        # w = ite(cond, 0/1, 1/0): single exception
        k0, m = lin_of(w)
        if len(m) != 1:
            return None
        (a, k), = m.items()
        if a.op != "iite" or a.args[1].op != "int" or a.args[2].op != "int":
            return None
        cond = a.args[0]
        vt, vf = k0 + k * a.args[1].args[0], k0 + k * a.args[2].args[0]
        if {vt, vf} != {0, 1}:
            return None
        store = cond if vt == 1 else Not(cond)
        skip = Not(store)
        lo0 = subst(lo, {self.tn: ZERO})
        lo0 = self.st0.ctx.norm_int(lo0)
        j = fresh("e")
        jp = isub(isym(j), lo0)
        total = self.count(store)
        if total is None:
            return None
        s = skip
        inv = None
        if s.op == "eq0":
            co, mm = lin_of(s.args[0])
            kk = mm.get(t)
            rest = mk_lin(co, {x: y for x, y in mm.items() if x is not t})
            if kk in (1, -1) and self.tn not in rest.fv:
                e = iscale(rest, -kk)
                inv = iadd(jp, iite(And(le(0, e), le(e, jp)), ONE, ZERO))
        elif s.op == "le0":
            co, mm = lin_of(s.args[0])
            kk = mm.get(t)
            rest = mk_lin(co, {x: y for x, y in mm.items() if x is not t})
            if kk in (1, -1) and self.tn not in rest.fv:
                e = iscale(rest, -kk)
                if kk == 1:       # skipped while t <= e
                    inv = iadd(jp, iite(le(0, e), iadd(e, 1), ZERO))
                else:             # skipped once t >= e
                    inv = jp
        if inv is None:
            return None
        v = vsubst(body.v, {self.tn: inv, body.var: isym(j)})
        return ("rng", lo0, iadd(lo0, total), Lam(j, v))

    # ------------------------------------------------------------ recursively defined values
    def recursive(self, todo, merged):
        """name the unsolved field-valued recurrences by functions defined by recursion on t"""
        t = self.t
        defs = []
        for loc in todo:
            g, vn, v0 = self.cur[loc], merged[loc], self.initial(loc)
            d = self.recdef(loc, g, vn, v0)
            if d is not None:
                defs.append((loc, d))
        # a set of locations whose recurrences mention no other unknown
        while True:
            own = set()
            for _, d in defs:
                for x, y in d["sub"].items():
                    own.add(x[1] if isinstance(x, tuple) else x)
            keep = [(l, d) for l, d in defs if not any((set(step.fv) & self.U) - own - self.solved_names() for _, (_, step, _) in d["funs"].items())]
            if len(keep) == len(defs):
                break
            defs = keep
        if not defs:
            return False
        if self.known_rec(defs):
            return True
        # substitute generics by the functions everywhere
        m = {}
        for loc, d in defs:
            m.update(d["sub"])
        for loc, d in defs:
            self.sol[loc] = d["cand"]
            for fn, (args, step, ini) in d["funs"].items():
                st = apply_rec(step, d0=m, defs=defs)
                RECS[fn] = (self.tn, args, ini, st)
        self.rec_names = getattr(self, "rec_names", []) + [fn for loc, d in defs for fn in d["funs"]]
        return True

    def havoc(self, todo):
        """strings without a closed form: some string in each iteration, about which nothing is known"""
        done = False
        for loc in todo:
            v0 = self.initial(loc)
            if HAVOC[0] and isinstance(v0, T) and v0.sort == "S":
                n = self.st0.freshname("any")
                FN_AX[n + "len"] = lambda node: [le(0, node)]
                self.sol[loc] = site(eq(self.t, 0), v0, ssym(n, iapp(n + "len", *(self.st0.loopv + (self.t,)))))
                self.unknown.add(loc)
                done = True
        return done

    def solved_names(self):
        """names of unknowns of locations solved meanwhile"""
        r = set()
        for l, g in self.gens.items():
            if l in self.sol:
                r |= set(vfree(g) if not isinstance(g, HEAPCLS) else ofree(g))
        return r

    def known_rec(self, defs):
        """are the unknown recurrences those of functions the contract names? (both are then equal by induction on t)"""
        if not CANDS or self.st0.loopv or len(CANDS) < len(defs) or not all("mk" in d for _, d in defs):
            return False
        t = self.t
        import itertools
        for sel in itertools.permutations(CANDS, len(defs)):
            apps = [lambda tt, *k, c=c: mk("fu", (c[0], c[1], as_i(tt)) + tuple(as_i(x) for x in k), "F") for c in sel]
            m = {}
            for (loc, d), a in zip(defs, apps):
                m.update(d["subf"](lambda *k, a=a: a(t, *k)))
            ok = True
            for (loc, d), a in zip(defs, apps):
                (args, step, ini), = d["funs"].values()
                ks = [isym(x) for x in args]
                st_ = apply_rec(step, d0=m, defs=defs)
                kc = d["kctx"]
                kc = kc.assume(*[subst(f, d2["ren"]) for _, d2 in defs if d2 is not d for f in kc.facts if d2["ren"] and set(d2["ren"]) & f.fv])
                if not norm.split_prove(d["ictx"], lambda cc: norm.field_equal(cc, ini, a(ZERO, *ks))) or \
                   not norm.split_prove(kc, lambda cc: norm.field_equal(cc, st_, a(iadd(t, 1), *ks))):
                    ok = False
                    dbg(self.name, "not the recurrence", [c[0] for c in sel], loc)
                    if DBG[0]:
                        for tag, c_, x, y in (("init", d["ictx"], ini, a(ZERO, *ks)), ("step", kc, st_, a(iadd(t, 1), *ks))):
                            def leaf(cc, x=x, y=y, tag=tag):
                                r = norm.field_equal(cc, x, y, False)
                                if not r:
                                    norm.poly_zero(cc, fsub(x, y))
                                    dbg(tag, [show(f) for f in cc.facts[len(c_.facts):]], show(norm.normF(x, cc))[:2500], " VS ", show(norm.normF(y, cc))[:2500])
                                return r
                            norm.split_prove(c_, leaf)
                    break
            if ok:
                for (loc, d), a in zip(defs, apps):
                    self.sol[loc] = d["mk"](lambda *k, a=a: a(t, *k))
                    dbg(self.name, "known recurrence", loc, self.sol[loc])
                return True
        return False

    def recdef(self, loc, g, vn, v0):
        t = self.t
        if isinstance(g, Ptr):
            g = self.gens[loc]
        if isinstance(v0, Ptr) and not v0.path and isinstance(self.st0.obj(v0.ref), Cell):
            o = self.st0.obj(v0.ref)
            v0 = M(o.kind, o.f, o.canon, o.rep)
        if isinstance(g, M) and isinstance(vn, M) and isinstance(v0, M) and g.f is not None:
            fn = self.st0.freshname("R")
            return {"subf": lambda ap: {g.f.args[0]: ap()}, "mk": lambda ap: M(vn.kind, ap(), v0.canon and vn.canon), "kctx": self.mctx, "ictx": self.st0.ctx, "ren": {},
                    "sub": {g.f.args[0]: fapp(fn, *(self.st0.loopv + (t,)))}, "cand": M(vn.kind, fapp(fn, *(self.st0.loopv + (t,))), v0.canon and vn.canon),
                    "funs": {fn: ((), vn.f, v0.f)}}
        if isinstance(g, Cell) and isinstance(vn, Cell):
            fn = self.st0.freshname("R")
            return {"sub": {g.f.args[0]: fapp(fn, *(self.st0.loopv + (t,)))}, "cand": Cell(vn.kind, fapp(fn, *(self.st0.loopv + (t,))), v0.canon and vn.canon, None, v0.own),
                    "funs": {fn: ((), vn.f, v0.f)}}
        if isinstance(vn, SliceV) and loc in self.modeB:
            gs = self.gens[loc]
            go = gs.ref
            if go.s is not None or not isinstance(vn.ref, AObj) or vn.ref.s is not None:
                return None
            et = self.vm.under(go.et)
            if not (et["kind"] == "ptr" and et["elem"] in _vm.MATHK):
                return None
            try:
                n = self.solve_int(v0.n, vn.n, gs.n)
            except NoSolve:
                return None
            hv = go.base.v.f.args[1].args[0]
            k = fresh("k")
            c2 = self.mctx.assume(le(0, isym(k)), lt(isym(k), vn.n))
            e = self.elem1(c2, vn.ref, iadd(vn.off, isym(k)))
            o0 = self.st0.obj(v0.ref) if v0.ref is not None else None
            if o0 is None or e is None:
                return None
            e0 = aget(self.st0.ctx.assume(le(0, isym(k)), lt(isym(k), v0.n)), o0, iadd(v0.off, isym(k)))
            e0 = self.st0.snap(e0)
            fn = self.st0.freshname("R")
            kk = fresh("e")
            app = lambda x: fapp(fn, *(self.st0.loopv + (t, x)))
            gn_ = gs.n.args[0]
            return {"subf": lambda ap: {("hv", hv): ap, gn_: n},
                    "mk": lambda ap: SliceV(AObj(go.et, n, None, Lam(kk, M(e0.kind, ap(isym(kk)), e0.canon and e.canon)), (), True, "spare"), ZERO, n),
                    "ren": {gn_: n}, "kctx": c2.assume(*[subst(f, {gn_: n}) for f in c2.facts if gn_ in f.fv]), "ictx": self.st0.ctx.assume(le(0, isym(k)), lt(isym(k), v0.n)),
                    "sub": {("hv", hv): app, gs.n.args[0]: n}, "cand": SliceV(AObj(go.et, n, None, Lam(kk, M(e0.kind, app(isym(kk)), e0.canon and e.canon)), (), True, "spare"), ZERO, n),
                    "funs": {fn: ((k,), e.f, e0.f)}}
        return None

    def elem1(self, ctx, o, idx):
        try:
            return aget(ctx, o, idx)
        except NeedSplit:
            return None

    # ------------------------------------------------------------ inductive verification and exits
    def verify(self, evs, backs, news):
        t = self.t
        # base case
        for loc, c in self.sol.items():
            v0 = self.initial(loc)
            m = {self.tn: ZERO}
            st = self.st0
            if isinstance(c, HEAPCLS):
                ok = norm.split_prove(st.ctx, lambda cc: oeq(rechook(cc), st, v0, None, osubst(c, m), []))
            else:
                w = st.snap(v0) if isinstance(v0, Ptr) else v0
                ok = norm.split_prove(st.ctx, lambda cc: veq(rechook(cc), st, w, None, vsubst(c, m)))
            if not ok:
                raise Unsupported("loop %s: base case of %s fails: %s vs %s" % (self.name, loc, c, v0))
        # step
        nx = {self.tn: iadd(t, 1)}
        for e, nv in zip(backs, news):
            for loc, c in self.sol.items():
                if loc in self.unknown:
                    continue
                v = nv.get(loc, self.cur[loc])
                why = []
                if isinstance(c, HEAPCLS):
                    ok = norm.split_prove(e.st.ctx, lambda cc: oeq(rechook(cc), e.st, v, None, osubst(c, nx), why))
                else:
                    ok = norm.split_prove(e.st.ctx, lambda cc: veq(rechook(cc), e.st, v, None, vsubst(c, nx), why))
                if not ok:
                    raise Unsupported("loop %s: step of %s fails: %s" % (self.name, loc, why[-1:] or c))
                # ownership of a pointer carried around the loop
                if loc[0] == "phi" and self.own.get(loc):
                    if not (isinstance(v, Ptr) and isinstance(v.ref, _vm.Oid) and e.st.heap[v.ref].own and not escaped(e.st, v.ref, nv, loc)):
                        self.own[loc] = False
        base = len(self.base.facts)
        self.vm.stats["loopobs"] = self.vm.stats.get("loopobs", 0) + len(self.sol) * (1 + len(backs))
        # what the body names anew is another thing in each iteration: nothing is known of it outside
        mine = lambda f: not any(born_after(x, self.n0) for x in f.fv)
        C = Or(*[And(*[f for f in c if mine(f)]) for c in resolve([e.st.ctx.facts[base:] for e in backs])])
        return self.exits(evs, C)

    def cont_at(self, C, x):
        return subst(C, {self.tn: x})

    def exits(self, evs, C):
        t = self.t
        out = []
        base = len(self.base.facts)
        heads = [e for e in evs if e.kind == "exit"]
        early = [e for e in evs if e.kind != "back"]
        done = set()
        # counted exit
        for e in heads:
            new = e.st.ctx.facts[base:]
            if all(is_intlike(f) for f in new):
                r = self.counted(e, And(*new), C)
                if r is not None:
                    out += r
                    done.add(id(e))
        for e in early:
            if id(e) in done:
                continue
            fs = []
            v = fresh("q")
            body = subst(C, {self.tn: isym(v)})
            e.st.ctx = e.st.ctx.assume(forall(v, ZERO, t, body), Or(eq(t, 0), self.cont_at(C, isub(t, 1))), Or(eq(t, 0), self.cont_at(C, ZERO)))
            if e.st.ctx.inconsistent():
                continue
            e.st.loopv = self.st0.loopv
            e.st.cnt = dict(self.st0.cnt) if e.kind == "exit" else e.st.cnt
            if e.kind == "exit" and self.st0.loopv:
                # the number of iterations is a function of the enclosing counters
                pass
            out.append(e)
        return out

    def counted(self, e, ex, C):
        t = self.t
        T = self.solve_exit(ex)
        if T is None:
            return None
        out = []
        d = self.st0.ctx.decide(le(0, T))
        cases = []
        if d is not False:
            cases.append((le(0, T), T))
        if d is not True:
            cases.append((Not(le(0, T)), ZERO))
        # exactness of T
        c = self.base.assume(ex, Or(eq(t, 0), self.cont_at(C, isub(t, 1))))
        for cond, Tv in cases:
            if not c.assume(cond).proves(eq(t, Tv)):
                dbg(self.name, "exit count not exact", show(Tv), show(ex))
                return None
        for cond, Tv in cases:
            ctx = self.st0.ctx.assume(cond)
            if ctx.inconsistent():
                continue
            if not is_intlike(C):
                v = fresh("q")
                ctx = ctx.assume(forall(v, ZERO, Tv, subst(C, {self.tn: isym(v)})))
            pos = ctx.decide(le(1, Tv))
            if pos is True:
                ctx = ctx.assume(self.cont_at(C, isub(Tv, 1)), self.cont_at(C, ZERO))
            elif pos is None and is_intlike(C):
                ctx = ctx.assume(Or(eq(Tv, 0), self.cont_at(C, isub(Tv, 1))), Or(eq(Tv, 0), self.cont_at(C, ZERO)))
            if ctx.inconsistent():
                continue
            st, ph = self.state(Tv, ctx)
            evs = one_iter(self.vm, st, self.fr, self.header, self.blocks, ph)
            for x in evs:
                if x.kind == "exit" and (x.block, x.prev) != (e.block, e.prev):
                    continue        # another exit edge: summarised by its own event
                if x.kind == "exit":
                    if not x.st.ctx.inconsistent():
                        out.append(x)
                elif not x.st.ctx.inconsistent():
                    dbg(self.name, "exit state does not exit", show(Tv), x)
                    return None
        return out

    def solve_exit(self, ex):
        """value of t at which the loop guard first fails"""
        t = self.t
        lits = ex.args if ex.op == "and" else (ex,)
        for l in lits:
            if self.tn not in l.fv:
                continue
            if l.op in ("le0", "eq0"):
                d = self.base.norm_int(l.args[0])
                c, m = lin_of(d)
                k = m.get(t)
                rest = mk_lin(c, {a: x for a, x in m.items() if a is not t})
                if k is not None and self.tn not in rest.fv:
                    if l.op == "eq0" and abs(k) == 1:
                        return iscale(rest, -k)
                    if l.op == "le0" and k < 0:
                        # rest <= -k t
                        return rest if k == -1 else idiv(iadd(rest, -k - 1), -k)
                # n_t = ite(t <= e, b^(e-t), 0) reaching zero
                for a, x in m.items():
                    if a.op == "iite" and a.args[2] is ZERO and a.args[0].op == "le0":
                        c2, m2 = lin_of(a.args[0].args[0])
                        if m2.get(t) == 1:
                            e = mk_lin(-c2, {z: -y for z, y in m2.items() if z is not t})
                            if self.tn not in e.fv:
                                return iadd(e, 1)
                if l.op == "eq0" or l.op == "le0":
                    for a, x in m.items():
                        if a.op == "iite" and a.args[0] is eq(t, 0) and a.args[2] is ZERO:
                            return ONE
        return None

    def finish_noback(self, evs):
        # the loop body never comes back
        out = []
        for e in evs:
            if subst(TRUE, {}) is TRUE:
                pass
        # executed exactly once, at t = 0
        st = self.st0
        evs = one_iter(self.vm, st, self.fr, self.header, self.blocks, dict(self.init))
        if any(e.kind == "back" for e in evs):
            raise Unsupported("loop %s" % self.name)
        return evs


def samelam(a, b):
    """the same element template up to the name of the index"""
    if not (isinstance(a, Lam) and isinstance(b, Lam)):
        return False
    x, y = vsubst(a.v, {a.var: isym(b.var)}), b.v
    return repr(x) == repr(y) if isinstance(x, T) or not isinstance(x, M) else isinstance(y, M) and (x.kind, x.f, x.canon, x.rep, x.nilc) == (y.kind, y.f, y.canon, y.rep, y.nilc)


def None_(c):
    return None


def escaped(st, ref, nv, loc):
    """is the object also reachable from another location carried around the loop"""
    seen = set()
    for l, v in nv.items():
        if l == loc:
            continue
        if isinstance(v, HEAPCLS):
            if isinstance(v, (AObj, Var)):
                st.snapo(v, seen)
        else:
            st.snap(v, seen)
    return ref in seen


class OpaqueElem(V):
    __slots__ = ("tag", "k")

    def __init__(self, tag, k):
        self.tag, self.k = tag, k


def has_opaque(x):
    if isinstance(x, OpaqueElem):
        return True
    if isinstance(x, SliceV) and isinstance(x.ref, AObj):
        return has_opaque(x.ref)
    if isinstance(x, AObj):
        return any(has_opaque(l[2]) if l[0] == "pt" else has_opaque(l[3].v) for l in x.layers) or (isinstance(x.base, Lam) and has_opaque(x.base.v))
    if isinstance(x, (ArrV, Tup)):
        return any(has_opaque(y) for y in x.v)
    if isinstance(x, StructV):
        return any(has_opaque(y) for y in x.f.values())
    return False


def tidy(ctx, f):
    """smaller equivalent of a field term when it normalises to an atom"""
    try:
        p = norm.canon(norm.flatten(f, ctx), ctx)
    except (NeedSplit, norm.Give):
        return f
    if len(p) == 1:
        (key, (c, bs, fs)), = p.items()
        if not bs:
            return fmul(F(c), *[fpow(a, e) for a, e in fs]) if all(a.op in ("sym", "fapp", "fe", "fc", "fofint") for a, e in fs) else f
    return f


# functions defined by recursion on an iteration counter: name -> (tname, args, init, step)
RECS = {}
CANDS = []       # (name, encoded input) of the recursive functions named by the contract being checked


def apply_rec(step, d0, defs):
    """replace generic symbols / generic array reads in a step term"""
    hvs = {k[1]: v for k, v in d0.items() if isinstance(k, tuple)}
    syms = {k: v for k, v in d0.items() if not isinstance(k, tuple)}

    def go(x, cache):
        if not isinstance(x, T):
            return x
        r = cache.get(x)
        if r is not None:
            return r
        if x.op == "fapp" and x.args[0] == "hv" and x.args[1].op == "sym" and x.args[1].args[0] in hvs:
            r = hvs[x.args[1].args[0]](go(x.args[2], cache))
        elif x.op == "sym" and x.args[0] in syms:
            r = syms[x.args[0]]
        elif any(isinstance(a, T) for a in x.args):
            r = rebuild(x.op, tuple(go(a, cache) for a in x.args), x.sort)
        else:
            r = x
        cache[x] = r
        return r
    return go(step, {})


def rechook(ctx):
    """unfold recursive functions at 0 and at successor arguments"""
    if not RECS:
        return ctx
    c = ctx.copy()
    for fn, (tn, args, ini, step) in RECS.items():
        if fn in c.hooks:
            continue
        na = 1 + len(args)

        def h(node, cx, tn=tn, args=args, ini=ini, step=step, na=na):
            xs = node.args[1:]
            idx = xs[len(xs) - na:]
            tv = cx.norm_int(idx[0])
            m = {a: v for a, v in zip(args, idx[1:])}
            if tv is ZERO or cx.proves(eq(tv, 0)):
                return subst(ini, m)
            c0, mm = lin_of(tv)
            if c0 >= 1 and cx.proves(le(1, tv)):
                m[tn] = isub(tv, 1)
                return subst(step, m)
            return None
        c.hooks[fn] = h
    return c
