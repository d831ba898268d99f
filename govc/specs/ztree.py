"""The tree of identifiers (package sparse): Get and Put for all path lengths, by stated loop invariants.

Walking down: after i steps the current vertex is the one at the first i components of the path, the list holds the vertices before it,
and the string is its key. Walking up: the current vertex is the one at level i on the path, the flag says that it is right above the leaf.
One step is run from an arbitrary vertex; what it has to do to the vertex, its child and everything else is compared after the step."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm, loops
from engine.compare import veq
from engine.ctx import NeedSplit
from engine.ext import map_get, map_has, fmt_s
from .common import *
from .poe import *
from .verkle import *
from .zframe import frames

ST = "pol/sparse."
VT = ST + "Vertex"


class Walk:
    def __init__(self, vm, st0, ob):
        st = st0.clone()
        self.vm, self.ob, self.st = vm, ob, st
        self.L = gLen(st, "L", 1, 1 << 15)
        self.F = gLen(st, "F", 1, 1 << 16)
        FN_AX["path"] = lambda node: [le(0, node), lt(node, self.F)]
        self.path = gFun(self.L, lambda k: iapp("path", k), "uint16")
        self.prefix = lambda i: ssym("prefix", i)
        self.seen = []

    def data(self, *i):
        return Iface("string", ssym("data." + str(len(i)) + "." + "".join(show(x) for x in i), gLen(self.st, "dn")), bapp("nodata", *i))

    def vertex(self, st, key, kids, parent, data=None):
        return Ptr(st.alloc(Var(StructV(VT, {"key": key, "Data": data or Iface("string", ssym("data", isym("data.n")), bapp("nodata")), "Descendants": kids, "Parent": parent}), VT, True)))

    def kid(self, k):
        """a vertex below, of which only the content is looked at"""
        return Ptr(Var(StructV(VT, {"key": Opq("key"), "Data": Iface("string", mk("sapp", ("kid", k), "S")), "Descendants": Opq("kids"), "Parent": Opq("parent")}), VT, False))

    def kids(self, st, has, first=(), card=None):
        k = fresh("key")
        return MapP(st.alloc(MapObj("uint16", "*" + VT, Lam(k, has(isym(k))), Lam(k, self.kid(isym(k))), tuple((a, b, TRUE) for a, b in first), True, card)))

    def tree(self, st, root):
        def id2path(vm, s, A):
            return [V.Ev("ret", s, self.path)]
        return newstruct(st, ST + "Tree", True, ID2Path=PyFn(id2path), UpdateInnerVertex=PyFn(self.update), FanOut=self.F, Root=root)

    # ---- roles of the loop's variables
    def roles(self, st, init):
        r = {}
        for n, v in init.items():
            if isinstance(v, Ptr) and isinstance(st.heap.get(v.ref), Var) and st.heap[v.ref].t == VT and not v.path:
                k = "node"
            elif isinstance(v, SliceV) and v.n is ZERO:
                k = "list"
            elif isinstance(v, T) and v.sort == "S" and slen(v) is ZERO:
                k = "key"
            elif isinstance(v, T) and v.sort == "I":
                k = "count"
            elif isinstance(v, T) and v.sort == "B":
                k = "flag"
            else:
                raise Unsupported("loop variable without a stated invariant: %s" % (v,))
            if k in r.values() and k not in ("flag", "count"):
                raise Unsupported("two loop variables of one kind")
            r[n] = k
        return r

    def handler(self, vm, st, fr, header, blocks, init):
        if not any(isinstance(v, Ptr) and isinstance(st.heap.get(v.ref), Var) and st.heap[v.ref].t == VT and not v.path for v in init.values()):
            return None
        loops.MANUAL[0] = None
        try:
            self.seen.append(fr["fn"].name)
            return (self.down if len(self.seen) == 1 else self.up)(vm, st, fr, header, blocks, init, self.roles(st, init))
        finally:
            loops.MANUAL[0] = self.handler

    def iterate(self, vm, st, fr, header, blocks, phis):
        evs = [e for e in loops.one_iter(vm, st, fr, header, blocks, phis) if not e.st.ctx.inconsistent()]
        return [e for e in evs if e.kind == "back"], [e for e in evs if e.kind != "back"]

    def field(self, st, p, f):
        return fld(self.vm, st, p, f)

    def fields(self, st, p):
        return st.heap[p.ref].v.f

    def nodes(self, st, n):
        return mkslice(st, n, lambda k: Iface("*" + VT, Opq(schunk("node", k))), "interface{}")

    # ---- down
    def down(self, vm, st0, fr, header, blocks, init, roles):
        ob = self.ob
        root = next(v for n, v in init.items() if roles[n] == "node")
        f = self.fields(st0, root)
        ob(self.tag + ".from the root", self.field(st0, self.t, "Root") == root and slen(f["key"]) is ZERO and f["Parent"] is NIL, "the walk starts at %s" % f)
        c0 = [init[n] for n in init if roles[n] == "count"]
        i = isym(fresh("i"))

        def phis(st, at, node, lst):
            return {n: node if k == "node" else lst if k == "list" else self.prefix(at) if k == "key" else iadd(init[n], at) if k == "count" else bapp(fresh("flag")) for n, k in roles.items()}

        p = iapp("path", i)
        missing = []
        for case in ("child", "other", "none", "nil"):
            st = st0.clone()
            st.ctx = st.ctx.assume(le(0, i), lt(i, self.L), le(0, p), lt(p, self.F))
            st.ctx = st.ctx.assume(le(0, isym("data.n")))
            parent = self.vertex(st, Opq("above"), Opq("above"), Opq("above"))
            child = self.vertex(st, Opq("below"), Opq("below"), Opq("below"))
            has = (lambda k: And(bapp("kid", k), Not(eq(k, p)))) if case in ("child", "other") else (lambda k: FALSE)
            card = gLen(st, "card", 1) if case in ("child", "other") else ZERO
            kids = NIL if case == "nil" else self.kids(st, has, [(p, child)] if case == "child" else [], card)
            N = self.vertex(st, self.prefix(i), kids, parent)
            lst = self.nodes(st, i)
            back, out = self.iterate(vm, st, fr, header, blocks, phis(st, i, N, lst))
            t = "%s.down.%s" % (self.tag, case)
            if case != "child" and self.lookup:
                ob(t + ".absent", bool(out) and not back, "a vertex that is not there is walked to: %s" % (back + out))
                frames(vm, st, ob, t, out)
                for e in out:
                    e.st.events += ("absent",)
                    missing.append(e)
                continue
            ob(t + ".steps", bool(back) and not out, "the walk ends on the way: %s" % (out,))
            for e in back:
                nv = loops.edge_vals(vm, e.st, fr, header, e.prev)
                S = e.st
                nxt = next(nv[n] for n in nv if roles[n] == "node")
                want = fmt_s(vm, S, sconst(b"%s.%d"), [Iface("string", self.prefix(i)), Iface("uint16", p)])
                for n, k in roles.items():
                    if k == "count":
                        ob(t + ".count", S.ctx.proves(eq(nv[n], iadd(init[n], iadd(i, 1)))), "%s" % show(nv[n]))
                    elif k == "key":
                        ob(t + ".key", nv[n] is want, "the key is %s" % show(nv[n])[:200])
                    elif k == "list":
                        self.appended(t, S, nv[n], lst, i, N)
                if case == "child":
                    ob(t + ".child", nxt == child, "the next vertex is %s" % (nxt,))
                else:
                    new = isinstance(nxt, Ptr) and nxt.ref not in st.heap and isinstance(S.heap.get(nxt.ref), Var) and S.heap[nxt.ref].t == VT
                    ob(t + ".new", new, "the next vertex is %s" % (nxt,))
                    if new:
                        g = self.fields(S, nxt)
                        d = g["Descendants"]
                        ob(t + ".new vertex", g["key"] is want and g["Data"] is NIL and g["Parent"] == N and (d is NIL or isinstance(d, MapP) and S.obj(d.ref).card is ZERO and not S.obj(d.ref).upd),
                           "the new vertex is %s" % (g,))
                g = self.fields(S, N)
                d = g["Descendants"]
                ok = isinstance(d, MapP)
                ob(t + ".kids", ok, "%s" % (d,))
                if ok:
                    o = S.obj(d.ref)
                    q = isym(fresh("q"))
                    c = S.ctx.assume(Not(eq(q, p)), le(0, q))
                    h, w = map_get(c, o, q)
                    ob(t + ".others", (h is has(q) or norm.split_prove(c.assume(h), lambda x: x.proves(has(q))) and norm.split_prove(c.assume(has(q)), lambda x: x.proves(h)))
                       and (h is FALSE or veq(c, S, w, S, self.kid(q))), "another child is changed: %s %s" % (show(h), w))
                    h, w = map_get(S.ctx, o, p)
                    ob(t + ".at", h is TRUE and w == nxt, "the vertex is not its parent's child: %s %s" % (show(h), w))
                keep = [(N.ref, "Descendants")]
                S2 = S.clone()
                if isinstance(kids, MapP):
                    S2.heap[kids.ref] = st.heap[kids.ref]
                frames(vm, st, ob, t, [V.Ev("back", S2)], keep)
        # the end of the path
        st = st0.clone()
        st.ctx = st.ctx.assume(le(0, isym("data.n")))
        above = self.above = self.vertex(st, Opq("above"), Opq("above"), Opq("above"))
        leaf = self.leaf = self.vertex(st, self.prefix(self.L), Opq("below"), above)
        self.list = self.nodes(st, self.L)
        back, out = self.iterate(vm, st, fr, header, blocks, phis(st, self.L, leaf, self.list))
        ob(self.tag + ".down.ends", bool(out) and not back and all(e.kind in ("exit", "ret") for e in out), "%s" % (back + out,))
        frames(vm, st, ob, self.tag + ".down.end", out)
        self.end = st
        return out + missing

    def absent(self, e):
        return isinstance(e.val, Tup) and e.val.v[2] is FALSE

    def appended(self, t, S, v, lst, i, N):
        ok = isinstance(v, SliceV) and S.ctx.proves(eq(v.n, iadd(i, 1)))
        self.ob(t + ".list", ok, "%s" % (v,))
        if ok:
            at = lambda c, j: aget(c, S.obj(v.ref), iadd(v.off, j), None, S)
            self.ob(t + ".last", veq(S.ctx, S, at(S.ctx, i), S, Iface("*" + VT, N)), "the list ends with %s" % (at(S.ctx, i),))
            q = isym(fresh("q"))
            c = S.ctx.assume(le(0, q), lt(q, i))
            self.ob(t + ".before", veq(c, S, at(c, q), S, Iface("*" + VT, Opq(schunk("node", q)))), "the list is changed")

    # ---- up
    def update(self, vm, st, A):
        self.calls.append((st, A))
        return [V.Ev("ret", st, Iface("string", ssym("updated", isym("data.n"))))]

    def up(self, vm, st0, fr, header, blocks, init, roles):
        ob, t = self.ob, self.tag + ".up"
        ob(t + ".once", len(self.seen) == 2, "more walks than two: %s" % self.seen)
        node = next(v for n, v in init.items() if roles[n] == "node")
        ob(t + ".from", node == self.above, "the way up starts at %s" % (node,))
        frames(vm, self.end, ob, t + ".leaf", [V.Ev("exit", st0)], [(self.leaf.ref, "Data")])
        ob(t + ".stored", self.fields(st0, self.leaf)["Data"] == self.new, "the leaf holds %s" % (self.fields(st0, self.leaf)["Data"],))
        i = isym(fresh("i"))
        last = isub(self.L, 1)
        flags = [n for n in roles if roles[n] == "flag"]
        ob(t + ".flag", all(init[n] is TRUE for n in flags) and len(flags) <= 1, "%s" % (init,))

        def phis(at, node):
            return {n: node if k == "node" else iadd(init[n], isub(at, last)) if k == "count" else eq(at, last) for n, k in roles.items()}
        for case in ("inner", "root"):
            st = st0.clone()
            st.ctx = st.ctx.assume(le(0, i), lt(i, self.L), eq(i, 0) if case == "root" else le(1, i))
            for at_last in (True, False):
                s = st.assume(eq(i, last) if at_last else lt(i, last))
                parent = NIL if case == "root" else self.vertex(s, Opq("above"), Opq("above"), Opq("above"))
                has = lambda k: And(bapp("kid", k), le(0, k), lt(k, self.F))
                N = self.vertex(s, self.prefix(i), self.kids(s, has, (), gLen(s, "card", 1)), parent)
                old = self.fields(s, N)["Data"]
                u = "%s.%s.%s" % (t, case, "last" if at_last else "before")
                self.calls = []
                back, out = self.iterate(vm, s, fr, header, blocks, phis(i, N))
                if s.ctx.inconsistent():
                    continue
                ob(u + ".steps", bool(back) and not out, "the way up ends early: %s" % (out,))
                ob(u + ".updates", bool(self.calls), "the vertex is not updated")
                for S, (key, data, desc, leaves, index) in self.calls:
                    ob(u + ".key", key is self.prefix(i), "key %s" % (key,))
                    ob(u + ".old", data == old, "content %s" % (data,))
                    ob(u + ".layer", S.ctx.decide(leaves) is at_last, "right above the leaves: %s" % show(leaves))
                    ob(u + ".index", norm.split_prove(S.ctx, lambda c: c.proves(eq(index, iapp("path", i)))), "index %s" % show(index))
                    ok = isinstance(desc, SliceV) and S.ctx.proves(eq(desc.n, self.F))
                    ob(u + ".children", ok, "%s" % (desc,))
                    if ok:
                        q = isym(fresh("q"))
                        c = S.ctx.assume(le(0, q), lt(q, self.F))

                        def go(cc):
                            h = cc.decide(bapp("kid", q))
                            if h is None:
                                raise NeedSplit(bapp("kid", q))
                            w = aget(cc, S.obj(desc.ref), iadd(desc.off, q), None, S)
                            return veq(cc, S, w, S, Iface("string", mk("sapp", ("kid", q), "S")) if h else NIL)
                        ob(u + ".content", norm.split_prove(c, go), "the children's content is not what is passed")
                for e in back:
                    nv = loops.edge_vals(vm, e.st, fr, header, e.prev)
                    S = e.st
                    for n, k in roles.items():
                        if k == "node":
                            ob(u + ".next", nv[n] == parent, "the next vertex is %s" % (nv[n],))
                        elif k == "count":
                            ob(u + ".count", S.ctx.proves(eq(nv[n], iadd(init[n], isub(isub(i, 1), last)))), "%s" % show(nv[n]))
                        else:
                            ob(u + ".flag", nv[n] is FALSE, "%s" % (nv[n],))
                    ob(u + ".data", veq(S.ctx, S, self.fields(S, N)["Data"], S, Iface("string", ssym("updated", isym("data.n")))), "%s" % (self.fields(S, N)["Data"],))
                    frames(vm, s, ob, u, [e], [(N.ref, "Data")])
        st = st0.clone()
        back, out = self.iterate(vm, st, fr, header, blocks, phis(I(-1), NIL))
        ob(t + ".ends", bool(out) and not back and all(e.kind in ("exit", "ret") for e in out), "%s" % (back + out,))
        frames(vm, st, ob, t + ".end", out)
        self.end = st0
        return out

    def run(self, tag, name, root, *args):
        self.tag, self.lookup, self.seen, self.calls = tag, name == "Get", [], []
        st = self.st.clone()
        st.ctx = st.ctx.assume(le(0, isym("data.n")))
        r = NIL
        if root:
            r = self.vertex(st, SEMPTY, Opq("kids"), NIL)
        self.t = self.tree(st, r)
        self.root = r
        loops.MANUAL[0] = self.handler
        try:
            evs = run_split(st, lambda s: self.vm.call_fn(s, "(*pol/sparse.Tree)." + name, [self.t, ssym("id", isym("data.n"))] + list(args)))
        finally:
            loops.MANUAL[0] = None
        return st, [e for e in evs if not e.st.ctx.inconsistent()]


@lemma("C05.get", "C05", "(*pol/sparse.Tree).Get")
def _(vm, st0, ob):
    """Get returns the content of the vertex at the path and the vertices before it, or absence, and changes nothing: all paths, all trees"""
    w = Walk(vm, st0, ob)
    st, es = w.run("empty", "Get", False)
    ob("empty", bool(es) and all(e.kind == "ret" and w.absent(e) for e in es), "%s" % es)
    frames(vm, st, ob, "empty", es)
    st, es = w.run("tree", "Get", True)
    ob("outcomes", len(w.seen) == 1, "%s" % es)
    n = m = 0
    for e in es:
        ob("returns", e.kind == "ret", "%s" % e)
        if e.kind != "ret":
            continue
        if "absent" in e.st.events:
            n += 1
            ob("absent", w.absent(e), "Get finds what is not there: %s" % (e.val,))
            continue
        d, l, ok = e.val.v
        ob("content", veq(e.st.ctx, e.st, d, w.end, w.fields(w.end, w.leaf)["Data"]), "Get returns %s" % (d,))
        ob("vertices", l == w.list, "the vertices are %s" % (l,))
        ob("found", ok is TRUE, "%s" % (ok,))
        m += 1
    ob("reached", n >= 3 and m > 0, "%s" % es)


@lemma("C05.put", "C05", "(*pol/sparse.Tree).Put")
def _(vm, st0, ob):
    """Put creates what is missing of the path, sets the content at its end and updates the vertices on the way back to the root, and nothing else"""
    for root in (True, False):
        w = Walk(vm, st0, ob)
        w.new = Iface("int64", isym("amount"))
        tag = "tree" if root else "empty"
        st, es = w.run(tag, "Put", root, w.new)
        ob(tag + ".outcomes", bool(es) and len(w.seen) == 2, "%s" % es)
        ob(tag + ".returns", all(e.kind == "ret" for e in es), "%s" % es)
        frames(vm, w.end, ob, tag + ".done", es)
