"""Symbolic executor over the exported SSA."""
import json, sys
from .terms import *
from .ctx import Ctx, NeedSplit
from . import norm
from .values import *

sys.setrecursionlimit(20000)
_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


class Oid:
    """heap reference"""
    __slots__ = ("n",)

    def __init__(self):
        self.n = new_oid()

    def __repr__(self):
        return "#%d" % self.n


class State:
    __slots__ = ("heap", "ctx", "regs", "defers", "path", "loopv", "cnt", "depth", "events", "loopobs")

    def __init__(self, ctx=None):
        self.heap, self.ctx, self.regs, self.defers = {}, ctx or Ctx(), {}, []
        self.path, self.loopv, self.cnt, self.depth = (), (), {}, 0
        self.events = ()
        self.loopobs = 0

    def clone(self):
        s = State.__new__(State)
        s.heap, s.ctx, s.regs = dict(self.heap), self.ctx, dict(self.regs)
        s.defers, s.path, s.loopv, s.cnt, s.depth = list(self.defers), self.path, self.loopv, dict(self.cnt), self.depth
        s.events = self.events
        s.loopobs = self.loopobs
        return s

    def assume(self, *b):
        s = self.clone()
        s.ctx = s.ctx.assume(*b)
        return s

    def alloc(self, o):
        r = Oid()
        self.heap[r] = o
        return r

    def obj(self, ref):
        return self.heap[ref] if isinstance(ref, Oid) else ref

    # -- deterministic fresh symbols (functions of the enclosing loop counters)
    def freshname(self, tag):
        k = "/".join(self.path) + ":" + tag
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        import hashlib
        return "%s@%s.%d" % (tag, hashlib.blake2b(k.encode(), digest_size=5).hexdigest(), n)

    def freshF(self, tag, *idx):
        return fapp(self.freshname(tag), *(self.loopv + tuple(idx)))

    def freshI(self, tag, *idx):
        return iapp(self.freshname(tag), *(self.loopv + tuple(idx)))

    # -- snapshots: replace heap references by inline frozen objects
    def snap(self, v, seen=None):
        if isinstance(v, (T, M)) or v is NIL:
            return v
        if isinstance(v, Ptr):
            o = self.obj(v.ref)
            if isinstance(o, Cell) and not v.path:
                if seen is not None:
                    seen.add(v.ref)
                return M(o.kind, o.f, o.canon, o.rep)
            if isinstance(v.ref, Oid):
                if seen is not None:
                    seen.add(v.ref)
                return Ptr(self.snapo(o, seen), v.path)
            return v
        if isinstance(v, SliceV):
            if isinstance(v.ref, Oid):
                if seen is not None:
                    seen.add(v.ref)
                return SliceV(self.snapo(self.obj(v.ref), seen), v.off, v.n)
            return v
        if isinstance(v, StructV):
            return StructV(v.t, {k: self.snap(x, seen) for k, x in v.f.items()})
        if isinstance(v, ArrV):
            return ArrV(tuple(self.snap(x, seen) for x in v.v))
        if isinstance(v, Tup):
            return Tup(tuple(self.snap(x, seen) for x in v.v))
        if isinstance(v, Iface):
            return Iface(v.t, self.snap(v.v, seen), v.nilc)
        if isinstance(v, MapP):
            if isinstance(v.ref, Oid):
                return MapP(self.snapo(self.obj(v.ref), seen), v.nilc)
            return v
        if isinstance(v, Clo):
            return Clo(v.fn, tuple(self.snap(x, seen) for x in v.bind))
        return v

    def snapo(self, o, seen=None):
        if isinstance(o, AObj):
            return AObj(o.et, o.n, o.s, o.base, tuple((l[0], l[1], self.snap(l[2], seen)) if l[0] == "pt" else l for l in o.layers), False, o.app)
        if isinstance(o, Var):
            return Var(self.snap(o.v, seen), o.t, False)
        if isinstance(o, Cell):
            return o.rep_(own=False)
        if isinstance(o, MapObj):
            return o.rep_(upd=tuple((k, self.snap(x, seen), c) for k, x, c in o.upd), own=False)
        return o


class Ev:
    """execution event: kind in ret panic back exit"""
    __slots__ = ("kind", "st", "val", "block", "prev")

    def __init__(self, kind, st, val=None, block=None, prev=None):
        self.kind, self.st, self.val, self.block, self.prev = kind, st, val, block, prev

    def __repr__(self):
        return "Ev(%s,%s)" % (self.kind, self.val)


class Fn:
    def __init__(self, j):
        self.j = j
        self.name = j["name"]
        self.params = j["params"] or []
        self.free = j["free"] or []
        self.blocks = j["blocks"] or []
        self.loops = None

    def loopinfo(self):
        if self.loops is not None:
            return self.loops
        n = len(self.blocks)
        idom = [b["idom"] for b in self.blocks]

        def dom(a, b):
            while b != -1:
                if a == b:
                    return True
                b = idom[b]
            return False
        loops = {}
        for b in self.blocks:
            for s in b["succs"]:
                if dom(s, b["i"]):
                    body = loops.setdefault(s, {s})
                    st = [b["i"]]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.blocks[x]["preds"])
        self.loops = loops
        return loops


INTW = {"int": 64, "int64": 64, "int32": 32, "int16": 16, "int8": 8, "uint": 64, "uint64": 64, "uint32": 32, "uint16": 16, "uint8": 8, "byte": 8, "uintptr": 64, "rune": 32}
CURVEP = "*github.com/IBM/mathlib.Curve"
MATHK = {"github.com/IBM/mathlib.Zr": "Zr", "github.com/IBM/mathlib.G1": "G1", "github.com/IBM/mathlib.G2": "G2",
         "github.com/IBM/mathlib.Gt": "Gt", "math/big.Int": "Big"}


class VM:
    def __init__(self, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        self.fns = {f["name"]: Fn(f) for f in d["functions"]}
        self.types = d["types"]
        self.gtypes = {g["name"]: g["type"] for g in d["globals"]}
        self.globals = {}
        self.contracts = {}
        self.axcontracts = {}
        self.obligations = []        # (name, ok)
        self.used = set()            # functions executed / contracts used
        self.stats = {"paths": 0, "loops": 0, "inlined": 0}
        self.trace = False
        from . import ext
        self.ext = ext
        self.gstate = State()
        self._init_globals()

    # ---------------------------------------------------------------- types
    def under(self, t):
        d = self.types.get(t)
        while d is not None and d["kind"] == "named":
            t = d["under"]
            d = self.types.get(t)
        return d or {"kind": "other"}

    def zero(self, t, st=None):
        if t in MATHK:
            raise Unsupported("zero value of " + t)
        d = self.under(t)
        k = d["kind"]
        if k == "basic":
            n = d["name"]
            if n == "bool":
                return FALSE
            if n == "string":
                return SEMPTY
            return ZERO
        if k == "slice":
            return NILSLICE
        if k == "struct":
            return StructV(t, {f["name"]: self.zero(f["type"]) if f["type"] not in MATHK else Opq(f["type"]) for f in (d["fields"] or [])})
        if k == "array":
            return ArrV(tuple(self.zero(d["elem"]) for _ in range(d["len"])))
        return NIL

    def isbytes(self, t):
        d = self.under(t)
        return d["kind"] == "slice" and self.under(d["elem"]).get("name") in ("uint8", "byte")

    # ---------------------------------------------------------------- globals
    def _init_globals(self):
        st = self.gstate
        order = ["pol/common", "pol/pp", "pol/bp", "pol/sum", "pol/poe", "pol/sparse", "pol/verkle", "pol/pol"]
        for g, t in self.gtypes.items():
            el = self.types[t]["elem"] if self.types.get(t, {}).get("kind") == "ptr" else t
            try:
                z = self.zero(el)
            except Unsupported:
                z = Opq(el)
            self.globals[g] = st.alloc(Var(z, el))
        for p in order:
            for name in [p + ".init"] + sorted(n for n in self.fns if n.startswith(p + ".init#")):
                f = self.fns.get(name)
                if f is None:
                    continue
                if name.endswith(".init"):
                    # package initialiser also calls init#k itself
                    evs = self.call_fn(st, name, [], ())
                    evs = [e for e in evs if e.kind == "ret"]
                    if len(evs) != 1:
                        raise Unsupported("package initialiser " + name)
                    st = evs[0].st
        # globals are shared constants from here on
        for r, o in list(st.heap.items()):
            if isinstance(o, (Cell, Var, AObj, MapObj)):
                st.heap[r] = o.rep_(own=False)
        self.gstate = st

    def fresh_state(self, ctx=None):
        st = State(ctx)
        st.heap = dict(self.gstate.heap)
        return st

    # ---------------------------------------------------------------- operands
    def const(self, c):
        t = c["t"]
        if c.get("nil"):
            k = self.under(t)["kind"]
            if k == "slice":
                return NILSLICE
            if k == "struct":
                return self.zero(t)
            if k == "map":
                return NIL
            return NIL
        if c.get("str"):
            return sconst(c["v"].encode())
        if c.get("int"):
            return I(int(c["v"]))
        v = c.get("v")
        if isinstance(v, bool):
            return TRUE if v else FALSE
        raise Unsupported("const %r" % (c,))

    def val(self, st, fr, o):
        k = o["k"]
        if k == "reg":
            return st.regs[o["n"]]
        if k == "const":
            return self.const(o)
        if k == "param":
            return fr["args"][o["i"]]
        if k == "free":
            return fr["bind"][o["i"]]
        if k == "global":
            if o["n"] == "github.com/IBM/mathlib.Curves":
                return Ptr("CURVES")
            if o["n"] == "crypto/rand.Reader":
                return Ptr("RAND")
            if o["n"] == "encoding/binary.BigEndian":
                return Ptr("BE")
            if o["n"] not in self.globals:
                raise Unsupported("global " + o["n"])
            return Ptr(self.globals[o["n"]])
        if k == "func":
            return Clo(o["n"])
        raise Unsupported("operand " + k)

    # ---------------------------------------------------------------- memory
    def load(self, st, p):
        if isinstance(p, Ptr):
            if p.ref == "CURVES":
                if not p.path:
                    return Ptr("CURVES")
                return Curve(p.path[0])
            if p.ref == "RAND":
                return Opq("reader")
            if p.ref == "BE":
                return Opq("bigendian")
            if isinstance(p.ref, Curve):
                return self.ext.curve_field(p.ref, p.path[0])
            o = st.obj(p.ref)
            if isinstance(o, Var):
                return self._walk(st, o.v, p.path)
            if isinstance(o, AObj):
                if not p.path:
                    if o.n.op != "int":
                        raise Unsupported("load of array of symbolic length")
                    return ArrV(tuple(aget(st.ctx, o, I(i)) for i in range(o.n.args[0])))
                return self._walk(st, aget(st.ctx, o, p.path[0]), p.path[1:])
            raise Unsupported("load from %r" % (o,))
        if p is NIL:
            raise PanicEx("nil dereference")
        raise Unsupported("load %r" % (p,))

    def _walk(self, st, v, path):
        for x in path:
            if isinstance(v, StructV):
                v = v.f[x]
            elif isinstance(v, ArrV):
                if isinstance(x, T) and x.op == "int" and 0 <= x.args[0] < len(v.v):
                    v = v.v[x.args[0]]
                else:
                    raise Unsupported("array index")
            else:
                raise Unsupported("walk %r" % (v,))
        return v

    def _upd(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(v, StructV):
            d = dict(v.f)
            d[p] = self._upd(v.f[p], path[1:], x)
            return StructV(v.t, d)
        if isinstance(v, ArrV) and p.op == "int":
            l = list(v.v)
            l[p.args[0]] = self._upd(l[p.args[0]], path[1:], x)
            return ArrV(tuple(l))
        raise Unsupported("update")

    def store(self, st, p, x):
        if isinstance(p, Ptr) and isinstance(p.ref, AObj) and p.ref.app == "ext":
            raise Frame("store into a slice of the caller", True)
        if not isinstance(p, Ptr) or not isinstance(p.ref, Oid):
            raise Unsupported("store through %r" % (p,))
        o = st.heap[p.ref]
        if isinstance(o, Var):
            st.heap[p.ref] = o.rep_(v=self._upd(o.v, p.path, x))
            return
        if isinstance(o, AObj):
            if not p.path:
                if isinstance(x, ArrV):
                    for i, y in enumerate(x.v):
                        o = aput(o, I(i), y)
                    st.heap[p.ref] = o
                    return
                raise Unsupported("store array")
            if o.s is not None:
                o = self.unbyte(o)
            if len(p.path) > 1:
                x = self._upd(aget(st.ctx, o, p.path[0]), p.path[1:], x)
            st.heap[p.ref] = aput(o, p.path[0], x)
            return
        if isinstance(o, Buf) and not p.path and isinstance(x, StructV) and x.t == "bytes.Buffer":
            st.heap[p.ref] = Buf(SEMPTY)      # only the zero value can be copied (loads are refused)
            return
        raise Unsupported("store to %r" % (o,))

    def unbyte(self, o):
        s = o.s
        return AObj(o.et, o.n, None, lam(lambda k: mk("iapp", ("byteat", s, k), "I")), (), o.own, o.app)

    def bytes_of(self, st, v):
        """byte-string content of a []byte / string value"""
        if isinstance(v, T) and v.sort == "S":
            return v
        if isinstance(v, SliceV):
            if v.ref is None:
                return SEMPTY
            o = st.obj(v.ref)
            if o.s is not None:
                if v.off is ZERO and (v.n is o.n or st.ctx.proves(eq(v.n, o.n))):
                    return o.s
                return ssub(o.s, v.off, iadd(v.off, v.n), st.ctx)
            if v.n.op == "int" and v.n.args[0] <= 64:
                xs = [aget(st.ctx, o, iadd(v.off, i)) for i in range(v.n.args[0])]
                if xs and all(x.op == "iapp" and x.args[0] == "byteat" and x.args[1] is xs[0].args[1] and x.args[2] is I(i) for i, x in enumerate(xs)) and slen(xs[0].args[1]) is v.n:
                    return xs[0].args[1]
                return scat(*[u8chunk(x) for x in xs])
            k = fresh("e")
            x = aget(st.ctx.assume(le(0, isym(k)), lt(isym(k), v.n)), o, iadd(v.off, isym(k)), None, st)
            return smap(k, ZERO, v.n, u8chunk(x))
        raise Unsupported("bytes of %r" % (v,))

    def mkbytes(self, st, s):
        n = slen(s)
        return SliceV(st.alloc(AObj("uint8", n, s, None, ())), ZERO, n)

    def elem(self, st, v, i):
        """element i of slice value"""
        return aget(st.ctx, st.obj(v.ref), iadd(v.off, i))

    def mval(self, st, v):
        """current value of a math pointer as M"""
        if isinstance(v, M):
            if v.nilc is not FALSE:
                d = st.ctx.decide(v.nilc)
                if d is True:
                    raise PanicEx("nil dereference")
                if d is None:
                    raise NeedSplit(v.nilc)
                return M(v.kind, v.f, v.canon, v.rep)
            return v
        if isinstance(v, Ptr):
            o = st.obj(v.ref)
            if isinstance(o, Cell):
                return M(o.kind, o.f, o.canon, o.rep)
        if v is NIL:
            raise PanicEx("nil dereference")
        raise Unsupported("math value %r" % (v,))

    def newm(self, st, m):
        return Ptr(st.alloc(Cell(m.kind, m.f, m.canon, m.rep)))

    def setm(self, st, p, m):
        """in-place update of a math object"""
        if isinstance(p, M):
            if p.nilc is TRUE:
                raise PanicEx("nil dereference")
            raise Frame("in-place change of a %s that this function did not create: %s" % (p.kind, show(p.f)[:100] if p.f is not None else p.kind),
                        p.f is not None and p.f.op in ("sym", "fsym", "fapp") and "@" not in str(p.f.args[0]) and "!" not in str(p.f.args[0]))
        o = st.obj(p.ref)
        if not isinstance(p.ref, Oid) or not isinstance(o, Cell):
            raise Frame("in-place change of a shared object")
        st.heap[p.ref] = o.rep_(kind=m.kind, f=m.f, canon=m.canon, rep=m.rep)

    # ---------------------------------------------------------------- calls
    def call_value(self, st, fv, args, instr=None):
        """-> list of Ev (ret/panic)"""
        if isinstance(fv, Clo):
            return self.call_fn(st, fv.fn, list(args), fv.bind, instr)
        if isinstance(fv, PyFn):
            return fv.f(self, st, args)
        raise Unsupported("call of %r" % (fv,))

    def call_fn(self, st, name, args, bind=(), instr=None):
        c = self.contracts.get(name)
        if c is not None and st.path:
            r = c(self, st, args)
            if r is not None:
                self.used.add(("contract", name))
                return r
        if name.endswith("$bound"):
            return self.call_fn(st, name[:-6], list(bind) + list(args), (), instr)
        f = self.fns.get(name)
        if f is None or not f.blocks:
            h = self.ext.lookup(name)
            if h is None:
                raise Unsupported("external function " + name)
            r = h(self, st, args)
            if isinstance(r, list):
                return r
            return [Ev("ret", st, r)]
        if st.depth > 40:
            raise Unsupported("recursion: " + name)
        if any(p.split("!")[0] == name for p in st.path):
            raise Unsupported("recursion without contract: " + name)
        self.used.add(("body", name))
        self.stats["inlined"] += 1
        regs, defers, path = st.regs, st.defers, st.path
        st = st.clone()
        site = "" if instr is None else "%s" % (instr.get("_id", ""),)
        st.regs, st.defers, st.path, st.depth = {}, [], path + (name + "!" + site,), st.depth + 1
        fr = {"fn": f, "args": args, "bind": bind}
        out = []
        for e in self.run(st, fr, 0, 0, None, None):
            e.st.regs, e.st.defers, e.st.path, e.st.depth = dict(regs), list(defers), path, st.depth - 1
            out.append(e)
        return out

    # ---------------------------------------------------------------- execution
    def run(self, st, fr, bi, ii, prev, region):
        """region: None or (header, set of blocks) of the loop iteration being executed"""
        out = []
        nsplit = {}
        work = [(st, bi, ii, prev)]
        f = fr["fn"]
        loops = f.loopinfo()
        while work:
            st, bi, ii, prev = work.pop()
            blk = f.blocks[bi]
            instrs = blk["instrs"]
            # phis at block entry
            if ii == 0:
                if region is not None and bi == region[0] and prev is not None:
                    out.append(Ev("back", st, None, bi, prev))
                    continue
                if region is not None and bi not in region[1]:
                    out.append(Ev("exit", st, None, bi, prev))
                    continue
                if bi in loops and (region is None or bi != region[0]):
                    from . import loops as L
                    for e in L.handle(self, st, fr, bi, prev, loops[bi]):
                        if e.kind == "exit":
                            work.append((e.st, e.block, 0, e.prev))
                        else:
                            out.append(e)
                    continue
                if prev is not None:
                    st = st.clone()
                    ii = self.do_phis(st, fr, blk, prev)
                elif region is not None:
                    while ii < len(instrs) and instrs[ii]["op"] == "Phi":
                        ii += 1
            self.stats["paths"] += 1
            nxt = None
            while True:
                ins = instrs[ii]
                op = ins["op"]
                if "_id" not in ins:
                    ins["_id"] = "%d.%d" % (bi, ii)
                try:
                    if op == "Jump":
                        work.append((st, blk["succs"][0], 0, bi))
                        break
                    if op == "If":
                        c = self.val(st, fr, ins["cond"])
                        d = self.decide(st, c)
                        if d is None:
                            for b, s in ((c, 0), (Not(c), 1)):
                                s2 = st.assume(b)
                                if not s2.ctx.inconsistent():
                                    work.append((s2, blk["succs"][s], 0, bi))
                        else:
                            work.append((st, blk["succs"][0 if d else 1], 0, bi))
                        break
                    if op == "Return":
                        vs = [self.val(st, fr, x) for x in ins["results"]]
                        out.append(Ev("ret", st, vs[0] if len(vs) == 1 else (Tup(tuple(vs)) if vs else None)))
                        break
                    if op == "Panic":
                        out.append(Ev("panic", st, "panic"))
                        break
                    if op in ("Call", "Go"):
                        evs = self.do_call(st.clone(), fr, ins)
                        rets = []
                        for e in evs:
                            if e.kind == "ret":
                                rets.append(e)
                            else:
                                out.append(e)
                        if len(rets) == 1:
                            st = rets[0].st
                            if op == "Call":
                                st.regs[ins["n"]] = rets[0].val
                            ii += 1
                            continue
                        for e in rets:
                            if op == "Call":
                                e.st.regs[ins["n"]] = e.val
                            work.append((e.st, bi, ii + 1, prev))
                        break
                    if op == "RunDefers":
                        evs = [Ev("ret", st.clone())]
                        for clo, args in reversed(st.defers):
                            nx = []
                            for e in evs:
                                if e.kind != "ret":
                                    nx.append(e)
                                else:
                                    nx += self.call_value(e.st, clo, args, ins)
                            evs = nx
                        for e in evs:
                            if e.kind == "ret":
                                e.st.defers = []
                                work.append((e.st, bi, ii + 1, prev))
                            else:
                                out.append(e)
                        break
                    st2 = st.clone() if op in ("Store", "Alloc", "MakeSlice", "MakeMap", "MapUpdate", "Slice", "Defer", "Range", "Next", "Convert", "IndexAddr") else st
                    self.step(st2, fr, ins)
                    st = st2
                    ii += 1
                except NeedSplit as e:
                    nsplit[bi, ii] = nsplit.get((bi, ii), 0) + 1
                    if nsplit[bi, ii] > 200:
                        raise Unsupported("case distinctions without end at " + op)
                    live = 0
                    for b in (e.cond, Not(e.cond)):
                        s2 = st.assume(b)
                        if not s2.ctx.inconsistent():
                            live += 1
                            work.append((s2, bi, ii, prev))
                    break
                except PanicEx as e:
                    out.append(Ev("panic", st, str(e)))
                    break
        return out

    def decide(self, st, c):
        if norm._hasfield(c):
            try:
                r = norm._decide_field(st.ctx, c)
            except norm.Give:
                r = None
            if r is None and c.op in ("feq", "not", "or", "and"):
                r = st.ctx.decide(c)
            return r
        return st.ctx.decide(c)

    def do_phis(self, st, fr, blk, prev):
        i = 0
        vals = {}
        pi = blk["preds"].index(prev)
        for ins in blk["instrs"]:
            if ins["op"] != "Phi":
                break
            vals[ins["n"]] = self.val(st, fr, ins["edges"][pi])
            i += 1
        st.regs.update(vals)
        return i

    def do_call(self, st, fr, ins):
        args = [self.val(st, fr, a) for a in ins["args"]]
        if "invoke" in ins:
            recv = self.val(st, fr, ins["recv"])
            return self.invoke(st, recv, ins["invoke"], args, ins)
        fn = ins["fn"]
        if fn["k"] == "builtin":
            return self.ext.builtin(self, st, fn["n"], args, ins)
        if ins.get("callee") and fn["k"] == "func":
            return self.call_fn(st, ins["callee"], args, (), ins)
        fv = self.val(st, fr, fn)
        return self.call_value(st, fv, args, ins)

    def invoke(self, st, recv, meth, args, ins):
        if recv is NIL:
            return [Ev("panic", st, "nil interface")]
        if isinstance(recv, Iface):
            d = st.ctx.decide(recv.nilc)
            if d is None:
                raise NeedSplit(recv.nilc)
            if d:
                return [Ev("panic", st, "nil interface")]
            if recv.t == "hash":
                return self.ext.hash_method(self, st, recv.v, meth, args)
            if callable(getattr(recv.v, "f", None)):
                return recv.v.f(self, st, meth, args)
            t = recv.t
            # concrete method
            name = "(%s).%s" % (t, meth)
            return self.call_fn(st, name, [recv.v] + args, (), ins)
        raise Unsupported("invoke %s on %r" % (meth, recv))

    # ---------------------------------------------------------------- instructions
    def step(self, st, fr, ins):
        op = ins["op"]
        R = st.regs
        V_ = lambda o: self.val(st, fr, o)
        if op == "Alloc":
            t = self.types[ins["t"]]["elem"]
            R[ins["n"]] = Ptr(self.alloc_type(st, t))
        elif op == "BinOp":
            R[ins["n"]] = self.binop(st, ins["tok"], V_(ins["x"]), V_(ins["y"]), ins)
        elif op == "UnOp":
            x = V_(ins["x"])
            if ins["tok"] == "*":
                R[ins["n"]] = self.load(st, x)
            elif ins["tok"] == "!":
                R[ins["n"]] = Not(x)
            elif ins["tok"] == "-":
                R[ins["n"]] = iscale(x, -1)
            else:
                raise Unsupported("unop " + ins["tok"])
        elif op in ("ChangeType", "ChangeInterface"):
            R[ins["n"]] = V_(ins["x"])
        elif op == "MultiConvert":
            R[ins["n"]] = V_(ins["x"])
        elif op == "Convert":
            R[ins["n"]] = self.convert(st, V_(ins["x"]), ins["xt"], ins["t"])
        elif op == "MakeInterface":
            x = V_(ins["x"])
            R[ins["n"]] = x if isinstance(x, (ErrV, ErrC)) else Iface(ins["xt"], x)
        elif op == "MakeClosure":
            R[ins["n"]] = Clo(V_(ins["fn"]).fn, tuple(V_(b) for b in ins["bind"]))
        elif op == "MakeMap":
            d = self.under(ins["t"])
            R[ins["n"]] = MapP(st.alloc(MapObj(d["key"], d["elem"], Lam("_", FALSE), Lam("_", NIL), (), True, ZERO)))
        elif op == "MakeSlice":
            n = V_(ins["len"])
            cp = V_(ins["cap"])
            c = And(le(0, n), le(n, cp))
            if st.ctx.decide(c) is None:
                raise NeedSplit(c)
            if st.ctx.decide(c) is False:
                raise PanicEx("makeslice")
            et = self.under(ins["t"])["elem"]
            z = self.zero(et)
            R[ins["n"]] = SliceV(st.alloc(AObj(et, n, None, Lam("_", z), ())), ZERO, n)
        elif op == "Slice":
            R[ins["n"]] = self.slice(st, ins, V_)
        elif op == "FieldAddr":
            x = V_(ins["x"])
            if isinstance(x, Curve):
                R[ins["n"]] = Ptr(x, (ins["f"],))
            elif isinstance(x, Ptr):
                R[ins["n"]] = Ptr(x.ref, x.path + (ins["f"],))
            elif x is NIL:
                raise PanicEx("nil dereference")
            else:
                raise Unsupported("fieldaddr of %r" % (x,))
        elif op == "Field":
            x = V_(ins["x"])
            R[ins["n"]] = x.f[ins["f"]]
        elif op == "IndexAddr":
            R[ins["n"]] = self.indexaddr(st, V_(ins["x"]), V_(ins["i"]))
        elif op == "Index":
            x, i = V_(ins["x"]), V_(ins["i"])
            if isinstance(x, ArrV):
                R[ins["n"]] = self._walk(st, x, (i,))
            else:
                s = self.bytes_of(st, x)
                self.bounds(st, i, slen(s))
                R[ins["n"]] = sget(st.ctx, s, i)
        elif op == "Lookup":
            self.ext.lookup_map(self, st, ins, V_(ins["x"]), V_(ins["i"]))
        elif op == "TypeAssert":
            self.typeassert(st, ins, V_(ins["x"]))
        elif op == "Extract":
            x = V_(ins["x"])
            R[ins["n"]] = x.v[ins["i"]]
        elif op == "Store":
            self.store(st, V_(ins["addr"]), V_(ins["val"]))
        elif op == "MapUpdate":
            m = V_(ins["m"])
            o = st.obj(m.ref)
            if not isinstance(m.ref, Oid):
                raise Frame("map update of a shared map")
            st.heap[m.ref] = o.rep_(upd=o.upd + ((V_(ins["key"]), V_(ins["val"]), TRUE),), card=None)
        elif op == "Defer":
            if "invoke" in ins:
                raise Unsupported("defer invoke")
            fn = ins["fn"]
            if fn["k"] == "builtin":
                raise Unsupported("defer builtin")
            st.defers = st.defers + [(V_(fn), [V_(a) for a in ins["args"]])]
        elif op == "Range":
            x = V_(ins["x"])
            R[ins["n"]] = self.ext.range_map(self, st, x)
        elif op == "Next":
            self.ext.next_map(self, st, ins, V_(ins["x"]))
        else:
            raise Unsupported("instruction " + op)

    def alloc_type(self, st, t):
        if t in MATHK:
            if t == "math/big.Int":
                return st.alloc(Cell("Big", None, True, ZERO))
            raise Unsupported("alloc " + t)
        if t == "bytes.Buffer":
            return st.alloc(Buf(SEMPTY))
        if t == "sync/atomic.Value":
            return st.alloc(Var(NIL, t))
        if t.startswith("sync."):
            return st.alloc(Var(Opq(t), t))
        d = self.under(t)
        if d["kind"] == "array":
            return st.alloc(AObj(d["elem"], I(d["len"]), None, Lam("_", self.zero(d["elem"])), ()))
        return st.alloc(Var(self.zero(t), t))

    def bounds(self, st, i, n):
        c = And(le(0, i), lt(i, n))
        d = st.ctx.decide(c)
        if d is None:
            # decide the two halves separately so that the facts are usable
            for h in (le(0, i), lt(i, n)):
                if st.ctx.decide(h) is None:
                    raise NeedSplit(h)
        if d is False:
            raise PanicEx("index out of range")

    def indexaddr(self, st, x, i):
        if isinstance(x, SliceV):
            if x.ref is None:
                raise PanicEx("index out of range")
            self.bounds(st, i, x.n)
            return Ptr(x.ref, (iadd(x.off, i),))
        if isinstance(x, Ptr):
            if x.ref == "CURVES":
                return Ptr("CURVES", (i,))
            o = st.obj(x.ref)
            if isinstance(o, AObj) and not x.path:
                self.bounds(st, i, o.n)
            elif i.op != "int":
                v = self.load(st, x)
                for k in range(len(v.v)):
                    d = st.ctx.decide(eq(i, k))
                    if d is None:
                        raise NeedSplit(eq(i, k))
                    if d:
                        i = I(k)
                        break
            return Ptr(x.ref, x.path + (i,))
        raise Unsupported("indexaddr %r" % (x,))

    def slice(self, st, ins, V_):
        x = V_(ins["x"])
        lo = V_(ins["low"]) if ins.get("low") else ZERO
        hi = V_(ins["high"]) if ins.get("high") else None
        if ins.get("max"):
            raise Unsupported("full slice expression")
        if isinstance(x, T) and x.sort == "S":
            n = slen(x)
            hi = n if hi is None else hi
            self.cslice(st, lo, hi, n)
            return ssub(x, lo, hi, st.ctx)
        if isinstance(x, Ptr):
            o = st.obj(x.ref)
            if isinstance(o, AObj) and not x.path:
                hi = o.n if hi is None else hi
                self.cslice(st, lo, hi, o.n)
                return SliceV(x.ref, lo, isub(hi, lo))
            v = self.load(st, x)
            if isinstance(v, ArrV):
                # a read-only view of an array that lies inside another object
                a = AObj(None, I(len(v.v)), None, None, tuple(("pt", I(i), y) for i, y in enumerate(v.v)), False)
                hi = a.n if hi is None else hi
                self.cslice(st, lo, hi, a.n)
                return SliceV(a, lo, isub(hi, lo))
            raise Unsupported("slice of pointer")
        if isinstance(x, SliceV):
            hi = x.n if hi is None else hi
            # capacity beyond the length is not modelled: reslicing past the length is an error here
            self.cslice(st, lo, hi, x.n)
            if x.ref is None:
                return x
            return SliceV(x.ref, iadd(x.off, lo), isub(hi, lo))
        raise Unsupported("slice %r" % (x,))

    def cslice(self, st, lo, hi, n):
        for c in (le(0, lo), le(lo, hi), le(hi, n)):
            d = st.ctx.decide(c)
            if d is None:
                raise NeedSplit(c)
            if d is False:
                raise PanicEx("slice bounds out of range")

    def wrap(self, st, v, t):
        d = self.under(t)
        n = d.get("name")
        if n in ("uint8", "byte", "uint16", "uint32", "uint64", "uint"):
            w = INTW[n]
            if v.op == "int":
                return I(v.args[0] % (1 << w))
            if v.op in ("imod",) and v.args[1].op == "int" and v.args[1].args[0] <= (1 << w):
                return v
            if st.ctx.proves(And(le(0, v), lt(v, 1 << w))):
                return v
            return imod(v, 1 << w)
        return v

    def binop(self, st, tok, x, y, ins):
        ctx = st.ctx
        if tok in ("==", "!="):
            b = self.equal(st, x, y)
            return b if tok == "==" else Not(b)
        if isinstance(x, T) and x.sort == "S" and tok == "+":
            return scat(x, y)
        if not (isinstance(x, T) and isinstance(y, T)):
            raise Unsupported("binop " + tok)
        if tok == "<":
            return lt(x, y)
        if tok == "<=":
            return le(x, y)
        if tok == ">":
            return lt(y, x)
        if tok == ">=":
            return le(y, x)
        t = ins["t"]
        if tok == "+":
            return self.wrap(st, iadd(x, y), t)
        if tok == "-":
            return self.wrap(st, isub(x, y), t)
        if tok == "*":
            return self.wrap(st, imul(x, y), t)
        if tok in ("/", "%"):
            d = ctx.decide(eq(y, 0))
            if d is None:
                raise NeedSplit(eq(y, 0))
            if d:
                raise PanicEx("division by zero")
            for c in (lt(0, y), le(0, x)):
                d = ctx.decide(c)
                if d is None:
                    raise NeedSplit(c)
                if d is False:
                    return mk("iapp", ("negdiv" if tok == "/" else "negmod", x, y), "I")
            return sidiv(x, y, ctx) if tok == "/" else simod(x, y, ctx)
        if tok == "&":
            if y.op != "int":
                x, y = y, x
            if y.op == "int" and (y.args[0] + 1) & y.args[0] == 0:
                if not self.ext.nonneg(st, x):
                    return mk("iapp", ("negand", x, y), "I")
                return simod(x, I(y.args[0] + 1), ctx)
        if tok == ">>":
            if y.op == "int":
                if not self.ext.nonneg(st, x):
                    return mk("iapp", ("negshr", x, y), "I")
                return sidiv(x, I(1 << y.args[0]), ctx)
            if self.ext.nonneg(st, x) and ctx.decide(le(0, y)) is True:
                return sidiv(x, ipow(I(2), y), ctx)
        if tok == "<<":
            if y.op == "int":
                return self.wrap(st, imul(x, 1 << y.args[0]), t)
            if x.op == "int" and ctx.decide(le(0, y)) is True:
                return self.wrap(st, imul(x, ipow(I(2), y)), t)
        raise Unsupported("binop " + tok)

    def nilcond(self, v):
        if v is NIL:
            return TRUE
        if isinstance(v, (M, Iface, MapP)):
            return v.nilc
        if isinstance(v, ErrC):
            return Not(v.c)
        if isinstance(v, SliceV):
            if v.ref is None:
                return TRUE
            return bapp("slicenil", ZERO) if v.n is not ZERO else FALSE
        return FALSE

    def equal(self, st, x, y):
        if x is NIL or y is NIL:
            return self.nilcond(y if x is NIL else x)
        if isinstance(x, SliceV) and x.ref is None:
            return self.nilcond(y)
        if isinstance(y, SliceV) and y.ref is None:
            return self.nilcond(x)
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == "I":
                return eq(x, y)
            if x.sort == "B":
                return bite(x, y, Not(y))
            if x.sort == "S":
                if x.op == "sconst" and y.op == "sconst":
                    return TRUE if x is y else FALSE
                return beq(x, y)
        raise Unsupported("== on %r" % (x,))

    def convert(self, st, x, xt, t):
        d, s = self.under(t), self.under(xt)
        if d["kind"] == "basic" and d["name"] == "string":
            if s["kind"] == "slice":
                return self.bytes_of(st, x)
            if s["kind"] == "basic" and s["name"] == "string":
                return x
            raise Unsupported("convert to string")
        if d["kind"] == "slice" and s["kind"] == "basic":
            return self.mkbytes(st, x)
        if d["kind"] == "basic" and d["name"] in INTW and s.get("name") in INTW:
            if d["name"].startswith("int") or d["name"] == "rune":
                w = INTW[d["name"]]
                if INTW[s["name"]] > w or (s["name"].startswith("uint") and INTW[s["name"]] == w and w < 64):
                    if st.ctx.proves(And(le(-(1 << (w - 1)), x), lt(x, 1 << (w - 1)))):
                        return x
                    return isub(imod(iadd(x, 1 << (w - 1)), 1 << w), 1 << (w - 1))
                return x
            return self.wrap(st, x, t)
        raise Unsupported("convert %s -> %s" % (xt, t))

    def typeassert(self, st, ins, x):
        at = ins["at"]
        ok = None
        if x is NIL:
            ok = False
        elif isinstance(x, ErrC):
            d = st.ctx.decide(x.c)
            if d is None:
                raise NeedSplit(x.c)
            return self.typeassert(st, ins, ErrV("flag") if d else NIL)
        elif isinstance(x, ErrV):
            ok = at == "error"
            if ok:
                st.regs[ins["n"]] = Tup((x, TRUE)) if ins["commaok"] else x
                return
        elif isinstance(x, Iface):
            d = st.ctx.decide(x.nilc)
            if d is None:
                raise NeedSplit(x.nilc)
            ok = (not d) and x.t == at
            if ok is False and x.t == "?":
                raise Unsupported("type assertion on unknown dynamic type")
        if ok is None:
            raise Unsupported("typeassert %r" % (x,))
        if ins["commaok"]:
            st.regs[ins["n"]] = Tup((x.v if ok else self.zero(at), TRUE if ok else FALSE))
        else:
            if not ok:
                raise PanicEx("type assertion")
            st.regs[ins["n"]] = x.v


class PanicEx(Exception):
    pass


class Frame(Unsupported):
    """a write into an object this function did not create; sure: the object is certainly the caller's"""

    def __init__(self, msg, sure=False):
        Unsupported.__init__(self, msg)
        self.sure = sure


def sidiv(x, y, ctx):
    """floor division with the context's knowledge of powers"""
    x, y = ctx.norm_int(x), ctx.norm_int(y)
    r = idiv(x, y)
    if r.op == "idiv":
        a, b = r.args
        for p in (a,):
            if p.op == "ipow" and b.op == "int" and p.args[0] is b and ctx.proves(le(1, p.args[1])):
                return ipow(b, isub(p.args[1], 1))
            if p.op == "ipow" and b.op == "ipow" and p.args[0] is b.args[0] and ctx.proves(le(b.args[1], p.args[1])):
                return ipow(p.args[0], isub(p.args[1], b.args[1]))
    return r


def simod(x, y, ctx):
    x, y = ctx.norm_int(x), ctx.norm_int(y)
    if ctx.proves(And(le(0, x), lt(x, y))):
        return x
    if x.op == "ipow" and y.op == "int" and x.args[0] is y and ctx.proves(le(1, x.args[1])):
        return ZERO
    return imod(x, y)


def u8chunk(x):
    if x.op == "int":
        return sconst(bytes([x.args[0] & 255]))
    if x.op == "iapp" and x.args[0] == "byteat":
        return mk("schunk", ("u8", x), "S")
    return mk("schunk", ("u8", x), "S")


def ssub(s, lo, hi, ctx):
    """substring"""
    if lo is ZERO and (hi is slen(s) or ctx.proves(eq(hi, slen(s)))):
        return s
    if lo.op == "int" and hi.op == "int":
        a, b = lo.args[0], hi.args[0]
        parts = s.args if s.op == "scat" else (s,)
        pos = 0
        out = []
        ok = True
        for p in parts:
            n = slen(p)
            if n.op != "int":
                ok = False
                break
            n = n.args[0]
            if pos + n <= a or pos >= b:
                pos += n
                continue
            if a <= pos and pos + n <= b:
                out.append(p)
            elif p.op == "sconst":
                h = bytes.fromhex(p.args[0])
                out.append(sconst(h[max(0, a - pos):b - pos]))
            else:
                ok = False
                break
            pos += n
        if ok:
            return scat(*out)
    return mk("schunk", ("sub", s, lo, hi), "S")
