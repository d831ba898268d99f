"""Path contexts: facts, integer oracle (z3) and hypothesis rewriting."""
import z3
from .terms import *

STATS = {"z3_queries": 0, "z3_time": 0.0, "cache_hits": 0, "unknown": 0}
FN_AX = {}      # function name -> callable(node) -> [B facts] about every application
SYM_AX = {}     # symbol name -> [B facts]

_z = {"solver": None, "lits": {}, "conv": {}, "n": 0, "axdone": set()}


def _reset():
    s = z3.Solver()
    s.set("timeout", 4000)
    _z["solver"] = s
    _z["lits"] = {}
    _z["conv"] = {}
    _z["axdone"] = set()
    _z["n"] = 0
    _z["pows"] = {}


_reset()
_pending = []
POWK = []        # further exponents at which powers are compared with constants
DIGITS = [False]


def digits(on):
    """axioms about digits at symbolic positions (costly)"""
    if DIGITS[0] != on:
        DIGITS[0] = on
        _reset()
        _qcache.clear()


def _powpairs(node):
    b, e = node.args
    if b.op != "int":
        return []
    l = _z["pows"].setdefault(b.args[0], [])
    fs = []
    for n, o in enumerate(l):
        e2 = o.args[1]
        d = isub(e, e2)
        if n < len(l) - 40 and d.op != "int":
            continue
        if d.op == "int" and abs(d.args[0]) <= 4:
            k = d.args[0]
            hi, lo, el = (node, o, e2) if k > 0 else (o, node, e)
            fs.append(Implies(le(0, el), eq(hi, iscale(lo, b.args[0] ** abs(k)))))
        else:
            fs.append(Implies(And(le(0, e), le(e, e2)), le(node, o)))
            fs.append(Implies(And(le(0, e2), le(e2, e)), le(o, node)))
            if b.args[0] > 1:
                fs.append(Implies(And(le(0, e), lt(e, e2)), le(iscale(node, b.args[0]), o)))
                fs.append(Implies(And(le(0, e2), lt(e2, e)), le(iscale(o, b.args[0]), node)))
    l.append(node)
    # constant powers
    for k in (63, 64, 16) + tuple(POWK):
        v = b.args[0] ** k
        fs.append(Implies(And(le(0, e), le(e, k)), le(node, v)))
        fs.append(Implies(le(k, e), le(v, node)))
    return fs


def _ax(node):
    if node in _z["axdone"]:
        return
    _z["axdone"].add(node)
    fs = []
    if node.op == "sym":
        fs = SYM_AX.get(node.args[0], [])
    elif node.op == "iapp":
        f = FN_AX.get(node.args[0])
        if f:
            fs = f(node)
        if node.args[0] == "slen":
            fs = list(fs) + [le(0, node)]
    elif node.op == "idiv":
        a, b = node.args
        if b.op == "int":
            fs = []
        else:
            fs = [Implies(And(lt(0, b), le(0, a)), And(le(0, node), le(node, a))),
                  Implies(And(lt(0, b), le(0, a), lt(a, b)), eq(node, 0)),
                  Implies(And(lt(0, b), le(b, a)), le(1, node))]
    elif node.op == "imod":
        a, b = node.args
        if b.op != "int":
            fs = [Implies(lt(0, b), And(le(0, node), lt(node, b))),
                  Implies(And(le(0, a), lt(a, b)), eq(node, a))]
    elif node.op == "ipow":
        b, e = node.args
        fs = [Implies(And(le(1, b), le(0, e)), le(1, node)), Implies(eq(e, 0), eq(node, 1)),
              Implies(And(le(2, b), le(1, e)), le(b, node)),
              Implies(And(le(2, b), le(0, e)), lt(e, node))]
        fs = fs + _powpairs(node)
    elif node.op == "imul":
        x = node.args[0]
        y = node.args[1]
        for z_ in node.args[2:]:
            y = imul(y, z_)
        fs = [Implies(And(le(0, x), le(0, y)), le(0, node)),
              Implies(And(le(1, x), le(1, y)), And(le(x, node), le(y, node))),
              Implies(Or(eq(x, 0), eq(y, 0)), eq(node, 0))]
    for f in fs:
        _pending.append(f)


def _shift(t):
    """(c, b, e) for a divisor c * b^e with symbolic e"""
    c, m = lin_of(t)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        if x.op == "ipow" and x.args[0].op == "int":
            return k, x.args[0].args[0], x.args[1]
    return None


def zi(t):
    c = _z["conv"].get(t)
    if c is not None:
        return c
    o = t.op
    if o == "int":
        r = z3.IntVal(t.args[0])
    elif o == "lin":
        a = t.args
        r = z3.Sum([z3.IntVal(a[0])] + [a[i] * zi(a[i + 1]) for i in range(1, len(a), 2)])
    elif o == "sym":
        r = z3.Int(t.args[0])
        _ax(t)
    elif o == "iite":
        r = z3.If(zb(t.args[0]), zi(t.args[1]), zi(t.args[2]))
    elif o == "idiv" and t.args[1].op == "int" and t.args[1].args[0] > 0:
        r = zi(t.args[0]) / zi(t.args[1])
    elif o == "imod" and t.args[1].op == "int" and t.args[1].args[0] > 0:
        r = zi(t.args[0]) % zi(t.args[1])
    elif o == "idiv" and has_ipow(t.args[1]):
        # digits at symbolic positions: uninterpreted, with axioms on request only
        sh = _shift(t.args[1])
        if sh is None:
            r = z3.Int("t!" + t.key)
        else:
            r = z3.Function("idivp/%d/%d" % sh[:2], z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(t.args[0]), zi(sh[2]))
            if DIGITS[0]:
                a, b = t.args
                _pending.extend([Implies(le(0, a), And(le(0, t), le(t, a))), Implies(And(le(0, a), lt(a, b)), eq(t, 0)), Implies(And(lt(0, b), le(b, a)), le(1, t))])
    elif o in ("iapp", "idiv", "imod", "ipow", "imul") and all(isinstance(a, str) or (a.sort == "I") for a in t.args):
        name = o if o != "iapp" else "f_" + t.args[0]
        xs = [zi(a) for a in t.args if isinstance(a, T)]
        f = z3.Function("%s/%d" % (name, len(xs)), *([z3.IntSort()] * (len(xs) + 1)))
        r = f(*xs) if xs else z3.Int(name + "/0")
        _ax(t)
    else:
        r = z3.Int("t!" + t.key)
        _ax(t)
    _z["conv"][t] = r
    return r


def zb(t):
    c = _z["conv"].get(t)
    if c is not None:
        return c
    o = t.op
    if o == "true":
        r = z3.BoolVal(True)
    elif o == "false":
        r = z3.BoolVal(False)
    elif o == "le0":
        r = zi(t.args[0]) <= 0
    elif o == "eq0":
        r = zi(t.args[0]) == 0
    elif o == "not":
        r = z3.Not(zb(t.args[0]))
    elif o == "and":
        r = z3.And([zb(a) for a in t.args])
    elif o == "or":
        r = z3.Or([zb(a) for a in t.args])
    elif o == "bapp" and all(isinstance(a, str) or a.sort == "I" for a in t.args):
        xs = [zi(a) for a in t.args[1:]]
        if xs:
            r = z3.Function("b_%s/%d" % (t.args[0], len(xs)), *([z3.IntSort()] * len(xs) + [z3.BoolSort()]))(*xs)
        else:
            r = z3.Bool("b_" + t.args[0])
    elif o == "sym":
        r = z3.Bool("bs_" + t.args[0])
    else:
        r = z3.Bool("b!" + t.key)
    _z["conv"][t] = r
    return r


def _lit(t):
    """assumption literal implying t"""
    l = _z["lits"].get(t)
    if l is None:
        e = zb(t)
        l = z3.Bool("lit!%d" % len(_z["lits"]))
        _z["solver"].add(z3.Implies(l, e))
        _z["lits"][t] = l
        _z["n"] += 1
        k = 0
        while _pending:
            f = _pending.pop()
            _z["solver"].add(zb(f))
            k += 1
            if k > 500:
                raise RuntimeError("axiom explosion")
    return l


_qcache = {}
_import_time = __import__("time")


def zunsat(facts):
    """facts: iterable of B terms -> True if unsat"""
    key = frozenset(facts)
    r = _qcache.get(key)
    if r is not None:
        STATS["cache_hits"] += 1
        return r
    if _z["n"] > 1500:
        _reset()
    t0 = _import_time.time()
    lits = [_lit(f) for f in key]
    res = _z["solver"].check(*lits)
    STATS["z3_queries"] += 1
    STATS["z3_time"] += _import_time.time() - t0
    if res == z3.unknown:
        STATS["unknown"] += 1
    r = res == z3.unsat
    _qcache[key] = r
    return r


_hi = {}


def has_iite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op == "iite" or any(isinstance(a, T) and has_iite(a) for a in t.args)
        _hi[t] = r
    return r


_hp = {}


def has_ipow(t):
    """a power with a symbolic exponent occurs"""
    r = _hp.get(t)
    if r is None:
        r = (t.op == "ipow" and t.args[1].op != "int") or any(isinstance(a, T) and has_ipow(a) for a in t.args)
        _hp[t] = r
    return r


_hd = {}


def has_idiv(t):
    """a quotient by a constant occurs"""
    r = _hd.get(t)
    if r is None:
        r = (t.op in ("idiv", "imod") and t.args[1].op == "int") or any(isinstance(a, T) and has_idiv(a) for a in t.args)
        _hd[t] = r
    return r


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


def is_intlike(b):
    """no field/bytes parts: z3 decides"""
    if b.op in ("feq", "beq", "forall"):
        return False
    if b.op in ("not", "and", "or"):
        return all(is_intlike(x) for x in b.args)
    return True


_restricted = {}


class Ctx:
    """immutable-ish set of facts"""
    __slots__ = ("facts", "fset", "rules", "isub", "irep", "nonzero", "hooks", "ncache", "foralls", "fneg", "bad", "skolem")

    def __init__(self):
        self.facts = []
        self.fset = frozenset()
        self.rules = {}      # F atom -> F term
        self.isub = {}       # int symbol -> term
        self.irep = {}       # other int atoms -> term
        self.nonzero = []    # predicates on F atoms
        self.hooks = {}      # fapp name -> fn(node, ctx) -> F or None
        self.ncache = {}
        self.foralls = []
        self.fneg = []
        self.bad = False
        self.skolem = frozenset()

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.facts = list(self.facts)
        c.fset = self.fset
        c.rules = dict(self.rules)
        c.isub = dict(self.isub)
        c.irep = dict(self.irep)
        c.nonzero = list(self.nonzero)
        c.hooks = dict(self.hooks)
        c.ncache = {}
        c.foralls = list(self.foralls)
        c.fneg = list(self.fneg)
        c.bad = self.bad
        c.skolem = self.skolem
        return c

    def assume(self, *bs):
        c = self.copy()
        for b in bs:
            c._add(b)
        return c

    def atleast(self, v):
        """the greatest number up to 4 that v cannot be below"""
        k = ("al", v)
        if k not in self.ncache:
            self.ncache[k] = next((d for d in range(4, -5, -1) if zunsat(self.zfacts() + [Not(le(d, v))])), None)
        return self.ncache[k]

    def norm_int(self, t):
        if self.isub:
            for _ in range(4):
                t2 = subst(t, self.isub)
                if t2 is t:
                    break
                t = t2
        if self.irep:
            t = replace(t, self.irep)
        if has_iite(t):
            k = ("ni", t)
            r = self.ncache.get(k)
            if r is None:
                r = t
                for x in sorted((x for x in subterms(t) if x.op == "iite" and not any(v.startswith("%") for v in x.fv)), key=lambda z: z.key):
                    if r.fv >= x.fv:
                        c = self.simp_cond(x.args[0])
                        if c is not x.args[0]:
                            r = replace(r, {x: iite(c, x.args[1], x.args[2])})
                self.ncache[k] = r
            t = r
        if has_ipow(t):
            k = ("ip", t)
            r = self.ncache.get(k)
            if r is None:
                m = {}
                for x in subterms(t):
                    if x.op == "ipow" and x.args[0].op == "int" and x.args[1].op != "int" and not any(v.startswith("%") for v in x.fv):
                        # b^(v+c) = b^(c+d) b^(v-d) for the greatest d in [-c, 4] with d <= v: the same d for all powers with this v
                        c_, vs = lin_of(x.args[1])
                        v = mk_lin(0, vs)
                        if c_ > 4:
                            continue
                        d = self.atleast(v)
                        if d is not None and c_ + d > 0:
                            m[x] = iscale(mk("ipow", (x.args[0], isub(v, d)), "I"), x.args[0].args[0] ** (c_ + d))
                r = self.ncache[k] = replace(t, m) if m else t
            t = r
        if has_idiv(t):
            k = ("id", t)
            r = self.ncache.get(k)
            if r is None:
                m = {x: isub(x.args[0], iscale(idiv(x.args[0], x.args[1]), x.args[1].args[0])) for x in subterms(t)
                     if x.op == "imod" and x.args[1].op == "int" and x.args[1].args[0] > 2}
                if m:
                    t = replace(t, m)
                m = {}
                for x in subterms(t):
                    if x.op == "idiv" and x.args[1].op == "int" and not any(v.startswith("%") for v in x.fv):
                        q = self.quotient(x)
                        if q is not None:
                            m[x] = q
                r = self.ncache[k] = replace(t, m) if m else t
            t = r
        return t

    def quotient(self, x):
        """a simpler term for a / w, found from a known bound w*q <= a"""
        a, w = x.args[0], x.args[1].args[0]
        if w <= 1:
            return None
        ca, ma = lin_of(a)
        for f in self.facts:
            if f.op != "le0" or not (f.fv & a.fv):
                continue
            c, m = lin_of(f.args[0])
            if not all(m.get(y) == -k for y, k in ma.items()):
                continue
            rest = {y: k for y, k in m.items() if y not in ma}
            if any(k % w for k in rest.values()):
                continue
            # w*q' + c <= a - ca
            q = mk_lin(-((-(c + ca)) // w), {y: k // w for y, k in rest.items()})
            if x in subterms(q):
                continue
            if zunsat(self.zfacts() + [Not(eq(x, q))]):
                return q
        return None

    def isubst(self, t):
        """known equations between integers applied"""
        if self.isub:
            for _ in range(4):
                t2 = subst(t, self.isub)
                if t2 is t:
                    break
                t = t2
        if self.irep:
            t = replace(t, self.irep)
        return t

    def restrict(self, fv, unfold=False):
        """the part of this context which is about the given symbols only (shared between contexts, so that its caches are too)"""
        k = ("restrict", fv, unfold)
        r = self.ncache.get(k)
        if r is None:
            fs = []
            for f in self.facts:
                if f.op == "not" and f.args[0].op == "feq" or f.op == "feq" and any(x.op == "fu" for x in f.args):
                    continue
                f = self.isubst(f)
                if f.fv <= fv and f is not TRUE:
                    fs.append(f)
            fs += self._between(fv, fs)
            key = (frozenset(fs), unfold, tuple(sorted((n, id(h)) for n, h in self.hooks.items())), tuple(id(x) for x in self.nonzero))
            r = _restricted.get(key)
            if r is None:
                r = Ctx()
                r.hooks, r.nonzero = dict(self.hooks), list(self.nonzero)
                if not unfold:
                    r.hooks["nounfold"] = True       # recursive functions stay as they are inside encodings
                r = r.assume(*sorted(fs, key=lambda x: x.key))
                _restricted[key] = r
            self.ncache[k] = r
        return r

    def _between(self, fv, fs):
        """bounds of the given symbols through one other symbol: v < w and w < e give v + 1 < e"""
        lo, hi = {}, {}
        for f in self.facts:
            if f.op == "le0":
                f = self.isubst(f)
                d = f.fv - fv if f.op == "le0" else ()
                if len(d) == 1 and f.fv & fv:
                    c, m = lin_of(f.args[0])
                    w = isym(next(iter(d)))
                    k = m.get(w)
                    if k in (1, -1) and not any(w.args[0] in a.fv for a in m if a is not w):
                        (hi if k == 1 else lo).setdefault(w, []).append(f.args[0])
        r = []
        for w in lo:
            for a in lo[w]:
                for b in hi.get(w, ()):
                    g = le(iadd(a, b), 0)
                    if g not in fs and g.op == "le0":
                        r.append(g)
        return r

    def simp_cond(self, c):
        if c.op in ("and", "or"):
            f = And if c.op == "and" else Or
            return f(*[self.simp_cond(x) for x in c.args])
        if not is_intlike(c):
            return c
        if zunsat(self.zfacts() + [Not(c)]):
            return TRUE
        if zunsat(self.zfacts() + [c]):
            return FALSE
        return c

    def _add(self, b):
        if b is TRUE:
            return
        if b is FALSE:
            self.bad = True
            return
        if b in self.fset:
            return
        if b.op == "and":
            for x in b.args:
                self._add(x)
            return
        self.facts.append(b)
        self.fset = self.fset | {b}
        if b.op == "eq0":
            self._solve(b)
        elif b.op == "feq":
            x, y = b.args
            self._frule(x, y)
        elif b.op == "forall":
            self.foralls.append(b)
        elif b.op == "not" and b.args[0].op == "feq":
            self.fneg.append(b.args[0])

    def _frule(self, x, y):
        def rank(u):
            return 1 if u.op in ("sym", "fapp") else 0
        def name(u):
            return (u.op, u.args[0])

        def cyclic(u, v):
            """would rewriting u to v lead back to u's family?"""
            todo, seen = [v], set()
            while todo:
                for z in subterms(todo.pop()):
                    if z.op in ("sym", "fapp") and z.sort == "F" and name(z) not in seen:
                        seen.add(name(z))
                        todo += [r for l, r in self.rules.items() if name(l) == name(z)]
            return name(u) in seen
        if rank(x) and not cyclic(x, y):
            self.rules[x] = y
        elif rank(y) and not cyclic(y, x):
            self.rules[y] = x

    def _solve(self, b):
        d = self.norm_int(b.args[0])
        c, m = lin_of(d)
        cand = [a for a, k in m.items() if abs(k) == 1 and a.op == "sym"]
        # newest symbol first (name!number)
        def age(a):
            n = a.args[0].rsplit("!", 1)
            return int(n[1]) if len(n) == 2 and n[1].isdigit() else -1
        cand.sort(key=age, reverse=True)
        for a in cand:
            rest = {x: -k * m[a] for x, k in m.items() if x is not a}
            e = mk_lin(-c * m[a], rest)
            if a.args[0] in e.fv:
                continue
            # keep idempotent
            one = {a.args[0]: e}
            self.isub = {k: subst(v, one) for k, v in self.isub.items()}
            self.isub[a.args[0]] = e
            return
        for a, k in m.items():
            if abs(k) == 1 and a.op in ("imod", "idiv", "iapp", "ipow", "imul", "iite"):
                rest = {x: -kk * k for x, kk in m.items() if x is not a}
                e = mk_lin(-c * k, rest)
                if a not in subterms(e):
                    self.irep[a] = e
                    return

    # -- queries
    def zfacts(self):
        return [f for f in self.facts if f.op not in ("forall",)]

    def zincon(self):
        if self.bad:
            return True
        if zunsat(self.zfacts()):
            self.bad = True
            return True
        return False

    def inconsistent(self):
        if self.bad:
            return True
        if zunsat(self.zfacts()):
            self.bad = True
            return True
        for f in self.fneg:
            if self.proves_feq(f):
                self.bad = True
                return True
        return False

    def proves(self, b):
        if b is TRUE:
            return True
        if self.bad:
            return True
        if b is FALSE:
            return self.zincon()
        if b in self.fset:
            return True
        if b.op == "and":
            return all(self.proves(x) for x in b.args)
        if b.op == "feq":
            return self.proves_feq(b)
        if b.op == "forall":
            return self.proves_forall(b)
        if b.op == "beq":
            from . import norm
            return norm.bytes_equal(self, b.args[0], b.args[1])
        if zunsat(self.zfacts() + [Not(b)]):
            return True
        if self.isub or self.irep:
            b2 = self.norm_int(b)
            if b2 is not b:
                return self.proves(b2)
        if b.op == "or" and any(not is_intlike(x) for x in b.args):
            # try: assume negation of all but one
            for i, x in enumerate(b.args):
                c = self.assume(*[Not(y) for j, y in enumerate(b.args) if j != i])
                if c.bad or c.proves(x):
                    return True
        if b.op == "not" and b.args[0].op == "feq":
            from . import norm
            return norm.field_distinct(self, b.args[0])
        return False

    def proves_feq(self, b):
        from . import norm
        return norm.field_equal(self, b.args[0], b.args[1])

    def proves_forall(self, b):
        var, lo, hi, body = b.args
        s = isym(fresh("i"))
        c = self.assume(le(lo, s), lt(s, hi))
        if c.inconsistent():
            return True
        c = c.instantiate([s])
        return c.proves(subst(body, {var: s}))

    def instantiate(self, idxs):
        """instantiate universally quantified facts at the given index terms"""
        add = []
        for f in self.foralls:
            var, lo, hi, body = f.args
            for s in idxs:
                if self.proves(And(le(lo, s), lt(s, hi))):
                    add.append(subst(body, {var: s}))
        return self.assume(*add) if add else self

    def decide(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.proves(b):
            return True
        if self.proves(Not(b)):
            return False
        return None
