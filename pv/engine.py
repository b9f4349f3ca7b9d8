"""Symbolic execution of the Python subset. Branches are merged, loops are summarised by their inductive form
(append / sum / last write / first exit / map log / fold), so a run covers all inputs and all iterations."""
import ast
import z3
from fractions import Fraction
from values import *
import prove as P
from prove import SUM, EXIDX, SEL, FOLD, CNT, scoped, znat

SCHEMA = {}      # class -> {field: type}
MAXDEPTH = 40


class Unbound:
    pass


UNBOUND = Unbound()


MISSING = Unbound()       # what a dict without default has at a missing key


class Poison:
    """a variable changed by a loop whose invariant says nothing about it"""
    def __init__(self, name):
        self.name = name


class NeedLoc(Exception):
    def __init__(self, loc):
        self.loc = loc


class State:
    def __init__(self):
        self.env, self.heap, self.pc = {}, {}, []

    def copy(self):
        s = State()
        s.env, s.heap, s.pc = dict(self.env), dict(self.heap), list(self.pc)
        return s

    def become(self, o):
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


# ------------------------------------------------------------------ input values by type
def sort_of(t):
    if t in ("Int",):
        return z3.IntSort()
    if t == "Real":
        return z3.RealSort()
    if t == "Bool":
        return z3.BoolSort()
    return U


def wrap(term, t):
    if t in ("Int", "Real", "Bool", "U"):
        return term
    return SObj(term, t)


def mkval(name, args, t):
    """the input value name(args) of type t"""
    if isinstance(t, tuple):
        if t[0] == "list":
            return Seq([Base(name, args, t[1])])
        if t[0] == "opt":
            b = mkfun(name + "#none", args, z3.BoolSort())
            return Un([(b, None), (NOT(b), mkval(name, args, t[1]))])
        if t[0] == "tuple":
            return Tup([mkval("%s.%d" % (name, i), args, x) for i, x in enumerate(t[1:])])
        if t[0] == "map":
            # ("map", [keytypes], valtype, default)
            return MapV(len(t[1]), t[3] if len(t) > 3 else NODEF, MapBase(name, args, t[1], t[2]), (), t[1])
        raise OutOfReach("type %r" % (t,))
    return wrap(mkfun(name, args, sort_of(t)), t)


def mkfun(name, args, sort):
    if not args:
        return z3.Const(name, sort)
    return z3.Function(name, *[a.sort() for a in args], sort)(*args)


def base_len(b):
    if b.n is not None:
        return b.n
    return mkfun(b.name + "#len", b.args, z3.IntSort())


def base_at(b, i):
    i = znum(i)
    if b.off is not None:
        i = i + znum(b.off)
    if isinstance(b.elem, tuple) and b.elem[0] == "fn":
        return b.elem[1](i)
    return mkval(b.name + "#at", list(b.args) + [i], b.elem)


def keyterm(v):
    """z3 term of a value used as a key or compared by identity"""
    if isinstance(v, SObj):
        return v.term
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isnum(v):
        return znum(v)
    if isinstance(v, ExcV) or v is None:
        return lit("None") if v is None else lit(v.cls)
    if isinstance(v, Un):
        ts = [(g, keyterm(x)) for g, x in v.alts]
        r = ts[-1][1]
        for g, t in reversed(ts[:-1]):
            r = ITE(g, t, r)
        return r
    if isinstance(v, StrV):
        if all(isinstance(s, str) for s in v.segs):
            return lit("".join(v.segs))
        if len(v.segs) == 1 and isinstance(v.segs[0], StrOf):
            t = keyterm(v.segs[0].v)
            f = z3.Function("str:%s" % t.sort(), t.sort(), U)
            register_inj(f)
            return f(t)
        if any(not isinstance(s, (str, StrOf)) for s in v.segs):
            raise OutOfReach("built string used as a key")
        ts = [keyterm(s.v) for s in v.segs if isinstance(s, StrOf)]
        nm = "fmt:" + "".join(s if isinstance(s, str) else "{%s}" % s.spec for s in v.segs)
        f = z3.Function(nm, *[t.sort() for t in ts], U)
        if f.arity() == 1:
            register_inj(f)
        return f(*ts)
    if isz(v):
        return v
    if isinstance(v, Ref):
        return lit("ref:" + v.id)
    raise OutOfReach("key %r" % (v,))


_inj = set()


def register_inj(f):
    """str() of integers and single-value formats are injective"""
    if f.name() in _inj:
        return
    _inj.add(f.name())
    g = z3.Function(f.name() + "^-1", U, f.domain(0))
    x = z3.Const("x", f.domain(0))
    P.AXIOMS.setdefault(f.name(), []).append(z3.ForAll([x], g(f(x)) == x, patterns=[f(x)]))


def keyeq(a, b):
    if a.sort() != b.sort():
        if z3.is_arith(a) and z3.is_arith(b):
            return a == b
        return False
    if a.eq(b):
        return True
    return a == b


def samev(a, b):
    """syntactic identity of values"""
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bool, Fraction, float)) or a is None:
        return a == b
    if isinstance(a, SObj):
        return a.cls == b.cls and a.term.eq(b.term)
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(samev(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (Seq, StrV)):
        return len(a.segs) == len(b.segs) and all(samev(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, One):
        return sameg(a.g, b.g) and samev(a.v, b.v)
    if isinstance(a, StrOf):
        return samev(a.v, b.v) and a.spec == b.spec
    if isinstance(a, Comp):
        return a.k.eq(b.k) and samev(a.n, b.n) and sameg(a.g, b.g) and len(a.segs) == len(b.segs) and \
            all(samev(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, WComp):
        return a.k.eq(b.k) and samev(a.n, b.n) and sameg(a.g, b.g) and len(a.log) == len(b.log) and \
            all(samev(x, y) for x, y in zip(a.log, b.log))
    if isinstance(a, Base):
        return a.name == b.name and len(a.args) == len(b.args) and all(x.eq(y) for x, y in zip(a.args, b.args)) and \
            samev(a.off, b.off) and samev(a.n, b.n)
    if isinstance(a, (HoleSeg, Hole, HoleMap)):
        return a.loc == b.loc
    if isinstance(a, Inst):
        return a.cls == b.cls and a.fields.keys() == b.fields.keys() and all(samev(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, MapV):
        return a.depth == b.depth and samebase(a.base, b.base) and len(a.log) == len(b.log) and \
            all(samev(x, y) for x, y in zip(a.log, b.log))
    if isinstance(a, W):
        return a.kind == b.kind and sameg(a.g, b.g) and len(a.keys) == len(b.keys) and \
            all(samev(x, y) for x, y in zip(a.keys, b.keys)) and samev(a.val, b.val)
    if isinstance(a, Un):
        return len(a.alts) == len(b.alts) and all(sameg(g, h) and samev(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, Cls):
        return a.name == b.name
    if isinstance(a, MapView):
        return a.ref.id == b.ref.id and len(a.keys) == len(b.keys) and all(samev(x, y) for x, y in zip(a.keys, b.keys))
    return False


def sameg(a, b):
    return a is b or (isz(a) and isz(b) and a.eq(b)) or (not isz(a) and not isz(b) and a == b)


def samebase(a, b):
    if a is b:
        return True
    if isinstance(a, MapBase) and isinstance(b, MapBase):
        return a.name == b.name and all(x.eq(y) for x, y in zip(a.args, b.args))
    if isinstance(a, HoleMap) and isinstance(b, HoleMap):
        return a.loc == b.loc
    return False


# ------------------------------------------------------------------ merging
def guardsegs(c, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(s.v, AND(c, s.g)))
        elif isinstance(s, Comp):
            out.append(Comp(s.k, s.n, AND(c, s.g), s.segs))
        elif isinstance(s, Base):
            k = scoped("k", z3.IntSort())
            out.append(Comp(k, base_len(s), c, [One(base_at(s, k))]))
        else:
            raise OutOfReach("guard on %r" % (s,))
    return out


def guardlog(c, log):
    return [W(w.kind, w.keys, w.val, AND(c, w.g)) if isinstance(w, W) else WComp(w.k, w.n, AND(c, w.g), w.log)
            for w in log]


def vmerge(c, a, b):
    """c ? a : b"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if samev(a, b):
        return a
    if isinstance(a, Unbound) and isinstance(b, Unbound):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else NOT(c)
    if isbool(a) and isbool(b):
        return z3.If(c, zbool(a), zbool(b))
    if isnum(a) and isnum(b):
        return z3.If(c, *coerce(a, b))
    if isz(a) and isz(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, SObj) and isinstance(b, SObj):
        cls = a.cls if a.cls == b.cls else common(a.cls, b.cls)
        return SObj(z3.If(c, a.term, b.term), cls)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([vmerge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        i = 0
        while i < len(a.segs) and i < len(b.segs) and samev(a.segs[i], b.segs[i]):
            i += 1
        return Seq(list(a.segs[:i]) + guardsegs(c, a.segs[i:]) + guardsegs(NOT(c), b.segs[i:]))
    if isinstance(a, MapV) and isinstance(b, MapV) and a.depth == b.depth and samebase(a.base, b.base):
        i = 0
        while i < len(a.log) and i < len(b.log) and samev(a.log[i], b.log[i]):
            i += 1
        return MapV(a.depth, a.default, a.base, list(a.log[:i]) + guardlog(c, a.log[i:]) + guardlog(NOT(c), b.log[i:]),
                    a.keysorts or b.keysorts)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls == b.cls:
        ks = list(a.fields) + [k for k in b.fields if k not in a.fields]
        return Inst(a.cls, {k: vmerge(c, a.fields.get(k, UNBOUND), b.fields.get(k, UNBOUND)) for k in ks})
    alts = []
    for g, x in (a.alts if isinstance(a, Un) else [(True, a)]):
        addalt(alts, AND(c, g), x)
    for g, x in (b.alts if isinstance(b, Un) else [(True, b)]):
        addalt(alts, AND(NOT(c), g), x)
    return Un(alts) if len(alts) > 1 else alts[0][1]


def addalt(alts, g, x):
    """adds an alternative, joining it with one of the same kind"""
    for i, (h, y) in enumerate(alts):
        if samev(x, y):
            alts[i] = (OR(h, g), y)
            return
        if (isinstance(x, SObj) and isinstance(y, SObj)) or (isnum(x) and isnum(y)) or (isbool(x) and isbool(y)):
            alts[i] = (OR(h, g), vmerge(h, y, x))
            return
    alts.append((g, x))


COMMON = [None]


def common(a, b):
    return COMMON[0](a, b) if COMMON[0] else None


def coerce(a, b):
    a, b = znum(a), znum(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


class Engine:
    def __init__(self, src, contracts=None):
        self.src = src
        self.contracts = contracts or {}
        self.sinks = [[]]
        self.frames = []        # (module, cls, qual)
        self.axioms = []        # closed hypotheses (preconditions on symbols)
        self.loops = []         # active loop indices
        self.modular = {}       # qual -> spec Fn used in place of the body
        self.quiet = {}         # heap id -> base name of maps whose keys are never looked at
        self.assumed = []       # facts about the values loops leave
        self.whiles = {}        # (function, number of the while loop) -> (invariant, types of what it changes)
        self.invs = {}          # (function, variable) -> stated invariant
        self.used = {}          # functions entered or replaced: qual -> 'inlined' | 'contract'
        self.obls = []          # obligations raised inside (preconditions of callees, loop side conditions)
        self.depth = 0
        self.news = {}          # NEW symbol -> class
        self.tags = {}
        COMMON[0] = self.common

    def common(self, a, b):
        if a is None or b is None:
            return None
        for c in self.src.mro(a):
            if c in self.src.mro(b):
                return c
        return None

    # ---------------------------------------------------------------- logic helpers
    def hyps(self, st):
        return self.axioms + [zbool(x) for x in st.pc if x is not True]

    def holds(self, st, g, timeout=2500):
        if g is True:
            return True
        if g is False:
            return False
        g = z3.simplify(zbool(g))
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        for p in st.pc:
            if isz(p) and p.eq(g):
                return True
        return P.check(self.hyps(st), g, timeout, quick=True) == "proved"

    def decide(self, st, c, timeout=400, deep=False):
        """True / False when the path condition settles c, else the term"""
        if not isz(c):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        n = NOT(c)
        for p in st.pc:
            if isz(p):
                if p.eq(c):
                    return True
                if p.eq(n):
                    return False
        h = self.hyps(st)
        if P.check(h, c, timeout, quick=True) == "proved":
            return True
        if P.check(h, n, timeout, quick=True) == "proved":
            return False
        if deep:
            # with model-based instantiation as well
            if P.check(h, c, 1000) == "proved":
                return True
            if P.check(h, n, 1000) == "proved":
                return False
        return c

    def dead(self, st):
        return any(p is False for p in st.pc)

    def side(self, st, cond, exc):
        """exc is raised when cond; execution goes on with not cond"""
        if cond is False:
            return
        c = self.decide(st, cond, 2500) if isz(cond) else cond
        if c is False:
            return
        if isz(c) and P.check(self.hyps(st), NOT(c), 1500) == "proved":
            st.pc.append(NOT(c))
            return
        s = st.copy()
        if c is not True:
            s.pc.append(c)
        self.sinks[-1].append((s, ExcV(exc) if isinstance(exc, str) else exc))
        st.pc.append(NOT(c) if isz(c) else False)

    # ---------------------------------------------------------------- states
    def merge_states(self, states):
        states = [s for s in states if not self.dead(s)]
        if not states:
            return None
        cur = states[-1]
        for s in reversed(states[:-1]):
            cur = self.merge2(s, cur)
        return cur

    def merge2(self, a, b):
        i = 0
        while i < len(a.pc) and i < len(b.pc) and sameg(a.pc[i], b.pc[i]):
            i += 1
        ra, rb = a.pc[i:], b.pc[i:]
        out = State()
        out.pc = list(a.pc[:i])
        if ra and rb and sameg(ra[0], NOT(rb[0]) if isz(rb[0]) else None) or (ra and rb and isz(ra[0]) and sameg(NOT(ra[0]), rb[0])):
            c = ra[0]
            if ra[1:]:
                out.pc.append(z3.Implies(zbool(c), zbool(AND(*ra[1:]))))
            if rb[1:]:
                out.pc.append(z3.Implies(zbool(NOT(c)), zbool(AND(*rb[1:]))))
        else:
            c = AND(*ra)
            o = OR(c, AND(*rb))
            if o is not True:
                out.pc.append(o)
            if c is True:
                # a covers b: b's condition must exclude (states are disjoint)
                c = NOT(AND(*rb))
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            out.env[k] = vmerge(c, a.env.get(k, UNBOUND), b.env.get(k, UNBOUND))
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            if k not in a.heap:
                out.heap[k] = b.heap[k] if not (isinstance(k, str) and k.startswith("attr:")) else \
                    vmerge(c, self.attr_map0(k), b.heap[k])
            elif k not in b.heap:
                out.heap[k] = a.heap[k] if not (isinstance(k, str) and k.startswith("attr:")) else \
                    vmerge(c, a.heap[k], self.attr_map0(k))
            else:
                out.heap[k] = vmerge(c, a.heap[k], b.heap[k])
        return out

    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, kwargs, st):
        node = fn.node
        qual = fn.qual
        if fn.bound is not None:
            args = [fn.bound] + list(args)
        if qual in self.modular and self.depth > 0:
            spec = self.modular[qual]
            self.used[qual] = "contract"
            return self.run_fn(spec, args, kwargs, st)
        return self.run_fn(fn, args, kwargs, st)

    def bind(self, fn, args, kwargs, st):
        node = fn.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            raise OutOfReach("too many arguments for %s" % getattr(node, "name", "lambda"))
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs.items():
            env[k] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = self.eval_in(d, fn.module, fn.cls)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_in(d, fn.module, fn.cls)
        for n in names:
            if n not in env:
                raise OutOfReach("missing argument %s of %s" % (n, getattr(node, "name", "lambda")))
        return env

    def eval_in(self, node, module, cls):
        st = State()
        self.frames.append((module, cls, "<module>", None))
        try:
            return self.eval(node, st)
        finally:
            self.frames.pop()

    def run_fn(self, fn, args, kwargs, st):
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise OutOfReach("recursion")
        if fn.qual:
            self.used.setdefault(fn.qual, "inlined")
        saved = st.env
        st.env = self.bind(fn, args, kwargs, st)
        if fn.closure:
            st.env["#closure"] = fn.closure
        self.frames.append((fn.module, fn.cls, fn.qual, fn))
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, st)
                st.env = saved
                return v
            outs = self.exec_block(fn.node.body, st)
        finally:
            self.frames.pop()
            self.depth -= 1
        rets = []
        for kind, s, v in outs:
            if kind == "next":
                v = None
            elif kind != "return":
                raise OutOfReach("%s outside loop" % kind)
            s.env = {"#ret": v}
            rets.append(s)
        m = self.merge_states(rets)
        if m is None:
            st.pc.append(False)
            st.env = saved
            return None
        v = m.env["#ret"]
        # exceptions raised inside keep the callee env; callers only look at heap and pc
        m.env = saved
        st.become(m)
        return v

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        outs, cur = [], st
        for s in stmts:
            if self.dead(cur):
                return outs
            res = self.exec_stmt(s, cur)
            nexts = []
            for r in res:
                (nexts if r[0] == "next" else outs).append(r)
            cur = self.merge_states([r[1] for r in nexts])
            if cur is None:
                return outs
        outs.append(("next", cur, None))
        return outs

    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise OutOfReach("statement %s (line %d)" % (type(s).__name__, s.lineno))
        return m(s, st)

    def s_Pass(self, s, st):
        return [("next", st, None)]

    s_Import = s_ImportFrom = s_Global = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        if isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id == "print" or (
                    isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging")):
                return [("next", st, None)]       # output and logging: dropped (stated in DESIGN.md)
        self.eval(s.value, st)
        return [("next", st, None)]

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        if self.dead(st):
            return []
        return [("return", st, v)]

    def s_Break(self, s, st):
        return [("break", st, None)]

    def s_Continue(self, s, st):
        return [("continue", st, None)]

    def s_Delete(self, s, st):
        raise OutOfReach("del")

    def s_FunctionDef(self, s, st):
        mod, cls, qual, fn = self.frames[-1]
        st.env[s.name] = Fn(s, mod, cls, closure=st.env, qual="")
        return [("next", st, None)]

    def s_Assert(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        self.side(st, NOT(c), "AssertionError")
        return [("next", st, None)]

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st)
        if isinstance(v, Cls):
            v = ExcV(v.name)
        if not self.dead(st):
            self.sinks[-1].append((st.copy(), v))
        return []

    def s_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        if self.dead(st):
            return []
        c = self.decide(st, c)
        if c is True:
            return self.exec_block(s.body, st)
        if c is False:
            return self.exec_block(s.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(NOT(c))
        return self.exec_block(s.body, a) + self.exec_block(s.orelse, b)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if self.dead(st):
            return []
        for t in s.targets:
            self.assign(t, v, st)
        return [] if self.dead(st) else [("next", st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return [("next", st, None)]

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Subscript) and isinstance(s.op, (ast.Add, ast.Sub)):
            base = self.eval(t.value, st)
            keys = self.mapkeys(base, t.slice, st)
            if keys is not None:
                ref, ks = keys
                v = self.eval(s.value, st)
                m = st.heap[ref.id]
                if len(ks) == m.depth and isnum(v) and (m.default is not NODEF or self.holds(st, self.has(m, ks, st))) \
                        and not isinstance(m.default, ListDefault):
                    if isinstance(s.op, ast.Sub):
                        v = self.arith(ast.Sub(), 0, v, st)
                    self.writable(ref)
                    st.heap[ref.id] = m.add(W("add", ks, v))
                    return [("next", st, None)]
        old = self.eval(ast.copy_location(ast_load(t), t), st)
        v = self.eval(s.value, st)
        if isinstance(s.op, ast.Add) and isinstance(old, Ref) and isinstance(st.heap[old.id], Seq):
            st.heap[old.id] = Seq(st.heap[old.id].segs + self.seq(v, st).segs)
            return [("next", st, None)]
        self.assign(t, self.binop(s.op, old, v, st), st)
        return [] if self.dead(st) else [("next", st, None)]

    def s_Try(self, s, st):
        if s.finalbody:
            raise OutOfReach("finally")
        self.sinks.append([])
        outs = self.exec_block(s.body, st)
        raised = self.sinks.pop()
        if s.orelse:
            o2 = []
            for r in outs:
                o2 += self.exec_block(s.orelse, r[1]) if r[0] == "next" else [r]
            outs = o2
        for rs, exc in raised:
            done = False
            for h in s.handlers:
                names = [n.id for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ["BaseException"]
                if any(n in self.src.mro(exc.cls) or n == "BaseException" for n in names):
                    rs.env = dict(st.env, **{k: v for k, v in rs.env.items() if k in st.env}) if rs.env is not st.env else rs.env
                    if h.name:
                        rs.env[h.name] = exc
                    outs += self.exec_block(h.body, rs)
                    done = True
                    break
            if not done:
                self.sinks[-1].append((rs, exc))
        return outs

    def s_With(self, s, st):
        raise OutOfReach("with")

    def s_While(self, s, st):
        return self.while_loop(s, st)

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if self.dead(st):
            return []
        seq = self.seq(it, st)

        def body(st2, elem):
            self.assign(s.target, elem, st2)
            return self.exec_block(s.body, st2)
        outs = self.iterate(seq, body, st)
        res = []
        for kind, s2, v in outs:
            if kind == "next":
                res += self.exec_block(s.orelse, s2) if s.orelse else [("next", s2, None)]
            elif kind == "break":
                res.append(("next", s2, None))
            else:
                res.append((kind, s2, v))
        return res

    # ---------------------------------------------------------------- loops
    def iterate(self, seq, body, st):
        """runs body(state, element) over the segments; 'break' outcomes leave the whole iteration"""
        outs, cur = [], st
        for seg in seq.segs:
            if cur is None:
                return outs
            res = self.iter_seg(seg, body, cur)
            nexts = []
            for kind, s, v in res:
                if kind in ("next", "continue"):
                    nexts.append(s)
                else:
                    outs.append((kind, s, v))
            cur = self.merge_states(nexts)
        if cur is not None:
            outs.append(("next", cur, None))
        return outs

    def iter_seg(self, seg, body, st):
        if isinstance(seg, One):
            g = self.decide(st, seg.g)
            if g is False:
                return [("next", st, None)]
            if g is True:
                return self.nocont(body(st, seg.v))
            a, b = st.copy(), st.copy()
            a.pc.append(g)
            b.pc.append(NOT(g))
            return self.nocont(body(a, seg.v)) + [("next", b, None)]
        if isinstance(seg, Base):
            n = base_len(seg)
            return self.summarise(st, n, lambda s, k: body(s, base_at(seg, k)))
        if isinstance(seg, Comp):
            each = eitherway(seg.segs)

            def inner(s, k):
                segs = [subst(x, [(seg.k, k)]) for x in each]
                g = subst(seg.g, [(seg.k, k)]) if isz(seg.g) else seg.g
                g = self.decide(s, g)
                if g is False:
                    return [("next", s, None)]
                if g is True:
                    return self.iterate(Seq(segs), body, s)
                a, b = s.copy(), s.copy()
                a.pc.append(g)
                b.pc.append(NOT(g))
                return self.iterate(Seq(segs), body, a) + [("next", b, None)]
            return self.summarise(st, seg.n, inner)
        if isinstance(seg, HoleSeg):
            raise NeedLoc(seg.loc)
        raise OutOfReach("iteration over %r" % (seg,))

    @staticmethod
    def nocont(outs):
        return [("next" if k == "continue" else k, s, v) for k, s, v in outs]

    def concrete(self, n, st):
        if isinstance(n, int):
            return n
        s = z3.simplify(n)
        if z3.is_int_value(s):
            return s.as_long()
        return None

    def summarise(self, st, n, body):
        c = self.concrete(n, st)
        if c is None and isz(n):
            for val in (0, 1, 2):
                if any(isz(p) and (p.eq(n == val)) for p in st.pc + self.axioms):
                    c = val
        if c is not None and c <= 12:
            outs, cur = [], st
            for i in range(max(c, 0)):
                nexts = []
                for kind, s, v in self.nocont(body(cur, z3.IntVal(i))):
                    if kind == "next":
                        nexts.append(s)
                    else:
                        outs.append((kind, s, v))
                cur = self.merge_states(nexts)
                if cur is None:
                    return outs
            return outs + [("next", cur, None)]
        return Loop(self, st, n, body).run()

    # ---------------------------------------------------------------- while
    def while_loop(self, s, st):
        """invariant rule: what the body changes is arbitrary at the start of a turn, apart from the stated invariant;
        termination is not shown"""
        from verify import mkarg
        from compare import prove
        fn = self.frames[-1][3]
        ws = sorted((n.lineno, n.col_offset) for n in ast.walk(fn.node) if isinstance(n, ast.While))
        qual = self.frames[-1][2]
        rule = self.whiles.get((qual, ws.index((s.lineno, s.col_offset)))) if qual else None
        if rule is None or s.orelse:
            raise OutOfReach("while loop (line %d)" % s.lineno)
        inv, types = rule
        name = qual.split(".")[-1]

        def holds(x):
            if inv is None:
                return True
            ps = [a.arg for a in inv.node.args.args]
            y = x.copy()
            if any(p not in x.env for p in ps):
                raise OutOfReach("the invariant speaks of %s" % ps)
            n = len(y.pc)
            self.sinks.append([])
            try:
                v = self.run_fn(inv, [x.env[p] for p in ps], {}, y)
                g = self.truth(v, y)
            finally:
                bad = self.sinks.pop()
            return AND(*(y.pc[n:] + [g] + [NOT(AND(*b.pc[n:])) for b, _ in bad]))
        if inv is not None:
            r = prove(self.hyps(st), zbool(holds(st)), "loop invariant")
            if r[0] != "proved":
                raise OutOfReach("the invariant of the loop of %s is not shown at the start" % name)
            self.obls.append(("invariant of the loop of %s holds at the start" % name,) + tuple(r))
        assigned = {n.id for x in s.body + [s.test] for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        free = set()
        for v, t in types.items():
            old = st.env.get(v)
            nm = "%s!%s" % (name, v)
            if isinstance(old, Ref) and isinstance(t, tuple) and t[0] in ("list", "map") and v not in assigned:
                st.heap[old.id] = mkval(nm, [], t)
                free.add(old.id)
            else:
                st.env[v] = mkarg(st, nm, t)
        for v in assigned:
            if v not in types:
                st.env[v] = Poison(v)
        g = holds(st)
        before = len(st.pc)
        if g is not True:
            st.pc.append(g)
        top = st.copy()
        raised = len(self.sinks[-1])
        c = self.truth(self.eval(s.test, st), st)
        a, b = st.copy(), st
        a.pc.append(c)
        b.pc.append(NOT(c))
        outs = []
        for kind, x, v in self.exec_block(s.body, a):
            if self.dead(x):
                continue
            for i, w in top.heap.items():
                if i not in free and x.heap.get(i) is not w and not samev(x.heap.get(i), w):
                    raise OutOfReach("the loop changes %s" % i)
            if kind in ("next", "continue"):
                if inv is not None:
                    r = prove(self.hyps(x), zbool(holds(x)), "loop invariant")
                    if r[0] != "proved":
                        raise OutOfReach("the invariant of the loop of %s is not shown to be kept" % name)
                    self.obls.append(("invariant of the loop of %s is kept" % name,) + tuple(r))
            else:
                outs.append(("next" if kind == "break" else kind, x, v))
        # the fresh values are those of the last time the loop starts a turn: what holds there may be assumed anywhere
        leave = [AND(*x.pc[before:]) for x in [b] + [x for _, x, _ in outs] + [x for x, _ in self.sinks[-1][raised:]]]
        self.assumed.append(OR(NOT(AND(*top.pc[:before])), OR(*leave)))
        return [("next", b, None)] + outs

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, self.mangle(t.attr), v, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            self.setitem(base, t.slice, v, st)
        else:
            raise OutOfReach("assignment target %s" % type(t).__name__)

    def unpack(self, v, n, st):
        if isinstance(v, Tup):
            if len(v.items) != n:
                self.side(st, True, "ValueError")
                return [None] * n
            return v.items
        if isinstance(v, Un):
            cols = [self.unpack(x, n, st) for g, x in self.live(v, st)]
            gs = [g for g, x in self.live(v, st)]
            out = []
            for j in range(n):
                r = cols[-1][j]
                for g, c in reversed(list(zip(gs[:-1], cols[:-1]))):
                    r = vmerge(g, c[j], r)
                out.append(r)
            return out
        q = self.seq(v, st)
        ln = self.seqlen(q)
        self.side(st, NOT(self.eqnum(ln, n)), "ValueError")
        return [self.at(q, i, st) for i in range(n)]

    @staticmethod
    def eqnum(a, b):
        if not isz(a) and not isz(b):
            return a == b
        return znum(a) == znum(b)

    def setattr(self, o, name, v, st):
        if isinstance(o, Un):
            al = self.live(o, st)
            if len(al) == 1:
                return self.setattr(al[0][1], name, v, st)
            return self.foralts(o, st, lambda x, s: self.setattr(x, name, v, s))
        if isinstance(o, Ref):
            inst = st.heap[o.id]
            p = self.classattr(inst.cls, name) if isinstance(inst, Inst) else None
            if isinstance(p, Prop):
                if p.fset is None:
                    raise OutOfReach("read-only property %s" % name)
                self.call(p.fset, [o, v], {}, st)
                return
            st.heap[o.id] = inst.set(name, v)
        elif isinstance(o, SObj):
            p = self.classattr(o.cls, name) if o.cls else None
            if isinstance(p, Prop):
                self.call(p.fset, [o, v], {}, st)
                return
            key = self.attr_key(o.cls, name)
            m = st.heap.get(key) or self.attr_map(o, name)
            st.heap[key] = m.add(W("set", [o.term], v))
        elif o is None:
            self.side(st, True, "AttributeError")
        else:
            raise OutOfReach("attribute write on %r" % (o,))

    def attr_map(self, o, name):
        t = self.field_type(o.cls, name)
        self.attrtypes = getattr(self, "attrtypes", {})
        key = self.attr_key(o.cls, name)
        self.attrtypes[key] = t
        return self.attr_map0(key)

    def attr_key(self, cls, name):
        """fields are kept apart by the class that declares them"""
        return "attr:%s.%s" % (self.field_type(cls, name)[0], name)

    def attr_map0(self, key):
        owner, ty = self.attrtypes[key]
        return MapV(1, NODEF, MapBase(key[5:], [], ["U"], ty))

    def field_type(self, cls, name):
        for c in self.src.mro(cls) if cls else []:
            if name in SCHEMA.get(c, {}):
                return c, SCHEMA[c][name]
        # a common superclass was inferred: look at subclasses
        raise OutOfReach("field %s of %s has no declared type" % (name, cls))

    def setitem(self, base, sl, v, st):
        if isinstance(base, Un):
            al = self.live(base, st)
            if len(al) == 1:
                return self.setitem(al[0][1], sl, v, st)
        if isinstance(sl, ast.Slice) and not (sl.lower or sl.upper or sl.step) and isinstance(base, Ref) and \
                isinstance(st.heap[base.id], Seq):
            st.heap[base.id] = self.seq(v, st)
            return
        mk = self.mapkeys(base, sl, st)
        if mk is not None:
            ref, ks = mk
            m = st.heap[ref.id]
            if len(ks) != m.depth:
                raise OutOfReach("assignment of an inner map")
            if isinstance(v, Ref) and isinstance(st.heap[v.id], Seq):
                v = st.heap[v.id]
            self.writable(ref)
            st.heap[ref.id] = m.add(W("set", ks, v))
            return
        if isinstance(base, Ref) and isinstance(st.heap[base.id], Seq):
            q = st.heap[base.id]
            i = self.eval(sl, st)
            c = self.concrete(znum(i), st)
            if c is not None and all(isinstance(x, One) and x.g is True for x in q.segs):
                segs = list(q.segs)
                segs[c] = One(v)
                st.heap[base.id] = Seq(segs)
                return
        raise OutOfReach("item assignment")

    def mapkeys(self, base, sl, st):
        """(ref, keys incl. sl) when base is a map or a view of one"""
        if isinstance(base, Un):
            al = self.live(base, st)
            if len(al) == 1:
                base = al[0][1]
        if isinstance(base, Ref) and isinstance(st.heap.get(base.id), MapV):
            k = self.eval(sl, st)
            self.keyclass(st.heap[base.id], 0, k)
            return base, (keyterm(k),)
        if isinstance(base, MapView) and len(base.keys) < st.heap[base.ref.id].depth:
            k = self.eval(sl, st)
            self.keyclass(st.heap[base.ref.id], len(base.keys), k)
            return base.ref, base.keys + (keyterm(k),)
        return None

    def keyclass(self, m, d, k):
        if isinstance(k, SObj) and k.cls and isinstance(m.keysorts, list):
            old = m.keysorts[d]
            if old is None:
                m.keysorts[d] = k.cls
            elif old != k.cls and old not in ("Int", "Real", "U", "Bool"):
                m.keysorts[d] = self.common(old, k.cls)

    def live(self, v, st):
        """alternatives possible under the path condition"""
        out = []
        for g, x in v.alts:
            if g is False:
                continue
            if g is True or self.decide(st, g) is not False:
                out.append((g, x))
        return out

    def foralts(self, v, st, f):
        """f(value, state) per alternative with state effects, merged"""
        states, vals = [], []
        for g, x in self.live(v, st):
            s = st.copy()
            s.pc.append(g)
            r = f(x, s)
            if not self.dead(s):
                s.env = dict(s.env)
                s.env["#alt"] = r
                states.append(s)
        m = self.merge_states(states)
        if m is None:
            st.pc.append(False)
            return None
        r = m.env.pop("#alt")
        st.become(m)
        return r

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise OutOfReach("expression %s" % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else INF
        if v is None or isinstance(v, (bool, int, str)):
            return v
        raise OutOfReach("constant %r" % (v,))

    def mangle(self, name):
        cls = self.frames[-1][1] if self.frames else None
        if cls and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (cls.lstrip("_"), name)
        return name

    def e_Name(self, e, st):
        n = e.id
        env = st.env
        while env is not None:
            if n in env:
                v = env[n]
                if isinstance(v, Poison):
                    raise OutOfReach("nothing is known of %s after the loop" % v.name)
                if isinstance(v, Unbound):
                    self.side(st, True, "UnboundLocalError")
                    return None
                if isinstance(v, Un) and any(isinstance(x, Unbound) for _, x in v.alts):
                    bad = OR(*[g for g, x in v.alts if isinstance(x, Unbound)])
                    self.side(st, bad, "UnboundLocalError")
                    al = [(g, x) for g, x in v.alts if not isinstance(x, Unbound)]
                    return Un(al) if len(al) > 1 else al[0][1]
                if isinstance(v, Hole):
                    raise NeedLoc(v.loc)
                return v
            env = env.get("#closure")
        return self.glob(n)

    def glob(self, n):
        mod = self.frames[-1][0]
        if n in self.src.functions.get(mod, {}):
            return Fn(self.src.functions[mod][n], mod, qual="%s.%s" % (mod, n))
        if n in self.src.globals.get(mod, {}):
            g = self.src.globals[mod][n]
            return self.eval_in(g, mod, None)
        if n in self.src.classes:
            return Cls(n)
        if n in BUILTINS or n in ("int", "float", "str", "list", "bool", "dict", "tuple", "object"):
            return Builtin(n)
        if n in ("math", "operator", "np", "copy"):
            return Mod(n)
        if n == "defaultdict":
            return Builtin("defaultdict")
        if n in EXC_BUILTIN:
            return Cls(n)
        for m, fs in self.src.functions.items():
            if m.startswith("contracts") and n in fs and mod.startswith("contracts"):
                return Fn(fs[n], m, qual="%s.%s" % (m, n))
        raise OutOfReach("name %s" % n)

    def e_Tuple(self, e, st):
        return Tup([self.eval(x, st) for x in e.elts])

    def e_List(self, e, st):
        r = Ref("list")
        st.heap[r.id] = Seq([One(self.eval(x, st)) for x in e.elts])
        return r

    def e_Dict(self, e, st):
        r = Ref("dict")
        m = MapV(1, NODEF)
        for k, v in zip(e.keys, e.values):
            m = m.add(W("set", [keyterm(self.eval(k, st))], self.eval(v, st)))
        st.heap[r.id] = m
        return r

    def e_Lambda(self, e, st):
        mod, cls = self.frames[-1][0], self.frames[-1][1]
        return Fn(e, mod, cls, closure=st.env)

    def e_IfExp(self, e, st):
        c = self.decide(st, self.truth(self.eval(e.test, st), st))
        if c is True:
            return self.eval(e.body, st)
        if c is False:
            return self.eval(e.orelse, st)
        return self.branch(st, c, lambda s: self.eval(e.body, s), lambda s: self.eval(e.orelse, s))

    def branch(self, st, c, fa, fb):
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(NOT(c))
        out = []
        for s, f in ((a, fa), (b, fb)):
            v = f(s)
            if not self.dead(s):
                s.env = dict(s.env)
                s.env["#br"] = v
                out.append(s)
        m = self.merge_states(out)
        if m is None:
            st.pc.append(False)
            return None
        v = m.env.pop("#br")
        st.become(m)
        return v

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.eval(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.decide(s, self.truth(v, s))
            if c is (not is_and):
                return v
            if c is is_and:
                return rec(i + 1, s)
            if is_and:
                return self.branch(s, c, lambda x: rec(i + 1, x), lambda x: False if isbool(v) else v)
            return self.branch(s, c, lambda x: True if isbool(v) else v, lambda x: rec(i + 1, x))
        return rec(0, st)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            c = self.truth(v, st)
            return NOT(c)
        if isinstance(e.op, ast.USub):
            return self.lift(lambda x: -x if not isz(x) and not isinstance(x, bool) else -znum(x), [v], st)
        if isinstance(e.op, ast.UAdd):
            return v
        raise OutOfReach("unary")

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st)

    def e_JoinedStr(self, e, st):
        segs = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                segs.append(x.value)
            else:
                segs += self.tostr(self.eval(x.value, st), st).segs
        return StrV(segs)

    def lift(self, f, vs, st):
        """pure f over the alternatives of union arguments"""
        for i, v in enumerate(vs):
            if isinstance(v, Un):
                al = self.live(v, st)
                if not al:
                    st.pc.append(False)
                    return None
                r = None
                res = []
                for g, x in al:
                    s = st.copy()
                    s.pc.append(g)
                    y = self.lift(f, vs[:i] + [x] + vs[i + 1:], s)
                    if self.dead(s):
                        st.pc.append(NOT(g))
                        continue
                    st.pc += s.pc[len(st.pc) + 1:] if False else []
                    res.append((g, y))
                if not res:
                    st.pc.append(False)
                    return None
                r = res[-1][1]
                for g, y in reversed(res[:-1]):
                    r = vmerge(g, y, r)
                return r
        return f(*vs)

    def binop(self, op, a, b, st):
        if isinstance(a, Un) or isinstance(b, Un):
            v, other, left = (a, b, True) if isinstance(a, Un) else (b, a, False)
            return self.foralts(v, st, lambda x, s: self.binop(op, x, other, s) if left else self.binop(op, other, x, s))
        if isinstance(op, ast.Add):
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return StrV(list(StrV([a]).segs if isinstance(a, str) else a.segs) +
                            list([b] if isinstance(b, str) else b.segs))
            if self.islist(a, st) and self.islist(b, st):
                r = Ref("list")
                st.heap[r.id] = Seq(self.seq(a, st).segs + self.seq(b, st).segs)
                return r
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
        if isinstance(op, ast.Mult) and self.islist(a, st) and isnum(b):
            q = self.seq(a, st)
            k = scoped("k", z3.IntSort())
            r = Ref("list")
            st.heap[r.id] = Seq([Comp(k, znum(b), True, q.segs)])
            return r
        if a is None or b is None or isinstance(a, (str, StrV)) != isinstance(b, (str, StrV)):
            self.side(st, True, "TypeError")
            return None
        if isz(a) and a.sort() == U and isinstance(op, ast.Add):
            raise OutOfReach("concatenation of an input string")
        return self.arith(op, a, b, st)

    def islist(self, v, st):
        return isinstance(v, Seq) or (isinstance(v, Ref) and isinstance(st.heap.get(v.id), Seq))

    def arith(self, op, a, b, st):
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise NeedLoc((a if isinstance(a, Hole) else b).loc)
        ca, cb = not isz(a), not isz(b)
        if not ((isnum(a) or isbool(a)) and (isnum(b) or isbool(b))):
            raise OutOfReach("arithmetic on %r, %r" % (a, b))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(op, ast.Div):
            if cb:
                if b == 0:
                    self.side(st, True, "ZeroDivisionError")
                    return Fraction(0)
                if ca:
                    return Fraction(a) / Fraction(b)
            else:
                self.side(st, znum(b) == 0, "ZeroDivisionError")
            return toreal(znum(a)) / toreal(znum(b))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if ca and cb and b != 0:
                return a // b if isinstance(op, ast.FloorDiv) else a % b
            self.side(st, znum(b) == 0 if not cb else b == 0, "ZeroDivisionError")
            x, y = znum(a), znum(b)
            if z3.is_real(x) or z3.is_real(y):
                if cb and Fraction(b).denominator == 1 and z3.is_int(x):
                    y = z3.IntVal(int(b))
                    r = x / y if isinstance(op, ast.FloorDiv) else x % y
                    return z3.ToReal(r)
                q = z3.ToInt(toreal(x) / toreal(y))
                if isinstance(op, ast.FloorDiv):
                    return z3.ToReal(q)
                return toreal(x) - toreal(y) * z3.ToReal(q)
            # z3's div/mod agree with Python's for positive divisors
            if not (cb and b > 0) and not self.holds(st, y > 0):
                raise OutOfReach("division by a possibly negative integer")
            return x / y if isinstance(op, ast.FloorDiv) else x % y
        if ca and cb:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Pow) and isinstance(b, int):
                return a ** b
            raise OutOfReach("operator")
        if isinstance(op, ast.Pow):
            if cb and b == 2:
                return znum(a) * znum(a)
            if cb and b == Fraction(1, 2):
                return self.sqrt(znum(a), st)
            raise OutOfReach("power")
        x, y = coerce(a, b)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
        raise OutOfReach("operator %s" % type(op).__name__)

    def sqrt(self, x, st):
        x = toreal(x)
        self.side(st, x < 0, "ValueError")
        f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        if "sqrt" not in P.AXIOMS:
            v = z3.Real("x")
            P.AXIOMS["sqrt"] = [z3.ForAll([v], z3.Implies(v >= 0, z3.And(f(v) >= 0, f(v) * f(v) == v)), patterns=[f(v)])]
        return f(x)

    # comparison -----------------------------------------------------
    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            if res is not None:
                # chained: later comparisons only evaluated when the earlier ones hold; operands are pure here
                pass
            right = self.eval(r, st)
            c = self.compare(op, left, right, st)
            res = c if res is None else AND(res, c)
            left = right
        return res

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st, isinstance(op, (ast.Is, ast.IsNot)))
            return NOT(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st)
            return NOT(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Un) or isinstance(b, Un):
            v, left = (a, True) if isinstance(a, Un) else (b, False)
            return self.foralts(v, st, lambda x, s: self.compare(op, x, b, s) if left else self.compare(op, a, x, s))
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise NeedLoc((a if isinstance(a, Hole) else b).loc)
        if not (isnum(a) or isbool(a)) or not (isnum(b) or isbool(b)):
            if a is None or b is None or isinstance(a, (str, Ref, Seq, Tup)) or isinstance(b, (str, Ref, Seq, Tup)):
                self.side(st, True, "TypeError")
                return False
            raise OutOfReach("ordering of %r, %r" % (a, b))
        if not isz(a) and not isz(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = coerce(a, b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def equal(self, a, b, st, ident=False):
        """a == b as bool or z3 Bool"""
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise NeedLoc((a if isinstance(a, Hole) else b).loc)
        if isinstance(a, Un) or isinstance(b, Un):
            v, o = (a, b) if isinstance(a, Un) else (b, a)
            r = False
            for g, x in v.alts:
                r = OR(r, AND(g, self.equal(x, o, st, ident)))
            return r
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, ast.AST):
            raise OutOfReach("?")
        if ident and (isinstance(a, bool) or isinstance(b, bool)):
            # x is True
            if isbool(a) and isbool(b):
                return self.beq(a, b)
            if isinstance(a, (SObj, Ref, str)) or isinstance(b, (SObj, Ref, str)) or isnum(a) or isnum(b):
                return False
        if isbool(a) and isbool(b):
            return self.beq(a, b)
        if (isnum(a) or isbool(a)) and (isnum(b) or isbool(b)):
            if not isz(a) and not isz(b):
                return a == b
            x, y = coerce(a, b)
            return x == y
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return AND(*[self.equal(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ca, cb = st.heap.get(a.id), st.heap.get(b.id)
            if isinstance(ca, Seq) and isinstance(cb, Seq):
                return self.seqeq(ca, cb, st)
            return False
        if self.islist(a, st) and self.islist(b, st):
            return self.seqeq(self.seq(a, st), self.seq(b, st), st)
        if self.islist(a, st) or self.islist(b, st) or isinstance(a, Tup) or isinstance(b, Tup):
            return False
        if isinstance(a, Cls) or isinstance(b, Cls):
            return isinstance(a, Cls) and isinstance(b, Cls) and a.name == b.name
        sa, sb = isinstance(a, (str, StrV)), isinstance(b, (str, StrV))
        if sa and sb:
            return self.streq(a, b, st)
        if (isinstance(a, SObj) and (isnum(b) or sb)) or (isinstance(b, SObj) and (isnum(a) or sa)):
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            # distinguished objects are different from input objects
            return False
        x, y = keyterm(a), keyterm(b)
        if x.sort() != y.sort():
            return False
        return self.termeq(x, y)

    @staticmethod
    def beq(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return b if a else NOT(b)
        if isinstance(b, bool):
            return a if b else NOT(a)
        return a == b

    def termeq(self, x, y):
        """equality of identities, using that created objects are new"""
        if x.eq(y):
            return True
        nx, ny = self.newsym(x), self.newsym(y)
        if nx and ny:
            if nx != ny:
                return False
            return AND(*[keyeq(a, b) for a, b in zip(x.children(), y.children())])
        if nx or ny:
            o = y if nx else x
            if self.isinput(o):
                return False
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return z3.If(x.arg(0), zbool(self.termeq(x.arg(1), y)), zbool(self.termeq(x.arg(2), y)))
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            return z3.If(y.arg(0), zbool(self.termeq(x, y.arg(1))), zbool(self.termeq(x, y.arg(2))))
        return keyeq(x, y)

    def newsym(self, t):
        n = t.decl().name() if z3.is_app(t) else None
        return n if n in self.news else None

    def isinput(self, t):
        """a term that denotes an object that existed before the run"""
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        n = t.decl().name()
        return n not in self.news and n not in P.DEFS and n not in P.SCOPED

    def somesegs(self, segs):
        """these pieces of text are not all empty"""
        r = []
        for x in segs:
            if isinstance(x, str):
                r.append(x != "")
            elif isinstance(x, StrOf) and (isnum(x.v) or isinstance(x.v, SObj)):
                r.append(True)
            elif isinstance(x, Comp):
                g = AND(x.g, self.somesegs(x.segs))
                if g is True:
                    r.append(znat(x.n) > 0)
                elif g is not False and isz(x.n) and not z3.is_int_value(x.n) or g is not False and znat(x.n).as_long() > 1:
                    r.append(EXIDX(x.k, x.n, zbool(g))[0])
                elif g is not False and znat(x.n).as_long() == 1:
                    r.append(subst(g, [(x.k, z3.IntVal(0))]))
            elif isinstance(x, HoleSeg):
                raise NeedLoc(x.loc)
            else:
                raise OutOfReach("string comparison")
        return OR(*r)

    @staticmethod
    def lits(segs):
        """adjacent literals joined, empty ones dropped"""
        out = []
        for x in segs:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        return out

    def streq(self, a, b, st):
        a = a.segs if isinstance(a, StrV) else ([a] if a else [])
        b = b.segs if isinstance(b, StrV) else ([b] if b else [])
        a, b = self.lits(a), self.lits(b)
        rs = []
        isint = lambda x: isinstance(x, StrOf) and not x.spec and (isinstance(x.v, int) or isz(x.v) and z3.is_int(x.v))  # noqa: E731

        def same(x, y):
            return isinstance(x, StrOf) and isinstance(y, StrOf) and x.spec == y.spec and (samev(x.v, y.v) or (
                isz(x.v) and isz(y.v) and x.v.sort() == y.v.sort() and z3.is_true(z3.simplify(x.v == y.v))))
        while a and b:
            done = True
            for end in (0, -1):
                if not a or not b:
                    break
                x, y = a[end], b[end]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if (x[:n] != y[:n]) if end == 0 else (x[-n:] != y[-n:]):
                        return False
                    for q, t in ((a, x), (b, y)):
                        q[end] = t[n:] if end == 0 else t[:len(t) - n]
                        if not q[end]:
                            q.pop(end)
                    done = False
                elif same(x, y):
                    a.pop(end)
                    b.pop(end)
                    done = False
                elif isint(x) and isint(y):
                    # a number ends where no digit follows
                    nx = [q[1 if end == 0 else -2] if len(q) > 1 else None for q in (a, b)]
                    if all(t is None or isinstance(t, str) and t[end and -1] not in "-0123456789" for t in nx):
                        rs.append(self.equal(x.v, y.v, st))
                        a.pop(end)
                        b.pop(end)
                        done = False
                elif len(a) == len(b) == 1 and isinstance(x, StrOf) and isinstance(y, StrOf) and x.spec == y.spec:
                    rs.append(self.equal(x.v, y.v, st))
                    a.pop()
                    b.pop()
                elif any(isint(p) and isinstance(q, str) and q[end and -1] not in "-0123456789" for p, q in ((x, y), (y, x))):
                    return False
            if done:
                break
        if not a and not b:
            return AND(*rs)
        if rs and not (a and b):
            return AND(*rs, self.streq(StrV(a), StrV(b), st))
        if not a or not b:
            # "" against a text with at least one str() of a number or non-empty literal
            o = a or b
            if any(isinstance(x, str) and x for x in o) or any(isinstance(x, StrOf) for x in o):
                return False
            if len(o) and isinstance(o[0], HoleSeg):
                raise NeedLoc(o[0].loc)
            return NOT(self.somesegs(o))
        raise OutOfReach("string comparison")

    def seqeq(self, a, b, st):
        la, lb = self.seqlen(a), self.seqlen(b)
        k = scoped("k", z3.IntSort())
        if self.concrete(la, st) == 0 or self.concrete(lb, st) == 0:
            return self.eqnum(la, lb)
        e, _ = EXIDX(k, la, zbool(NOT(self.equal(self.at_raw(a, k, st), self.at_raw(b, k, st), st))))
        return AND(self.eqnum(la, lb), NOT(e))

    def truth(self, v, st):
        if isinstance(v, Hole):
            raise NeedLoc(v.loc)
        if isinstance(v, Un):
            r = False
            for g, x in v.alts:
                r = OR(r, AND(g, self.truth(x, st)))
            return r
        if v is None:
            return False
        if isbool(v):
            return v
        if isnum(v):
            return (v != 0) if not isz(v) else NOT(v == 0)
        if isinstance(v, str):
            return v != ""
        if isinstance(v, StrV):
            return True if v.segs else False
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, MapView):
            return self.nonempty(self.keyseq(st.heap[v.ref.id], v.keys, st))
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Seq):
                return self.nonempty(c)
            if isinstance(c, MapV):
                return self.nonempty(self.keyseq(c, (), st))
            return True
        if isinstance(v, Seq):
            return self.nonempty(v)
        if isinstance(v, (SObj, Cls, Fn)):
            return True
        if isz(v) and v.sort() == U:
            return NOT(v == lit(""))
        raise OutOfReach("truth of %r" % (v,))

    def nonempty(self, q):
        r = False
        for s in q.segs:
            if isinstance(s, One):
                r = OR(r, s.g)
            elif isinstance(s, Base):
                n = base_len(s)
                r = OR(r, n > 0 if isz(n) else n > 0)
            elif isinstance(s, Comp):
                inner = self.nonempty(Seq(s.segs))
                e, _ = EXIDX(s.k, s.n, AND(s.g, inner))
                r = OR(r, e)
            elif isinstance(s, HoleSeg):
                raise NeedLoc(s.loc)
        return r

    # sequences ------------------------------------------------------
    def seq(self, v, st):
        """content of an iterable"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Hole):
            raise NeedLoc(v.loc)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Seq):
                return c
            if isinstance(c, MapV):
                return self.keyseq(c, (), st)
        if isinstance(v, MapView):
            m = st.heap[v.ref.id]
            if len(v.keys) == m.depth:
                x = self.lookup(m, v.keys, st)
                return self.seq(x, st)
            return self.keyseq(m, v.keys, st)
        if isinstance(v, Tup):
            return Seq([One(x) for x in v.items])
        if isinstance(v, str):
            return Seq([One(c) for c in v])
        if isinstance(v, Un):
            al = self.live(v, st)
            if len(al) == 1:
                return self.seq(al[0][1], st)
            if any(x is None for _, x in al):
                self.side(st, OR(*[g for g, x in al if x is None]), "TypeError")
                al = [(g, x) for g, x in al if x is not None]
                if len(al) == 1:
                    return self.seq(al[0][1], st)
            segs = []
            for g, x in al:
                segs += guardsegs(g, self.seq(x, st).segs)
            return Seq(segs)
        if v is None or isnum(v):
            self.side(st, True, "TypeError")
            return Seq()
        raise OutOfReach("iteration over %r" % (v,))

    def seglen(self, s):
        if isinstance(s, One):
            return 1 if s.g is True else z3.If(zbool(s.g), z3.IntVal(1), z3.IntVal(0))
        if isinstance(s, Base):
            return base_len(s)
        if isinstance(s, Comp):
            inner = self.seqlen(Seq(s.segs))
            if s.g is True and not isz(inner):
                return znat(s.n) * inner if inner != 1 else (znat(s.n) if isz(s.n) else s.n)
            if s.g is True and isz(inner) and s.k.decl().name() not in zvars(inner):
                return znat(s.n) * inner
            return SUM(s.k, s.n, ITE(s.g, znum(inner), z3.IntVal(0)))
        if isinstance(s, HoleSeg):
            raise NeedLoc(s.loc)
        raise OutOfReach("length of %r" % (s,))

    def seqlen(self, q):
        tot, c = None, 0
        for s in q.segs:
            n = self.seglen(s)
            if isz(n):
                tot = n if tot is None else tot + n
            else:
                c += n
        if tot is None:
            return c
        return tot + c if c else tot

    def at_raw(self, q, i, st):
        """element i, i assumed in range"""
        i = znum(i)
        segs = [s for s in q.segs]
        if not segs:
            raise OutOfReach("index into an empty list")
        s = segs[0]
        if len(segs) == 1:
            return self.seg_at(s, i, st)
        n = self.seglen(s)
        c = self.decide(st, i < znum(n))
        if c is True:
            return self.seg_at(s, i, st)
        rest = Seq(segs[1:])
        j = z3.simplify(i - znum(n))
        if c is False:
            return self.at_raw(rest, j, st)
        return vmerge(c, self.seg_at(s, i, st), self.at_raw(rest, j, st))

    def seg_at(self, s, i, st):
        if isinstance(s, One):
            return s.v
        if isinstance(s, Base):
            return base_at(s, i)
        if isinstance(s, Comp) and s.g is True:
            inner = self.seqlen(Seq(s.segs))
            if not isz(inner) and inner == 1 and len(s.segs) == 1:
                return self.seg_at(subst(s.segs[0], [(s.k, i)]), z3.IntVal(0), st)
            if not isz(inner) and inner > 1 and all(isinstance(x, One) and x.g is True for x in s.segs):
                q, r = i / inner, i % inner
                v = subst(s.segs[-1].v, [(s.k, q)])
                for j in reversed(range(inner - 1)):
                    v = vmerge(r == j, subst(s.segs[j].v, [(s.k, q)]), v)
                return v
        if isinstance(s, Comp) and len(s.segs) == 1 and isinstance(s.segs[0], One) and isz(s.n):
            p = SEL(s.k, s.n, AND(s.g, s.segs[0].g), i)
            return subst(s.segs[0].v, [(s.k, p)])
        if isinstance(s, HoleSeg):
            raise NeedLoc(s.loc)
        raise OutOfReach("index into a filtered list")

    def at(self, q, i, st):
        n = self.seqlen(q)
        if not isz(i) and i < 0:
            i = z3.simplify(znum(n) + i) if isz(n) else n + i
            if not isz(i) and i < 0 or (isz(i) and False):
                self.side(st, True, "IndexError")
                return None
        iz, nz = znum(i), znum(n)
        bad = z3.Or(iz < -nz, iz >= nz)
        self.side(st, z3.simplify(bad) if not z3.is_true(z3.simplify(bad)) else True, "IndexError")
        if self.dead(st):
            return None
        neg = self.decide(st, iz < 0)
        if neg is True:
            iz = iz + nz
        elif neg is not False:
            raise OutOfReach("index of unknown sign")
        return self.at_raw(q, iz, st)

    def contains(self, container, x, st):
        if isinstance(container, Un):
            r = False
            for g, c in self.live(container, st):
                s = st.copy()
                s.pc.append(g)
                r = OR(r, AND(g, self.contains(c, x, s)))
            return r
        if isinstance(container, Tup):
            return OR(*[self.equal(x, y, st) for y in container.items]) if container.items else False
        if isinstance(container, Ref) and isinstance(st.heap[container.id], MapV):
            return self.has(st.heap[container.id], (keyterm(x),), st)
        if isinstance(container, MapView):
            m = st.heap[container.ref.id]
            if len(container.keys) < m.depth:
                return self.has(m, container.keys + (keyterm(x),), st)
        if isinstance(container, MapV):
            return self.has(container, (keyterm(x),), st)
        if isinstance(container, (str, StrV)):
            raise OutOfReach("substring test")
        return self.member(self.seq(container, st), x, st)

    def member(self, q, x, st):
        r = False
        for s in q.segs:
            if isinstance(s, One):
                r = OR(r, AND(s.g, self.equal(s.v, x, st)))
            elif isinstance(s, Base):
                k = scoped("k", z3.IntSort())
                e, _ = EXIDX(k, base_len(s), self.equal(base_at(s, k), x, st))
                r = OR(r, e)
            elif isinstance(s, Comp):
                e, _ = EXIDX(s.k, s.n, AND(s.g, self.member(Seq(s.segs), x, st)))
                r = OR(r, e)
            elif isinstance(s, HoleSeg):
                raise NeedLoc(s.loc)
        return r

    # maps -----------------------------------------------------------
    def lookup(self, m, keys, st):
        """leaf at keys; missing keys give the default"""
        v = self.look(m, list(m.log), tuple(keyterm(k) if not isz(k) else k for k in keys), st)
        if v is MISSING:
            self.side(st, True, "KeyError")
            return None
        if isinstance(v, Un) and any(x is MISSING for _, x in v.alts):
            self.side(st, OR(*[g for g, x in v.alts if x is MISSING]), "KeyError")
            al = [(g, x) for g, x in v.alts if x is not MISSING]
            v = al[0][1] if len(al) == 1 else Un(al)
        return v

    def look(self, m, log, keys, st):
        if not log:
            return self.look_base(m, keys, st)
        w = log[-1]
        rest = log[:-1]
        if isinstance(w, W):
            if w.kind == "touch" or len(w.keys) < m.depth:
                return self.look(m, rest, keys, st)
            c = AND(w.g, *[self.termeq(a, b) if a.sort() == b.sort() else keyeq(a, b) for a, b in zip(w.keys, keys)])
            c = self.decide(st, c) if isz(c) else c
            if w.kind == "set":
                if c is True:
                    return w.val
                r = self.look(m, rest, keys, st)
                return r if c is False else vmerge(c, w.val, r)
            if w.kind == "add":
                r = self.look(m, rest, keys, st)
                if c is False:
                    return r
                r2 = self.arith(ast.Add(), r, w.val, st)
                return r2 if c is True else vmerge(c, r2, r)
            if w.kind == "append":
                r = self.look(m, rest, keys, st)
                if c is False:
                    return r
                q = self.seq(r, st)
                return Seq(list(q.segs) + (guardsegs(c, w.val.segs) if c is not True else list(w.val.segs)))
            raise OutOfReach(w.kind)
        # loop entry
        kinds = self.logkinds(w)
        if not kinds - {"touch"}:
            return self.look(m, rest, keys, st)
        if kinds <= {"add", "touch"}:
            r = self.look(m, rest, keys, st)
            t = self.logsum(w, keys, m, st)
            return self.arith(ast.Add(), r, t, st) if not (z3.is_app(t) and z3.simplify(t).eq(z3.IntVal(0))) else r
        if kinds <= {"append", "touch"}:
            r = self.seq(self.look(m, rest, keys, st), st)
            return Seq(list(r.segs) + self.logapp(w, keys, m, st))
        # last writer; try the syntactic candidate first
        cand = self.unify_writer(w, keys, m, st)
        if cand is not None:
            return cand
        g = self.logwrites(w, keys, m, st)
        if g is False:
            return self.look(m, rest, keys, st)
        e, i = EXIDX(w.k, w.n, g, last=True)
        d = self.decide(st, e)
        if d is False:
            return self.look(m, rest, keys, st)
        s = st.copy()
        s.pc += [e, 0 <= i, i < znat(w.n)]
        s.pc.append(subst(zbool(g), [(w.k, i)]))
        inner = [subst(x, [(w.k, i)]) for x in w.log]
        mm = MapV(m.depth, m.default, HoleMap("#outer"), (), m.keysorts)
        v = self.look_inner(mm, inner, keys, s)
        if isinstance(v, NoDef):
            raise OutOfReach("map written in a nested way")
        if d is True:
            return v
        return vmerge(d, v, self.look(m, rest, keys, st))

    def look_inner(self, m, log, keys, st):
        """value written by one iteration, known to write"""
        return self.look(m, log, keys, st)

    def look_base(self, m, keys, st):
        b = m.base
        if b is None:
            if isinstance(m.default, NoDef):
                return MISSING
            if isinstance(m.default, ListDefault):
                return Seq()
            return m.default
        if isinstance(b, HoleMap):
            if b.loc == "#outer":
                return UNBOUND
            raise NeedLoc(b.loc)
        if isinstance(b, GenBase):
            return b.value
        return mkval(b.name, list(b.args) + [self.ksort(k, t) for k, t in zip(keys, b.keytypes)], b.valtype)

    def ksort(self, k, t):
        s = sort_of(t)
        if k.sort() != s:
            if z3.is_real(k) and s == z3.IntSort():
                return z3.ToInt(k)
            if z3.is_int(k) and s == z3.RealSort():
                return z3.ToReal(k)
            raise OutOfReach("key sort %s for %s" % (k.sort(), t))
        return k

    def logkinds(self, w):
        if isinstance(w, W):
            return {w.kind}
        out = set()
        for x in w.log:
            out |= self.logkinds(x)
        return out

    def wmatch(self, w, keys, m):
        if len(w.keys) < m.depth:
            return False
        return AND(w.g, *[self.termeq(a, b) if a.sort() == b.sort() else keyeq(a, b) for a, b in zip(w.keys, keys)])

    def logsum(self, w, keys, m, st):
        if isinstance(w, W):
            if w.kind == "touch":
                return z3.IntVal(0)
            c = self.wmatch(w, keys, m)
            if c is False:
                return z3.IntVal(0)
            v = znum(w.val)
            return v if c is True else z3.If(c, v, z3.IntVal(0) if z3.is_int(v) else z3.RealVal(0))
        tot = None
        for x in w.log:
            t = self.logsum(x, keys, m, st)
            if z3.is_int_value(t) and t.as_long() == 0:
                continue
            if tot is None:
                tot = t
            else:
                a, b = coerce(tot, t)
                tot = a + b
        if tot is None:
            return z3.IntVal(0)
        if w.g is not True:
            tot = z3.If(zbool(w.g), tot, z3.IntVal(0) if z3.is_int(tot) else z3.RealVal(0))
        return SUM(w.k, w.n, tot)

    def logapp(self, w, keys, m, st):
        if isinstance(w, W):
            c = self.wmatch(w, keys, m) if w.kind != "touch" else False
            if c is False:
                return []
            return guardsegs(c, w.val.segs) if c is not True else list(w.val.segs)
        segs = []
        for x in w.log:
            segs += self.logapp(x, keys, m, st)
        return [Comp(w.k, w.n, w.g, segs)] if segs else []

    def logwrites(self, w, keys, m, st):
        """condition that the entry (one iteration for the outer loop) writes keys"""
        if isinstance(w, W):
            return self.wmatch(w, keys, m) if w.kind != "touch" else False

        def it(x):
            if isinstance(x, W):
                return self.wmatch(x, keys, m) if x.kind != "touch" else False
            g = OR(*[it(y) for y in x.log]) if x.log else False
            e, _ = EXIDX(x.k, x.n, AND(x.g, g))
            return e
        return AND(w.g, OR(*[it(x) for x in w.log]) if w.log else False)

    def unify_writer(self, w, keys, m, st):
        """a loop with one write per iteration whose key at iteration t is the key looked up, for a syntactic t"""
        if len(w.log) != 1 or not isinstance(w.log[0], W) or w.log[0].kind != "set":
            return None
        e = w.log[0]
        if len(e.keys) != len(keys):
            return None
        t = None
        for a, b in zip(e.keys, keys):
            if w.k.decl().name() in zvars(a):
                t = unify(a, b, w.k)
                if t is None:
                    return None
        if t is None:
            return None
        g = AND(subst(w.g, [(w.k, t)]) if isz(w.g) else w.g, subst(e.g, [(w.k, t)]) if isz(e.g) else e.g,
                *[keyeq(subst(a, [(w.k, t)]), b) for a, b in zip(e.keys, keys)])
        if not self.holds(st, AND(t >= 0, t < znat(w.n), g)):
            return None
        # no later iteration writes the same key
        j = scoped("j", z3.IntSort())
        other = AND(j > t, j < znat(w.n), *[x if not isz(x) else subst(x, [(w.k, j)]) for x in (w.g, e.g)],
                    *[keyeq(subst(a, [(w.k, j)]), b) for a, b in zip(e.keys, keys)])
        if not self.holds(st, NOT(other)):
            return None
        return subst(e.val, [(w.k, t)])

    def has(self, m, keys, st):
        """key present (prefix of the depth allowed)"""
        keys = tuple(keyterm(k) if not isz(k) else k for k in keys)
        d = len(keys)

        def ent(x):
            if isinstance(x, W):
                if len(x.keys) < d:
                    return False
                return AND(x.g, *[self.termeq(a, b) if a.sort() == b.sort() else keyeq(a, b) for a, b in zip(x.keys, keys)])
            g = OR(*[ent(y) for y in x.log]) if x.log else False
            if g is False:
                return False
            e, _ = EXIDX(x.k, x.n, AND(x.g, g))
            return e
        r = False
        for w in m.log:
            r = OR(r, ent(w))
        if isinstance(m.base, MapBase):
            r = OR(r, self.base_has(m.base, keys, st))
        elif isinstance(m.base, HoleMap):
            raise NeedLoc(m.base.loc)
        return r

    def base_keys(self, b, prefix):
        if b.name in self.quiet.values():
            raise Walked(b.name)
        bb = Base("%s#keys%d" % (b.name, len(prefix)), list(b.args) + list(prefix), b.keytypes[len(prefix)])
        at = bb.name + "#at"
        if at not in P.KEYAX:
            P.KEYAX.add(at)
            vs = [z3.Const("ka!%d" % i, x.sort()) for i, x in enumerate(bb.args)]
            i = z3.Int("ki!")
            x = keyterm(base_at(Base(bb.name, vs, bb.elem), i))
            inv = z3.Function(at + "!inv", *[v.sort() for v in vs], x.sort(), z3.IntSort())
            n = base_len(Base(bb.name, vs, bb.elem))
            P.AXIOMS.setdefault(at, []).append(z3.ForAll(vs + [i], z3.Implies(z3.And(i >= 0, i < n), inv(*vs, x) == i), patterns=[x]))
        return bb

    def base_has(self, b, keys, st):
        # an inner entry is only there under its outer key
        r = True
        for d in [len(keys) - 1]:
            bb = self.base_keys(b, [self.ksort(k, t) for k, t in zip(keys[:d], b.keytypes)])
            k = scoped("k", z3.IntSort())
            x = base_at(bb, k)
            e, _ = EXIDX(k, base_len(bb), keyeq(keyterm(x), self.ksort(keys[d], b.keytypes[d])))
            r = AND(r, e)
        return r

    def keyseq(self, m, prefix, st):
        prefix = tuple(prefix)
        d = len(prefix)
        segs = []
        if isinstance(m.base, MapBase):
            segs.append(self.base_keys(m.base, [self.ksort(k, t) for k, t in zip(prefix, m.base.keytypes)]))
        elif isinstance(m.base, HoleMap):
            raise NeedLoc(m.base.loc)

        def ent(x, before):
            if isinstance(x, W):
                if len(x.keys) <= d:
                    return []
                g = AND(x.g, *[self.termeq(a, b) if a.sort() == b.sort() else keyeq(a, b) for a, b in zip(x.keys[:d], prefix)])
                if g is False:
                    return []
                return [One(self.unkey(x.keys[d], m, d), AND(g, NOT(before(x.keys[d]))))]
            inner = []
            for i, y in enumerate(x.log):
                def bef(key, x=x, i=i, y=y):
                    r = before(key)
                    r = OR(r, *[self.has(MapV(m.depth, m.default, None, [z]), prefix + (key,), st) for z in x.log[:i]])
                    k2 = scoped("k", z3.IntSort())
                    for z in x.log:
                        h = self.has(MapV(m.depth, m.default, None, [subst(z, [(x.k, k2)])]), prefix + (key,), st)
                        if h is not False:
                            e, _ = EXIDX(k2, x.k, AND(subst(x.g, [(x.k, k2)]) if isz(x.g) else x.g, h), upto=x.n)
                            r = OR(r, e)
                    return r
                inner += ent(y, bef)
            return self.pointed(Comp(x.k, x.n, x.g, inner)) if inner else []
        for i, w in enumerate(m.log):
            def before(key, i=i):
                return self.has(MapV(m.depth, m.default, m.base, m.log[:i]), prefix + (key,), st)
            segs += ent(w, before)
        return Seq(segs)

    def pointed(self, c):
        """the elements of c, where its conditions leave one value for the index"""
        def leaves(x, g):
            if isinstance(x, One):
                return [AND(g, x.g)]
            return [y for z in x.segs for y in leaves(z, AND(g, x.g))] if isinstance(x, Comp) else [None]

        def guard(x, g):
            return One(x.v, AND(g, x.g)) if isinstance(x, One) else Comp(x.k, x.n, AND(g, x.g), x.segs)
        ls = leaves(c, True)
        if len(ls) != 1 or not isz(ls[0]):
            return [c]
        t = P.point(c.k, znat(c.n), z3.simplify(ls[0]))
        if t is None:
            return [c]
        g = AND(*P.inrange(t, znat(c.n)), subst(c.g, [(c.k, t)]) if isz(c.g) else c.g)
        return [guard(subst(x, [(c.k, t)]), g) for x in c.segs]

    def unkey(self, t, m, d):
        ty = (m.keysorts or [None] * m.depth)[d]
        if ty and ty not in ("Int", "Real", "U", "Bool"):
            return SObj(t, ty)
        return t

    # attributes -----------------------------------------------------
    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(o, self.mangle(e.attr), st)

    def getattr(self, o, name, st):
        if isinstance(o, Hole):
            raise NeedLoc(o.loc)
        if isinstance(o, Un):
            al = self.live(o, st)
            if len(al) == 1:
                return self.getattr(al[0][1], name, st)
            return self.foralts(o, st, lambda x, s: self.getattr(x, name, s))
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, Inst):
                if name in c.fields:
                    v = c.fields[name]
                    if isinstance(v, Hole):
                        raise NeedLoc(v.loc)
                    if isinstance(v, Unbound):
                        self.side(st, True, "AttributeError")
                        return None
                    return v
                if name == "__class__":
                    return Cls(c.cls)
                if name in ("__getattribute__", "__setattr__"):
                    return Builtin(name, o)
                a = self.classattr(c.cls, name)
                if isinstance(a, Prop):
                    return self.call(a.fget, [o], {}, st)
                if isinstance(a, Fn):
                    return self.bindm(a, o)
                if a is not None:
                    return a
                if self.optional_field(c.cls, name):
                    pass
                self.side(st, True, "AttributeError")
                return None
            return Builtin(name, o)
        if isinstance(o, SObj):
            try:
                owner, ty = self.field_type(o.cls, name)
            except OutOfReach:
                if name in ("__getattribute__", "__setattr__"):
                    return Builtin(name, o)
                a = self.classattr(o.cls, name) if o.cls else None
                if isinstance(a, Prop):
                    return self.call(a.fget, [o], {}, st)
                if isinstance(a, Fn):
                    return self.bindm(a, o)
                raise
            return self.read_field(o, owner, name, ty, st)
        if isinstance(o, Mod):
            return self.modattr(o, name)
        if isinstance(o, Cls):
            a = self.classattr(o.name, name)
            if a is None:
                raise OutOfReach("class attribute %s.%s" % (o.name, name))
            return a
        if o is None:
            self.side(st, True, "AttributeError")
            return None
        if isinstance(o, Prop):
            return Builtin("prop." + name, o)
        return Builtin(name, o)

    def optional_field(self, cls, name):
        return False

    def read_field(self, o, owner, name, ty, st):
        key = "attr:%s.%s" % (owner, name)
        if key in st.heap:
            return self.lookup(st.heap[key], (o.term,), st)
        # distribute over if-then-else so that created objects are not read as inputs
        v = mkval("%s.%s" % (owner, name), [o.term], ty)
        if isinstance(v, MapV) and v.depth > 1:
            return self.frozen(v, "%s.%s:%s" % (owner, name, o.term.sexpr()), st)
        return v

    def frozen(self, v, name, st):
        """a map inside an input object: read only (writing to it is out of reach)"""
        r = Ref.__new__(Ref)
        r.id = "frozen#" + name
        st.heap.setdefault(r.id, v)
        return r

    @staticmethod
    def writable(ref):
        if ref.id.startswith("frozen#"):
            raise OutOfReach("write to a map inside an input object")

    def bindm(self, fn, o):
        for d in getattr(fn.node, "decorator_list", []):
            if isinstance(d, ast.Name) and d.id == "staticmethod":
                return fn
        return Fn(fn.node, fn.module, fn.cls, fn.closure, o, fn.qual)

    def modattr(self, o, name):
        if (o.name, name) == ("math", "pi"):
            P.AXIOMS.setdefault("pi", [z3.And(z3.Real("pi") > z3.RealVal("3.14159"), z3.Real("pi") < z3.RealVal("3.1416"))])
            return z3.Real("pi")
        if (o.name, name) in (("math", "inf"), ("np", "inf")):
            return INF
        return Builtin("%s.%s" % (o.name, name))

    def classattr(self, cls, name):
        key = (cls, name)
        cache = self.__dict__.setdefault("_cls_cache", {})
        if key in cache:
            return cache[key]
        r = None
        for c in self.src.mro(cls):
            if name.startswith("_%s__" % c.lstrip("_")):
                name = name[len(c.lstrip("_")) + 1:]
                cls = c
                break
        if any(b == "Enum" for c in self.src.mro(cls) for b in self.src.bases(c)):
            f = self.src.method(cls, name)
            if f is not None:
                return lit("%s.%s" % (cls, name))
        for c in self.src.mro(cls):
            if c not in self.src.classes:
                continue
            mod, node = self.src.classes[c]
            val = None
            for n in node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    fn = Fn(n, mod, c, qual="%s.%s.%s" % (mod, c, name))
                    deco = [d for d in n.decorator_list]
                    if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in deco):
                        val = Prop(val.fget if isinstance(val, Prop) else None, fn)
                    elif any(isinstance(d, ast.Name) and d.id == "property" for d in deco):
                        val = Prop(fn)
                    else:
                        val = fn
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    val = self.eval_in(n.value, mod, c)
            if val is not None:
                r = val
                break
        cache[key] = r
        return r

    # subscripts -----------------------------------------------------
    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        return self.getitem(o, e.slice, st)

    def getitem(self, o, sl, st):
        if isinstance(o, Hole):
            raise NeedLoc(o.loc)
        if isinstance(o, Un):
            al = self.live(o, st)
            if len(al) == 1:
                return self.getitem(al[0][1], sl, st)
            return self.foralts(o, st, lambda x, s: self.getitem(x, sl, s))
        mk = self.mapkeys(o, sl, st)
        if mk is not None:
            ref, ks = mk
            m = st.heap[ref.id]
            if len(ks) < m.depth:
                if m.default is NODEF and not (isinstance(m.base, MapBase)):
                    pass
                return MapView(ref, ks)
            if isinstance(m.default, ListDefault):
                return MapView(ref, ks)
            if m.default is NODEF:
                self.side(st, NOT(self.has(m, ks, st)), "KeyError")
                if self.dead(st):
                    return None
            elif not isinstance(m.base, HoleMap) or True:
                v = self.lookup(m, ks, st)
                if ref.id not in self.quiet and not ref.id.startswith("frozen#") and not self.known_key(m, ks) and not self.present(m, ks, st):
                    st.heap[ref.id] = st.heap[ref.id].add(W("touch", ks, None))
                return v
            return self.lookup(m, ks, st)
        if isinstance(o, MapV):
            k = keyterm(self.eval(sl, st))
            if o.depth != 1:
                raise OutOfReach("view of a map value")
            return self.lookup(o, (k,), st)
        if isinstance(o, MapView):
            o = self.seq(o, st)
        if isinstance(sl, ast.Slice):
            return self.slice(o, sl, st)
        i = self.eval(sl, st)
        if isinstance(o, (Tup, str)):
            c = self.concrete(znum(i), st)
            items = o.items if isinstance(o, Tup) else o
            if c is None:
                raise OutOfReach("symbolic tuple index")
            if not -len(items) <= c < len(items):
                self.side(st, True, "IndexError")
                return None
            return items[c]
        if isinstance(i, Un):
            return self.foralts(i, st, lambda x, s: self.at(self.seq(o, s), x, s))
        if not isnum(i):
            raise OutOfReach("list index %r" % (i,))
        if isz(i) and z3.is_real(i):
            raise OutOfReach("real list index")
        return self.at(self.seq(o, st), i, st)

    def present(self, m, ks, st):
        """the path is under the condition that the key is there"""
        if not st.pc:
            return False
        try:
            h = self.has(m, ks, st)
        except NeedLoc:
            return False
        if not isz(h):
            return bool(h)
        todo = [p for p in st.pc if isz(p)]
        while todo:
            p = todo.pop()
            if p.eq(h):
                return True
            if z3.is_and(p):
                todo += p.children()
        return False

    def known_key(self, m, ks):
        """the keys come from walking the map itself, or were looked at just before"""
        for w in m.log:
            if isinstance(w, W) and w.kind in ("touch", "set", "add") and w.g is True and len(w.keys) == len(ks) and \
                    all(a.eq(b) for a, b in zip(w.keys, ks)):
                return True
        b = m.base
        if isinstance(b, HoleMap) and isinstance(b.loc, tuple) and self.loops:
            b = self.map_root(b)
        if not isinstance(b, MapBase):
            return False
        k, d = ks[-1], len(ks) - 1
        pre = list(b.args) + list(ks[:-1])
        if not z3.is_app(k) or k.decl().name() != "%s#keys%d#at" % (b.name, d) or k.num_args() != len(pre) + 1 or \
                not all(x.eq(y) for x, y in zip(k.children(), pre)):
            return False
        return True

    def map_root(self, b):
        """the input map a map under construction started from (keys are never removed)"""
        for _ in range(10):
            for l in reversed(self.loops):
                if b.loc in l.ph:
                    init = l.init_of(b.loc)
                    if not isinstance(init, MapV):
                        return None
                    if isinstance(init.base, MapBase):
                        return init.base
            return None

    def slice(self, o, sl, st):
        if sl.step is not None:
            c = self.eval(sl.step, st)
            if c == -1 and sl.lower is None and sl.upper is None:
                q = self.seq(o, st)
                n = znum(self.seqlen(q))
                if all(isinstance(s, One) and s.g is True for s in q.segs):
                    return Seq(list(reversed(q.segs)))
                k = scoped("k", z3.IntSort())
                return Seq([Comp(k, n, True, [One(self.at_raw(q, n - 1 - k, st))])])
            raise OutOfReach("slice step")
        q = self.seq(o, st)
        n = self.seqlen(q)
        lo = self.eval(sl.lower, st) if sl.lower is not None else 0
        hi = self.eval(sl.upper, st) if sl.upper is not None else n

        def norm(x):
            if not isz(x) and not isz(n):
                return max(0, min(n, x + n if x < 0 else x))
            if not isz(x) and x < 0:
                y = znum(n) + x
                return z3.If(y < 0, 0, y)
            if not isz(x) and x == 0:
                return 0
            if isz(x) and isz(n) and x.eq(n):
                return n
            x = znum(x)
            c = self.decide(st, z3.And(x >= 0, x <= znum(n)))
            if c is True:
                return x
            y = z3.If(x < 0, x + znum(n), x)
            return z3.If(y < 0, 0, z3.If(y > znum(n), znum(n), y))
        lo, hi = norm(lo), norm(hi)
        if not isz(lo) and not isz(hi) and all(isinstance(s, One) and s.g is True for s in q.segs):
            return Seq(q.segs[lo:hi])
        ln = z3.simplify(z3.If(znum(hi) > znum(lo), znum(hi) - znum(lo), 0)) if isz(lo) or isz(hi) else max(0, hi - lo)
        if isz(ln) and self.holds(st, znum(hi) >= znum(lo)):
            ln = z3.simplify(znum(hi) - znum(lo))
        if not isz(lo) and lo == 0 and isz(hi) and isz(n) and hi.eq(n):
            return q
        if len(q.segs) == 1 and isinstance(q.segs[0], Base):
            b = q.segs[0]
            off = lo if b.off is None else z3.simplify(znum(lo) + znum(b.off))
            return Seq([Base(b.name, b.args, b.elem, off if isz(off) or off else None, znum(ln))])
        k = scoped("k", z3.IntSort())
        s2 = st.copy()
        s2.pc += [k >= 0, k < znum(ln)]
        return Seq([Comp(k, znum(ln), True, [One(self.at_raw(q, z3.simplify(k + znum(lo)), s2))])])

    # comprehensions -------------------------------------------------
    def e_ListComp(self, e, st):
        r = Ref("list")
        st.heap[r.id] = Seq()
        saved = dict(st.env)

        def gen(i, s):
            if i == len(e.generators):
                v = self.eval(e.elt, s)
                if not self.dead(s):
                    s.heap[r.id] = Seq(s.heap[r.id].segs + (One(v),))
                return [("next", s, None)] if not self.dead(s) else []
            g = e.generators[i]
            q = self.seq(self.eval(g.iter, s), s)

            def body(s2, x):
                self.assign(g.target, x, s2)
                c = True
                for t in g.ifs:
                    cc = self.truth(self.eval(t, s2), s2)
                    c = AND(c, cc)
                c = self.decide(s2, c) if isz(c) else c
                if c is False:
                    return [("next", s2, None)]
                if c is True:
                    return gen(i + 1, s2)
                a, b = s2.copy(), s2.copy()
                a.pc.append(c)
                b.pc.append(NOT(c))
                return gen(i + 1, a) + [("next", b, None)]
            return self.iterate(q, body, s)
        outs = gen(0, st.copy())
        m = self.merge_states([s for k, s, v in outs])
        if m is None:
            st.pc.append(False)
            return r
        m.env = saved
        st.become(m)
        return r

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        raise OutOfReach("dict comprehension")

    # calls ----------------------------------------------------------
    def e_Call(self, e, st):
        # defaultdict(...) and quantifier-like builtins need the syntax
        f = e.func
        if isinstance(f, ast.Name) and f.id == "defaultdict" and "defaultdict" not in st.env:
            return self.mkdefaultdict(e, st)
        if isinstance(f, ast.Name) and f.id == "isinstance" and len(e.args) == 2:
            return self.isinst(self.eval(e.args[0], st), e.args[1], st)
        if isinstance(f, ast.Name) and f.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            return self.quant(f.id, e.args[0], st)
        fn = self.eval(f, st)
        if self.dead(st):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                q = self.seq(v, st)
                if not all(isinstance(s, One) and s.g is True for s in q.segs):
                    raise OutOfReach("star argument")
                args += [s.v for s in q.segs]
            else:
                args.append(self.eval(a, st))
        kw = {k.arg: self.eval(k.value, st) for k in e.keywords}
        if self.dead(st):
            return None
        return self.call(fn, args, kw, st)

    def quant(self, which, g, st):
        """any/all over a generator: an existential over the iteration"""
        def gen(i, s):
            if i == len(g.generators):
                c = self.truth(self.eval(g.elt, s), s)
                return c if which == "any" else NOT(c)
            q = self.seq(self.eval(g.generators[i].iter, s), s)

            def el(x, s2):
                self.assign(g.generators[i].target, x, s2)
                c = True
                for t in g.generators[i].ifs:
                    cc = self.truth(self.eval(t, s2), s2)
                    c = AND(c, cc)
                    if isz(cc):
                        s2.pc.append(cc)
                if c is False:
                    return False
                return AND(c, gen(i + 1, s2))

            def segs(ss, s2):
                r = False
                for x in ss:
                    s3 = s2.copy()
                    if isinstance(x, One):
                        if x.g is not True:
                            s3.pc.append(x.g)
                        r = OR(r, AND(x.g, el(x.v, s3)))
                    elif isinstance(x, Base):
                        k = scoped("k", z3.IntSort())
                        s3.pc += [k >= 0, k < znat(base_len(x))]
                        ex, _ = EXIDX(k, base_len(x), el(base_at(x, k), s3))
                        r = OR(r, ex)
                    elif isinstance(x, Comp):
                        k = scoped("k", z3.IntSort())
                        s3.pc += [k >= 0, k < znat(x.n)]
                        gg = subst(x.g, [(x.k, k)]) if isz(x.g) else x.g
                        if isz(gg):
                            s3.pc.append(gg)
                        ex, _ = EXIDX(k, x.n, AND(gg, segs([subst(y, [(x.k, k)]) for y in x.segs], s3)))
                        r = OR(r, ex)
                    elif isinstance(x, HoleSeg):
                        raise NeedLoc(x.loc)
                return r
            return segs(q.segs, s)
        self.sinks.append([])
        r = gen(0, st.copy())
        raised = self.sinks.pop()
        if raised:
            raise OutOfReach("any/all body may raise %s" % raised[0][1])
        return r if which == "any" else NOT(r)

    def mkdefaultdict(self, e, st):
        depth, node = 1, (e.args[0] if e.args else None)
        while isinstance(node, ast.Lambda):
            c = node.body
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "defaultdict"):
                raise OutOfReach("defaultdict factory")
            depth += 1
            node = c.args[0] if c.args else None
        if node is None or (isinstance(node, ast.Constant) and node.value is None):
            d = NODEF
        elif isinstance(node, ast.Name) and node.id in ("float", "int"):
            d = 0
        elif isinstance(node, ast.Name) and node.id == "list":
            d = ListDefault()
        elif isinstance(node, ast.Name) and node.id == "str":
            d = ""
        else:
            raise OutOfReach("defaultdict factory")
        r = Ref("map")
        st.heap[r.id] = MapV(depth, d)
        return r

    def isinst(self, v, tnode, st):
        if isinstance(tnode, ast.Tuple):
            return OR(*[self.isinst(v, t, st) for t in tnode.elts])
        n = tnode.id if isinstance(tnode, ast.Name) else tnode.attr
        if isinstance(v, Hole):
            raise NeedLoc(v.loc)
        if isinstance(v, Un):
            r = False
            for g, x in v.alts:
                r = OR(r, AND(g, self.isinst(x, tnode, st)))
            return r
        if n in ("int", "float", "str", "list", "bool", "dict", "tuple"):
            if n == "int":
                return isinstance(v, (bool, int)) or (isz(v) and (z3.is_int(v) or z3.is_bool(v)))
            if n == "float":
                return isinstance(v, Fraction) or (isz(v) and z3.is_real(v))
            if n == "bool":
                return isbool(v)
            if n == "str":
                return isinstance(v, (str, StrV))
            if n == "list":
                return self.islist(v, st)
            if n == "tuple":
                return isinstance(v, Tup)
            return isinstance(v, Ref) and isinstance(st.heap[v.id], MapV)
        cls = None
        if isinstance(v, Ref) and isinstance(st.heap[v.id], Inst):
            cls = st.heap[v.id].cls
            return n in self.src.mro(cls)
        if isinstance(v, SObj):
            if v.cls and n in self.src.mro(v.cls):
                return True
            if v.cls is None or v.cls in self.src.mro(n):
                return self.clsof_in(v, n, st)
            return False
        if isz(v) and v.sort() == U:
            return False
        return False

    def clsof_in(self, v, n, st):
        nw = self.newsym(v.term)
        if nw:
            return n in self.src.mro(self.news[nw])
        if z3.is_app_of(v.term, z3.Z3_OP_ITE):
            t = v.term
            return z3.If(t.arg(0), zbool(self.clsof_in(SObj(t.arg(1), v.cls), n, st)),
                         zbool(self.clsof_in(SObj(t.arg(2), v.cls), n, st)))
        f = z3.Function("class", U, z3.IntSort())
        return OR(*[f(v.term) == self.tag(c) for c in sorted(self.src.subclasses(n))])

    def tag(self, c):
        return sorted(self.src.classes).index(c)

    def call(self, fn, args, kw, st):
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw, st)
        if isinstance(fn, Cls):
            return self.construct(fn.name, args, kw, st)
        if isinstance(fn, Builtin):
            return self.builtin(fn, args, kw, st)
        if isinstance(fn, Un):
            return self.foralts(fn, st, lambda f, s: self.call(f, args, kw, s))
        if isinstance(fn, ExcV):
            return fn
        raise OutOfReach("call of %r" % (fn,))

    def isexc(self, cls):
        return "Exception" in self.src.mro(cls) or cls in EXC_BUILTIN

    def construct(self, cls, args, kw, st):
        if self.isexc(cls):
            return ExcV(cls)
        f = self.src.method(cls, "__init__")
        r = Ref(cls)
        st.heap[r.id] = Inst(cls)
        if f is not None:
            owner, node = f
            mod = self.src.classes[owner][0]
            self.call_fn(Fn(node, mod, owner, bound=r, qual="%s.%s.__init__" % (mod, owner)), args, kw, st)
        return r

    def builtin(self, fn, args, kw, st):
        import builtins_ as B
        return B.call(self, fn, args, kw, st)

    def tostr(self, v, st, spec=""):
        if isinstance(v, str):
            return StrV([v])
        if isinstance(v, StrV):
            return v
        if isinstance(v, int) and not isinstance(v, bool) and not spec:
            return StrV([str(v)])
        return StrV([StrOf(v, spec)])


def unify(a, b, k):
    """t with a[k:=t] syntactically b"""
    if a.eq(k):
        return b
    if not z3.is_app(a) or not z3.is_app(b) or a.decl() != b.decl() or a.num_args() != b.num_args():
        # k + c against t
        if z3.is_add(a) and a.num_args() == 2:
            for i in (0, 1):
                if a.arg(i).eq(k) and z3.is_int_value(a.arg(1 - i)):
                    return z3.simplify(b - a.arg(1 - i))
        return None
    r = None
    for x, y in zip(a.children(), b.children()):
        if k.decl().name() in zvars(x):
            t = unify(x, y, k)
            if t is None or (r is not None and not r.eq(t)):
                return None
            r = t
        elif not x.eq(y):
            return None
    return r


def ast_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


BUILTINS = {"len", "range", "str", "int", "float", "max", "min", "sum", "abs", "list", "sorted", "reversed", "enumerate",
            "zip", "isinstance", "any", "all", "property", "round", "tuple", "bool", "set", "dict", "print", "implies", "peek", "uf", "opaque", "frozen", "made",
            "ghost", "obj", "lookup", "has", "iff", "is_none", "type"}
EXC_BUILTIN = {"Exception", "ValueError", "TypeError", "AttributeError", "ZeroDivisionError", "IndexError", "KeyError",
               "NotImplementedError", "OverflowError"}

from loops import Loop, eitherway  # noqa: E402
