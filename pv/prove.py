"""Discharging: defined symbols (SUM, EX/FIRST, LAST, FOLD), their facts, lemmas on sums, z3."""
import os
import re
import time
import z3
from values import *
from fractions import Fraction

DEFS = {}        # symbol name -> Def
SCOPED = {}      # name -> const: loop indices, carried placeholders, lambda parameters
STATS = dict(time=0.0, queries=0)
AXIOMS = {}      # function name -> list of (fn -> axiom) closed formulas added when the function occurs
KEYAX = set()    # key lists of dicts already known to be without repetition
INV_OF = {}      # function name -> key into CLASS_INV
CLASS_INV = {}   # class name -> closed formulas
TIMEOUT = [8000]


class Def:
    def __init__(self, kind, k, params, **kw):
        self.kind, self.k, self.params = kind, k, params
        self.__dict__.update(kw)


def scoped(prefix, sort):
    c = fresh(prefix, sort)
    SCOPED[c.decl().name()] = c
    return c


def frees(*vals, excl=()):
    acc = {}
    for v in vals:
        walk_terms(v, lambda t: zvars(t, acc))
    ex = {c.decl().name() for c in excl}
    return [acc[n] for n in sorted(acc) if n in SCOPED and n not in ex]


def znat(n):
    return z3.IntVal(n) if isinstance(n, int) else n


_cache = {}


def _canon(*xs):
    return "|".join(x.sexpr() if isz(x) else repr(x) for x in xs)


def forder(terms, excl=()):
    """scoped constants of the terms in order of first occurrence (independent of their names)"""
    ex = {c.decl().name() for c in excl}
    out, have, seen = [], set(), set()
    stack = list(reversed(terms))
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                n = x.decl().name()
                if n in SCOPED and n not in ex and n not in have:
                    have.add(n)
                    out.append(x)
            else:
                stack.extend(reversed(x.children()))
    return out


def norm(terms, own, ps):
    """terms with binders and parameters renamed to positions"""
    pairs = [(c, z3.Const("#o%d" % i, c.sort())) for i, c in enumerate(own)] + \
        [(p, z3.Const("#p%d" % i, p.sort())) for i, p in enumerate(ps)]
    return _canon(*[z3.substitute(t, *pairs) for t in terms])


def atleast0(n):
    """max(n, 0); loop indexes and lengths are not negative where they are used"""
    if z3.is_int_value(n):
        return z3.IntVal(max(0, n.as_long()))
    nm = n.decl().name() if z3.is_app(n) else ""
    if nm.endswith("#len") or (n.num_args() == 0 and nm.startswith("k!")):
        return n
    return z3.If(n > 0, n, 0)


def SUM(k, n, body):
    """sum over k<n of body (z3 arith)"""
    body = z3.simplify(znum(body))
    if z3.is_rational_value(body) or z3.is_int_value(body):
        if body.as_fraction() == 0 if z3.is_rational_value(body) else body.as_long() == 0:
            return z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0)
        m = atleast0(znat(n))
        return body * (m if z3.is_int(body) else z3.ToReal(m))
    n = znat(n)
    if z3.is_int_value(n):
        r = z3.substitute(body, (k, z3.IntVal(0))) if n.as_long() else None
        if r is None:
            return z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0)
        for i in range(1, n.as_long()):
            r = r + z3.substitute(body, (k, z3.IntVal(i)))
        return r
    if k.decl().name() not in zvars(body):
        m = atleast0(n)
        return body * (m if z3.is_int(body) else z3.ToReal(m))
    if z3.is_app_of(body, z3.Z3_OP_ITE) and z3.is_eq(body.arg(0)):
        # all the same but for one place
        for x, t in (body.arg(0).children(), reversed(body.arg(0).children())):
            if x.eq(k) and k.decl().name() not in zvars(t):
                d = z3.substitute(body.arg(1), (k, t)) - z3.substitute(body.arg(2), (k, t))
                return SUM(k, n, body.arg(2)) + z3.If(z3.And(t >= 0, t < n), d, z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0))
    if z3.is_app_of(body, z3.Z3_OP_ITE) and body.arg(1).eq(z3.IntVal(0)) and body.arg(2).eq(z3.IntVal(1)):
        body = z3.If(z3.Not(body.arg(0)), z3.IntVal(1), z3.IntVal(0))
    ps = forder([body], excl=[k])
    key = ("SUM", norm([body], [k], ps))
    if key not in _cache:
        name = freshname("SUM")
        f = z3.Function(name, z3.IntSort(), *[p.sort() for p in ps], body.sort())
        DEFS[name] = Def("SUM", k, ps, body=body, f=f)
        _cache[key] = f
    return _cache[key](n, *ps)


BASE = [None]      # hypotheses of the contract under proof (its precondition)
RANGE = {}         # name of a loop index -> its bound, where it is used at all
_inj = {}          # term with a hole -> different for different indexes, by those hypotheses?


def unify(a, b, k):
    """t such that a with k replaced by t is b, or None"""
    if a.eq(k):
        return b
    if not (z3.is_app(a) and z3.is_app(b)) or a.num_args() != b.num_args() or a.num_args() == 0 or not a.decl().eq(b.decl()):
        return None
    t = None
    for x, y in zip(a.children(), b.children()):
        if k.decl().name() in zvars(x):
            r = unify(x, y, k)
            if r is None or (t is not None and not t.eq(r)):
                return None
            t = r
        elif not x.eq(y):
            return None
    return t


def injective(a, k, n):
    """a takes different values at different k<n, by the precondition"""
    if BASE[0] is None or forder([a, n], excl=[k]):
        return False
    key = norm([a, n], [k], [])
    if key not in _inj:
        hyps, BASE[0] = BASE[0], None
        i, j = z3.Int("inj!i"), z3.Int("inj!j")
        _inj[key] = False
        try:
            g = z3.Implies(z3.And(i >= 0, i < j, j < n), z3.substitute(a, (k, i)) != z3.substitute(a, (k, j)))
            _inj[key] = check(hyps, g, 4000) == "proved"
        finally:
            BASE[0] = hyps
    return _inj[key]


def conjuncts(g):
    return [y for x in g.children() for y in conjuncts(x)] if z3.is_and(g) else [g]


def point(k, n, g, upto=None):
    """the only k<n at which g can hold, where one of its conditions says so"""
    if BASE[0] is None or z3.is_int_value(n):
        return None
    for c in conjuncts(g):
        if z3.is_eq(c):
            for a, b in (c.children(), reversed(c.children())):
                if k.decl().name() in zvars(a) and k.decl().name() not in zvars(b) and not a.eq(k):
                    t = unify(a, b, k)
                    if t is not None and t.sort() == z3.IntSort() and injective(a, k, znat(n if upto is None else upto)):
                        return t
    return None


def inrange(t, n):
    b = RANGE.get(t.decl().name()) if t.num_args() == 0 else None
    return [] if b is not None and b.eq(znat(n)) else [t >= 0, t < n]


def EXIDX(k, n, g, last=False, upto=None):
    """(exists k<n: g, the first (last) such k); n is at most upto"""
    g = z3.simplify(zbool(g))
    n = znat(n)
    if z3.is_false(g) or (z3.is_int_value(n) and n.as_long() <= 0):
        return z3.BoolVal(False), z3.IntVal(0)
    t = point(k, n, g, upto)
    if t is not None:
        return z3.simplify(z3.And(*inrange(t, n), z3.substitute(g, (k, t)))), t
    ps = forder([g], excl=[k])
    key = ("EX", last, norm([g], [k], ps))
    if key not in _cache:
        name = freshname("LAST" if last else "FIRST")
        sorts = [p.sort() for p in ps]
        fe = z3.Function(name + "?", z3.IntSort(), *sorts, z3.BoolSort())
        fi = z3.Function(name, z3.IntSort(), *sorts, z3.IntSort())
        d = Def("EX", k, ps, g=g, fe=fe, fi=fi, last=last)
        DEFS[name] = DEFS[name + "?"] = d
        _cache[key] = (fe, fi)
    fe, fi = _cache[key]
    return fe(n, *ps), fi(n, *ps)


def FOLD(k, n, cs, inits, steps):
    """simultaneous fold; returns the list of final values. cs placeholders, steps terms over cs and k"""
    ps = forder(list(steps), excl=[k] + list(cs))
    key = ("FOLD", norm(list(steps), [k] + list(cs), ps))
    if key in _cache:
        return [f(znat(n), *inits, *ps) for f in _cache[key]]
    name = freshname("FOLD")
    fs = _cache[key] = []
    sorts = [z3.IntSort()] + [c.sort() for c in cs] + [p.sort() for p in ps]
    for j, c in enumerate(cs):
        f = z3.Function("%s.%d" % (name, j), *sorts, c.sort())
        fs.append(f)
    for j, f in enumerate(fs):
        DEFS["%s.%d" % (name, j)] = Def("FOLD", k, ps, cs=list(cs), steps=list(steps), fs=fs, j=j)
    return [f(znat(n), *inits, *ps) for f in fs]


class XLeaf:
    def __init__(self, g, v):
        self.g, self.v = g, v


class XComp:
    def __init__(self, k, n, g, items):
        self.k, self.n, self.g, self.items = k, n, g, list(items)


def xterms(items, terms, own):
    for x in items:
        if isinstance(x, XLeaf):
            terms += [zbool(x.g), x.v]
        else:
            own.append(x.k)
            terms += [znat(x.n), zbool(x.g)]
            xterms(x.items, terms, own)


def xsubst(items, pairs):
    out = []
    for x in items:
        if isinstance(x, XLeaf):
            out.append(XLeaf(subst(x.g, pairs), subst(x.v, pairs)))
        else:
            out.append(XComp(x.k, subst(x.n, pairs), subst(x.g, pairs), xsubst(x.items, pairs)))
    return out


def xshape(items):
    return ["l" if isinstance(x, XLeaf) else xshape(x.items) for x in items]


def EXTREMUM(init, items, less):
    """the least (greatest) of init and the values of the items"""
    terms, own = [], []
    xterms(items, terms, own)
    ps = forder(terms, excl=own)
    key = ("EXT", less, str(init.sort()), str(xshape(items)), norm(terms, own, ps))
    if key not in _cache:
        name = freshname("MIN" if less else "MAX")
        f = z3.Function(name, init.sort(), *[p.sort() for p in ps], init.sort())
        DEFS[name] = Def("EXT", None, ps, items=items, less=less, f=f)
        _cache[key] = f
    return _cache[key](init, *ps)


def ext_facts(x, d):
    items = xsubst(d.items, list(zip(d.params, x.children()[1:]))) if d.params else d.items
    ge = (lambda a, b: a <= b) if d.less else (lambda a, b: a >= b)

    def val(v):
        return toreal(v) if z3.is_real(x) else v

    def bound(its):
        out = []
        for i in its:
            if isinstance(i, XLeaf):
                out.append(z3.Implies(zbool(i.g), ge(x, val(i.v))))
            else:
                q = fresh("q", z3.IntSort())
                sub = z3.And(*bound(xsubst(i.items, [(i.k, q)])))
                out.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < znat(i.n), zbool(subst(i.g, [(i.k, q)]))), sub)))
        return out

    def attained(its):
        out = []
        for i in its:
            if isinstance(i, XLeaf):
                out.append(z3.And(zbool(i.g), x == val(i.v)))
            else:
                q = fresh("q", z3.IntSort())
                sub = z3.Or(*attained(xsubst(i.items, [(i.k, q)])))
                out.append(z3.Exists([q], z3.And(q >= 0, q < znat(i.n), zbool(subst(i.g, [(i.k, q)])), sub)))
        return out
    return [ge(x, x.arg(0))] + bound(items) + [z3.Or(x == x.arg(0), *attained(items))]


def CNT(k, n, g):
    return SUM(k, n, ITE(g, z3.IntVal(1), z3.IntVal(0)))


def has_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE) or any(has_ite(c) for c in t.children())


def SEL(k, n, g, i):
    """the place of element i of the list filtered by g"""
    g = z3.simplify(zbool(g))
    if k.decl().name() not in zvars(g):
        return znum(i)
    # the first and the last one
    t = z3.simplify(znum(i))
    if z3.is_int_value(t) and t.as_long() == 0:
        return EXIDX(k, n, g)[1]
    if z3.is_int_value(z3.simplify(t - CNT(k, znat(n), g))) and z3.simplify(t - CNT(k, znat(n), g)).as_long() == -1:
        return EXIDX(k, n, g, last=True)[1]
    ps = forder([g], excl=[k])
    key = ("SEL", norm([g], [k], ps))
    if key not in _cache:
        name = freshname("SEL")
        f = z3.Function(name, z3.IntSort(), *[p.sort() for p in ps], z3.IntSort(), z3.IntSort())
        DEFS[name] = Def("SEL", k, ps, g=g, f=f)
        _cache[key] = f
    return _cache[key](znat(n), *ps, znum(i))


# ---------------------------------------------------------------- facts about defined symbols
_apps = {}


def apps1(t):
    """defined-symbol applications and function names in a term (including under quantifiers)"""
    got = _apps.get(t.get_id())
    if got is not None:
        return got[1], got[2]
    out, names, seen = {}, {}, set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            names[nm] = d
            if nm in DEFS:
                out[x.get_id()] = x
        stack.extend(x.children())
    _apps[t.get_id()] = (t, out, names)
    return out, names


def apps(ts):
    out, names = {}, {}
    for t in ts:
        o, n = apps1(t)
        out.update(o)
        names.update(n)
    return list(out.values()), names


_hasvar = {}


def hasvar(x):
    i = x.get_id()
    got = _hasvar.get(i)
    if got is None:
        if z3.is_var(x):
            r = True
        elif z3.is_quantifier(x):
            r = False
        else:
            r = any(hasvar(c) for c in x.children())
        got = _hasvar[i] = (x, r)
    return got[1]


def inst(d, x, t):
    """instantiate t's parameters with the arguments of application x"""
    args = x.children()
    if d.kind == "FOLD":
        return z3.substitute(t, *zip(d.params, args[1 + len(d.cs):])) if d.params else t
    return z3.substitute(t, *zip(d.params, args[1:])) if d.params else t


def unfold(t, bound, depth=0):
    """existence symbols that depend on a bound variable become quantifiers, so that their parts can trigger instances"""
    if depth > 6 or not (bound & set(zvars(t))):
        return t
    if z3.is_app(t) and t.decl().name() in DEFS and t.decl().name().endswith("?"):
        d = DEFS[t.decl().name()]
        j = fresh("q", z3.IntSort())
        g = z3.substitute(inst(d, t, d.g), (d.k, j))
        return z3.Exists([j], z3.And(j >= 0, j < t.arg(0), unfold(g, bound | {j.decl().name()}, depth + 1)))
    if z3.is_app(t) and z3.is_bool(t) and t.num_args() and t.decl().kind() in (
            z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_XOR):
        ch = [unfold(c, bound, depth) if z3.is_bool(c) else c for c in t.children()]
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            k = t.decl().kind()
            return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Not(ch[0]) \
                if k == z3.Z3_OP_NOT else t.decl()(*ch)
    return t


_rec = {}


def records(x, d, g, e, i):
    """the last k < n with c(k) and v(k) < M(k), where M(k) is the least of init and the v(j) with c(j), j < k: from there on
    nothing improves, so M(n) = v(last); without one M(n) = init  (by induction on n)"""
    out = []
    n = x.arg(0)
    for m in apps([d.g])[0]:
        dm = DEFS[m.decl().name()]
        if dm.kind != "EXT" or hasvar(m) or len(dm.items) != 1 or isinstance(dm.items[0], XLeaf):
            continue
        m = inst(d, x, m)
        it = xsubst(dm.items, list(zip(dm.params, m.children()[1:])))[0] if dm.params else dm.items[0]
        if not znat(it.n).eq(d.k) or len(it.items) != 1 or not isinstance(it.items[0], XLeaf) or d.k.decl().name() in zvars(m.arg(0)):
            continue
        leaf = it.items[0]
        c = AND(subst(it.g, [(it.k, d.k)]) if isz(it.g) else it.g, subst(leaf.g, [(it.k, d.k)]) if isz(leaf.g) else leaf.g)
        v = znum(leaf.v)
        v = toreal(v) if z3.is_real(m) else v
        vk = z3.substitute(v, (it.k, d.k))
        key = (x.get_id(), m.get_id())
        if key not in _rec:
            r = False
            for better in ((vk < m, vk <= m) if dm.less else (vk > m, vk >= m)):
                if g.eq(z3.And(zbool(c), better)) or plain(g == z3.And(zbool(c), better)):
                    r = True
                    break
            _rec[key] = (r, x, m)
        if _rec[key][0]:
            mn = z3.substitute(m, (d.k, n))
            out += [z3.Implies(e, mn == z3.substitute(v, (it.k, i))), z3.Implies(z3.And(z3.Not(e), n >= 0), mn == m.arg(0))]
    return out


def plain(goal):
    """valid with every defined symbol uninterpreted"""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def candidates(g, q):
    """terms the bound variable is compared with: e-matching has nothing to find them by"""
    out = {}

    def go(t, depth):
        if depth > 5 or len(out) > 4 or not z3.is_app(t) or q.decl().name() not in zvars(t):
            return
        if z3.is_eq(t) or z3.is_le(t) or z3.is_ge(t):
            a, b = t.arg(0), t.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_arith(x) and (x.eq(q) or z3.is_app_of(x, z3.Z3_OP_TO_REAL) and x.arg(0).eq(q)) and \
                        z3.is_int(y) and q.decl().name() not in zvars(y):
                    out[y.get_id()] = y
        if z3.is_bool(t):
            for c in t.children():
                go(c, depth + 1)
    go(g, 0)
    return list(out.values())


_facts = {}


def facts_of(x):
    got = _facts.get(x.get_id())
    if got is None:
        got = _facts[x.get_id()] = (x, facts_of_(x))
    return got[1]


def counting(d):
    return d.kind == "SUM" and z3.is_app_of(d.body, z3.Z3_OP_ITE) and z3.is_int(d.body) and \
        d.body.arg(1).eq(z3.IntVal(1)) and d.body.arg(2).eq(z3.IntVal(0))


def facts_of_(x):
    d = DEFS[x.decl().name()]
    n = x.arg(0)
    if d.kind == "EX":
        g = inst(d, x, d.g)
        e, i = d.fe(*x.children()), d.fi(*x.children())
        q = fresh("q", z3.IntSort())
        gq = unfold(z3.substitute(g, (d.k, q)), {q.decl().name()})
        rng = z3.And(q > i, q < n) if d.last else z3.And(q >= 0, q < i)
        more = [z3.Implies(z3.And(z3.Not(e), c >= 0, c < n), z3.Not(z3.substitute(gq, (q, c)))) for c in candidates(gq, q)]
        more += records(x, d, g, e, i) if d.last else []
        return more + [z3.Implies(e, z3.And(0 <= i, i < n, z3.substitute(g, (d.k, i)))),
                z3.Implies(e, z3.ForAll([q], z3.Implies(rng, z3.Not(gq)))),
                z3.Implies(z3.Not(e), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(gq))))]
    if d.kind == "SUM":
        z = z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
        r = [z3.Implies(n <= 0, x == z)]
        if counting(d):
            # counting: none, one, or two different
            n0 = z3.Int("n0!")
            ts = []
            for last in (False, True):
                e, i = EXIDX(d.k, n0, d.body.arg(0), last)
                ts += [z3.substitute(inst(d, x, t), (n0, n)) for t in (e, i)]
            r += [x >= 0, (x > 0) == ts[0], (x > 1) == z3.And(ts[0], ts[1] < ts[3])]
        return r
    if d.kind == "EXT":
        return ext_facts(x, d)
    if d.kind == "SEL":
        n, ps, i = x.arg(0), x.children()[1:-1], x.children()[-1]
        n0 = z3.Int("n0!")
        count = z3.substitute(z3.substitute(CNT(d.k, n0, d.g), *zip(d.params, ps)) if ps else CNT(d.k, n0, d.g), (n0, n))
        j = fresh("j", z3.IntSort())
        y = d.f(n, *ps, j)
        return [z3.Implies(z3.And(i >= 0, i < count), z3.And(x >= 0, x < n, z3.substitute(inst(d, x, d.g), (d.k, x)))),
                z3.ForAll([j], z3.Implies(z3.And(i >= 0, i < j, j < count), x < y), **({} if has_ite(y) else dict(patterns=[y])))]
    if d.kind == "FOLD":
        return [z3.Implies(n <= 0, x == x.arg(1 + d.j))]
    return []


def closure(ts, rounds=4):
    """facts for all defined symbols reachable from ts, and axioms of the functions that occur"""
    facts, done, fn_done = [], set(), set()
    cur = list(ts)
    for _ in range(rounds):
        a, names = apps(cur)
        new = []
        for x in a:
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            KEEP.append(x)
            if hasvar(x):
                # under a binder: facts quantified over the argument places
                d = DEFS[x.decl().name()]
                key = ("q", x.decl().name())
                if key in fn_done or not (d.kind in ("EX", "EXT", "SEL") or counting(d)):
                    continue
                fn_done.add(key)
                if key not in _facts:
                    vs = [fresh("v", x.arg(i).sort()) for i in range(x.num_args())]
                    gen = x.decl()(*vs)
                    _facts[key] = [z3.ForAll(vs, f, patterns=[gen]) for f in facts_of(gen)]
                new += _facts[key]
                continue
            new += facts_of(x)
            if DEFS[x.decl().name()].kind != "EX":
                CUTOFF[0] = True
        for nm, decl in names.items():
            if nm in fn_done:
                continue
            fn_done.add(nm)
            if nm.endswith("#len") and decl.arity() > 0:
                if ("l", nm) not in _facts:
                    vs = [fresh("v", decl.domain(i)) for i in range(decl.arity())]
                    _facts["l", nm] = z3.ForAll(vs, decl(*vs) >= 0, patterns=[decl(*vs)])
                new.append(_facts["l", nm])
            elif nm.endswith("#len"):
                new.append(decl() >= 0)
            for ax in AXIOMS.get(nm, []):
                new.append(ax)
            if nm in INV_OF and ("inv", INV_OF[nm]) not in fn_done:
                fn_done.add(("inv", INV_OF[nm]))
                new += CLASS_INV[INV_OF[nm]]
        if not new:
            break
        facts += new
        cur = new
    else:
        CUTOFF[0] = True
    return facts


KEEP = []
CUTOFF = [False]      # the facts given to the solver are not all there are: a model is not a counterexample


RESULTS = {}


FAILED = {}
_serial = re.compile(r"!(\d+)")


def renamed(asserts):
    """the text of a query with its fresh names numbered in order: the same question is not asked twice in vain"""
    names = {}
    return hash(_serial.sub(lambda m: "!%d" % names.setdefault(m.group(1), len(names)), "\n".join(x.sexpr() for x in asserts)))


def check(hyps, goal, timeout=None, extra=(), quick=False):
    """'proved' | 'sat' | 'unknown' for hyps |- goal"""
    goal = zbool(goal)
    if z3.is_true(z3.simplify(goal)):
        return "proved"
    hyps = [zbool(h) for h in hyps if h is not True]
    for h in hyps:
        if h.eq(goal):
            return "proved"
    ng = z3.Not(goal)
    timeout = timeout or TIMEOUT[0]
    key = (tuple(sorted(h.get_id() for h in hyps)), goal.get_id(), tuple(sorted(x.get_id() for x in extra)))
    got = RESULTS.get(key)
    if got is not None and (got[0] != "unknown" or got[1] >= timeout and (quick or not got[2])):
        return got[0]
    t0 = time.time()
    CUTOFF[0] = False
    fs = closure(hyps + [ng] + list(extra))
    cutoff = CUTOFF[0]
    asserts = hyps + list(extra) + fs + lit_axioms() + [ng]
    alike = (renamed(asserts), quick) if (quick or timeout <= 1500) and len(fs) < 60 else None
    if alike is not None and FAILED.get(alike, 0) >= timeout:
        return "unknown"
    quant = any(hasquant(x) for x in asserts)
    r = z3.unknown
    modes = ("ematch",) if quant and quick else ("ematch", "mbqi") if quant else ("qf",)
    # the solver is as lucky as its seed: the time of a long try is divided between three of them
    slices = ((1, timeout),) if quick or timeout < 4000 else ((1, timeout // 4), (7, timeout // 4), (3, timeout // 2))
    for mode, seed, limit in [(m, sd, t) for m in modes for sd, t in slices]:
        s = z3.Solver()
        s.set("timeout", limit)
        s.set("random_seed", seed)
        if mode == "ematch":
            s.set("smt.mbqi", False)
            s.set("smt.auto_config", False)
        for h in asserts:
            s.add(h)
        r = s.check()
        if r == z3.unsat or (r == z3.sat and mode != "ematch"):
            break
        r = z3.unknown
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    if SLOW and time.time() - t0 > SLOW:
        print("SLOW %.1f %s timeout %s quick %s facts %d:" % (time.time() - t0, r, timeout, quick, len(fs)), " ".join(str(goal).split())[:300])
    res = "proved" if r == z3.unsat else "sat" if r == z3.sat and not cutoff else "unknown"
    if alike is not None and r == z3.unknown:
        FAILED[alike] = timeout
    RESULTS[key] = (res, timeout, quick)
    KEEP.append((hyps, goal, extra))
    return res


_hq = {}


def hasquant(t):
    i = t.get_id()
    if i in _hq:
        return _hq[i][0]
    r = False
    stack, seen = [t], set()
    while stack and not r:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
        stack.extend(x.children())
    _hq[i] = (r, t)
    return r


def feasible(hyps, timeout=400):
    return check(hyps, z3.BoolVal(False), timeout, quick=True) != "proved"


# ---------------------------------------------------------------- sums: normal form and congruence
def linear(t, c=1):
    """t as list of (coef term, atom) addends; atoms are SUM/FOLD apps or arbitrary terms"""
    from fractions import Fraction
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        out = []
        for x in t.children():
            out += linear(x, c)
        return out
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = t.children()
        out = linear(ch[0], c)
        for x in ch[1:]:
            out += [(-a if not isz(a) else -a, b) for a, b in linear(x, c)]
        return out
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return [(-a, b) for a, b in linear(t.arg(0), c)]
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return [(a, z3.ToReal(b) if z3.is_int(b) else b) for a, b in linear(t.arg(0), c)]
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        ch, todo = [], [t]
        while todo:
            x = todo.pop()
            if z3.is_app_of(x, z3.Z3_OP_MUL):
                todo += reversed(x.children())
            else:
                ch.append(x)
        sums = [x for x in ch if is_sum(x)]
        if len(sums) == 1:
            rest = [x for x in ch if not x.eq(sums[0])]
            if len(rest) == len(ch) - 1:
                co = rest[0]
                for x in rest[1:]:
                    co = co * x
                return [(c * co if isz(c) or c != 1 else co, sums[0])]
        adds = [x for x in ch if z3.is_app_of(x, z3.Z3_OP_ADD) and contains_sum(x)]
        if len(adds) == 1:
            rest = [x for x in ch if not x.eq(adds[0])]
            if len(rest) == len(ch) - 1:
                out = []
                for y in adds[0].children():
                    p = y
                    for x in rest:
                        p = x * p
                    out += linear(p, c)
                return out
        return [(c, t)]
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        if contains_sum(t.arg(0)):
            inv = 1 / toreal(t.arg(1))
            return [(a * inv if isz(a) else (inv if a == 1 else z3.RealVal(a) * inv), b) for a, b in linear(t.arg(0), c)]
        return [(c, t)]
    return [(c, t)]


def is_sum(t):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        t = t.arg(0)
    return z3.is_app(t) and t.decl().name() in DEFS and DEFS[t.decl().name()].kind == "SUM"


def contains_sum(t):
    a, _ = apps([t])
    return any(DEFS[x.decl().name()].kind == "SUM" for x in a)


def sum_body(t, k):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return z3.ToReal(sum_body(t.arg(0), k))
    d = DEFS[t.decl().name()]
    return z3.substitute(inst(d, t, d.body), (d.k, k))


SLOW = float(os.environ.get("PV_SLOW", "0"))
DEBUG_EQ = bool(os.environ.get("PV_EQ"))


def sum_n(t):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        t = t.arg(0)
    return t.arg(0)


def prove_eq(hyps, a, b, depth=0, timeout=None):
    """a == b with sums combined: sum_i c_i*SUM_i = 0 if the combined body is 0 everywhere"""
    a, b = znum(a), znum(b)
    if z3.is_int(a) != z3.is_int(b):
        a, b = toreal(a), toreal(b)
    if a.eq(b):
        return "proved"
    hyps = [zbool(h) for h in hyps if h is not True]
    goal = a == b
    if not (contains_sum(a) or contains_sum(b)):
        if apps([goal])[0]:
            few = [h for h in hyps if not apps([h])[0]]
            if len(few) < len(hyps) and check(few, goal, 2500, extra=fold_lemmas(few, [goal], depth)) == "proved":
                return "proved"
        r = check(hyps, goal, timeout, extra=fold_lemmas(hyps, [goal], depth))
        if r == "unknown" and depth < 8:
            # conditions with existence symbols that are the same
            cs = [c for c in ite_conds([a, b]) if any(DEFS[x.decl().name()].kind == "EX" for x in apps([c])[0])]
            for i in range(len(cs)):
                for j in range(i):
                    if prove_iff(hyps, cs[i], cs[j], 0, 2500) == "proved":
                        a2, b2 = (z3.simplify(z3.substitute(t, (cs[i], cs[j]))) for t in (a, b))
                        return prove_eq(hyps, a2, b2, depth + 1, timeout)
        if DEBUG_EQ and r != "proved":
            print("EQ leaf", r, depth, goal, "\n   pc", hyps)
        return r
    # if-then-else at the top over sums: split
    for t, o in ((a, b), (b, a)):
        c = find_ite(t)
        if c is not None and depth < 12:
            rs = []
            for lit_, pick in ((c, 1), (z3.Not(c), 2)):
                if not feasible(hyps + [lit_]):
                    continue
                rs.append(prove_eq(hyps + [lit_], cut(a, c, pick == 1), cut(b, c, pick == 1), depth + 1, timeout))
            return worst(rs)
    parts = linear(z3.simplify(a, som=False)) + [(-x if not isz(x) else -x, y) for x, y in linear(z3.simplify(b, som=False))]
    sums = [(c, s) for c, s in parts if is_sum(s)]
    rest = [(c, s) for c, s in parts if not is_sum(s)]
    groups = []
    for c, s in sums:
        for g in groups:
            if sum_n(g[0][1]).eq(sum_n(s)) or check(hyps, sum_n(g[0][1]) == sum_n(s), 2000) == "proved":
                g.append((c, s))
                break
        else:
            groups.append([(c, s)])
    ok = True
    for g in groups:
        k = kvar(g[0][1].decl().name(), hyps + [goal])
        n = sum_n(g[0][1])
        tot = None
        for c, s in g:
            x = toreal(sum_body(s, k))
            if isz(c):
                x = toreal(c) * x
            elif c != 1:
                x = z3.RealVal(c) * x
            tot = x if tot is None else tot + x
        r = prove_eq(hyps + [0 <= k, k < n], tot, z3.RealVal(0), depth + 1, timeout if len(g) > 1 else 800) if depth < 6 else "unknown"
        if r != "proved":
            ok = False
    if ok:
        tot = z3.RealVal(0)
        for c, s in rest:
            x = toreal(s)
            tot = tot + (toreal(c) * x if isz(c) else (x if c == 1 else z3.RealVal(c) * x))
        return prove_eq(hyps, tot, z3.RealVal(0), depth + 1, timeout) if (depth < 6 and contains_sum(tot)) else \
            check(hyps, tot == 0, timeout, extra=fold_lemmas(hyps, [tot == 0], depth))
    if DEBUG_EQ:
        print("EQ open", depth, goal, "\n  rest", rest, "\n  groups", [(len(g), [s for _, s in g]) for g in groups])
    r = "unknown" if timeout == 800 else check(hyps, goal, timeout, extra=lemmas(hyps, [goal], depth, False))
    if r != "proved" and timeout != 800:
        r = check(hyps, goal, timeout, extra=lemmas(hyps, [goal], depth))
    return "unknown" if r == "sat" else r


def ite_conds(ts):
    out, seen, stack = {}, set(), list(ts)
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            out[x.arg(0).get_id()] = x.arg(0)
            stack += [x.arg(1), x.arg(2)]
            continue
        stack.extend(x.children())
    return list(out.values())


def worst(rs):
    if all(r == "proved" for r in rs):
        return "proved"
    return "sat" if "sat" in rs and "unknown" not in rs else "unknown"


def find_ite(t):
    """condition of an if-then-else that contains a sum (in either branch), outermost first"""
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().name() in DEFS:
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE) and (contains_sum(x.arg(1)) or contains_sum(x.arg(2))):
            return x.arg(0)
        if z3.is_app(x):
            stack.extend(x.children())
    return None


def cut(t, c, val):
    return z3.simplify(z3.substitute(t, (c, z3.BoolVal(val))))


def fold_lemmas(hyps, goals, depth=0):
    """congruence of folds: same count, equal starts, equal steps"""
    if depth > 4:
        return []
    a, _ = apps([zbool(h) for h in hyps] + goals)
    fo = [x for x in a if DEFS[x.decl().name()].kind == "FOLD" and not hasvar(x)]
    out = []
    for i in range(len(fo)):
        for j in range(i):
            x, y = fo[j], fo[i]
            dx, dy = DEFS[x.decl().name()], DEFS[y.decl().name()]
            if x.eq(y) or len(dx.cs) != len(dy.cs) or x.sort() != y.sort():
                continue
            m = len(dx.cs)
            import itertools
            for perm in itertools.permutations(range(m)):
                if perm[dx.j] != dy.j or any(dx.cs[q].sort() != dy.cs[perm[q]].sort() for q in range(m)):
                    continue
                eqs = [x.arg(0) == y.arg(0)] + [x.arg(1 + q) == y.arg(1 + perm[q]) for q in range(m)]
                if check(hyps, z3.And(*eqs), 2000) != "proved":
                    continue
                k = scoped("k", z3.IntSort())
                cs = [scoped("c", c.sort()) for c in dx.cs]
                good = True
                for q in range(m):
                    sx = z3.substitute(inst(dx, x, dx.steps[q]), (dx.k, k), *zip(dx.cs, cs))
                    sy = z3.substitute(inst(dy, y, dy.steps[perm[q]]), (dy.k, k),
                                       *[(dy.cs[perm[z]], cs[z]) for z in range(m)])
                    h = hyps + [0 <= k, k < x.arg(0)]
                    r = prove_eq(h, sx, sy, depth + 1) if z3.is_arith(sx) else \
                        check(h, sx == sy, None, extra=fold_lemmas(h, [sx == sy], depth + 1))
                    if r != "proved":
                        good = False
                        break
                if good:
                    out.append(x == y)
                    break
    return out


def kvar(name, hyps):
    """an index variable for bodies of this sum, the same one every time so that answers are remembered"""
    used = {}
    for h in hyps:
        zvars(h, used)
    i = 0
    while "k!%s.%d" % (name, i) in used:
        i += 1
    return z3.Int("k!%s.%d" % (name, i))


def lemmas(hyps, goals, depth=0, nonneg=True):
    """pairwise congruence of sums, sums equal but for one place, non-negativity of sums with non-negative bodies, folds"""
    if depth > 4:
        return []
    a, _ = apps([zbool(h) for h in hyps] + goals)
    su = [x for x in a if DEFS[x.decl().name()].kind == "SUM" and not hasvar(x)]
    out = fold_lemmas(hyps, goals, depth)
    for i in range(len(su)):
        k = kvar(su[i].decl().name(), hyps + su)
        if nonneg:
            b = sum_body(su[i], k)
            if check(hyps + [0 <= k, k < sum_n(su[i])], b >= 0, 1500, extra=lemmas(hyps, [b >= 0], depth + 1)) == "proved":
                out.append(su[i] >= 0)
        for j in range(i):
            x, y = su[j], su[i]
            if x.eq(y) or x.sort() != y.sort():
                continue
            if not sum_n(x).eq(sum_n(y)) and check(hyps, sum_n(x) == sum_n(y), 1000) != "proved":
                continue
            if prove_eq(hyps + [0 <= k, k < sum_n(x)], sum_body(x, k), sum_body(y, k), depth + 1, 2500) == "proved":
                out.append(x == y)
                continue
            # equal but for one place
            js = {}
            for z in a:
                if DEFS[z.decl().name()].kind == "EX" and not hasvar(z) and \
                        (z.arg(0).eq(sum_n(x)) or check(hyps, z.arg(0) == sum_n(x), 500, quick=True) == "proved") and \
                        check(hyps, DEFS[z.decl().name()].fe(*z.children()), 800, quick=True) == "proved":
                    w = DEFS[z.decl().name()].fi(*z.children())
                    js[w.get_id()] = w
            for w in list(js.values())[:3]:
                h = hyps + [0 <= k, k < sum_n(x), k != w]
                if prove_eq(h, sum_body(x, k), sum_body(y, k), depth + 1, 2500) == "proved":
                    fx, fy = sum_body(x, w), sum_body(y, w)
                    out.append(z3.Implies(z3.And(0 <= w, w < sum_n(x)), x - y == fx - fy))
                    if depth < 3:
                        out += lemmas(hyps + [0 <= w, w < sum_n(x)], [fx == fy], depth + 1, nonneg)
                    break
    return out


def is_ex(t):
    return z3.is_app(t) and z3.is_bool(t) and t.decl().name() in DEFS and t.decl().name().endswith("?")


def ex_congruent(hyps, a, b, depth, timeout):
    da, db = DEFS[a.decl().name()], DEFS[b.decl().name()]
    if not a.arg(0).eq(b.arg(0)) and check(hyps, a.arg(0) == b.arg(0), 1500) != "proved":
        return "unknown"
    k = scoped("k", z3.IntSort())
    x = z3.substitute(inst(da, a, da.g), (da.k, k))
    y = z3.substitute(inst(db, b, db.g), (db.k, k))
    return prove_iff(hyps + [0 <= k, k < a.arg(0)], zbool(x), zbool(y), depth + 1, timeout)


def prove_iff(hyps, a, b, depth=0, timeout=None):
    """equivalence of two conditions; existence symbols over the same range are compared body by body"""
    if a.eq(b):
        return "proved"
    hyps = [zbool(h) for h in hyps if h is not True]
    goal = a == b
    nested = lambda t: any(DEFS[x.decl().name()].kind == "EX" for x in apps([t])[0])  # noqa: E731
    deep = depth < 8 and nested(a) and nested(b)
    if deep and is_ex(a) and is_ex(b):
        r = ex_congruent(hyps, a, b, depth, timeout)
        if r == "proved":
            return r
    if deep:
        few = [h for h in hyps if not apps([h])[0]]
        if len(few) < len(hyps) and check(few, goal, 1500) == "proved":
            return "proved"
    r = check(hyps, goal, 1500 if deep else timeout)
    if r != "unknown" or not deep:
        return r
    if not (is_ex(a) and is_ex(b)) and any(z3.is_and(t) or z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bool(t) for t in (a, b)):
        # parts without existence symbols as case conditions, the rest compared under them
        pa, pb = conjuncts(a), conjuncts(b)
        ca, cb = [x for x in pa if not nested(x)], [x for x in pb if not nested(x)]
        na, nb = [x for x in pa if nested(x)], [x for x in pb if nested(x)]
        if (ca or cb) and na and nb:
            conds = z3.And(*ca) if ca else z3.BoolVal(True)
            cond2 = z3.And(*cb) if cb else z3.BoolVal(True)
            if check(hyps, conds == cond2, 2000) == "proved":
                x, y = z3.And(*na) if len(na) > 1 else na[0], z3.And(*nb) if len(nb) > 1 else nb[0]
                if prove_iff(hyps + ca + cb, x, y, depth + 1, timeout) == "proved":
                    return "proved"
    return check(hyps, goal, timeout)


def conjuncts(t):
    if z3.is_and(t):
        return [y for x in t.children() for y in conjuncts(x)]
    if z3.is_bool(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_false(t.arg(2)):
        return conjuncts(t.arg(0)) + conjuncts(t.arg(1))
    if z3.is_bool(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_false(t.arg(1)):
        return conjuncts(z3.Not(t.arg(0))) + conjuncts(t.arg(2))
    return [t]


def prove(hyps, goal, timeout=None, depth=0):
    """general goal"""
    if goal is True:
        return "proved"
    goal = zbool(goal)
    hyps = [zbool(h) for h in hyps if h is not True]
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved"
    if z3.is_not(g) and is_ex(g.arg(0)) and depth < 6:
        # for all elements: one arbitrary element
        x = g.arg(0)
        d = DEFS[x.decl().name()]
        q = fresh("q", z3.IntSort())
        b = z3.simplify(z3.Not(z3.substitute(inst(d, x, d.g), (d.k, q))))
        r = prove(hyps + [q >= 0, q < x.arg(0)], b, timeout, depth + 1)
        if r == "proved" or r == "sat":
            return r
    if z3.is_bool(g) and z3.is_app_of(g, z3.Z3_OP_ITE) and depth < 6:
        c, x, y = g.children()
        return worst([prove(hyps + [c], x, timeout, depth + 1), prove(hyps + [z3.Not(c)], y, timeout, depth + 1)])
    if z3.is_and(g) and depth < 6:
        rs = [prove(hyps, x, timeout, depth + 1) for x in g.children()]
        return worst(rs)
    a, _ = apps([goal] + hyps)
    kinds = {DEFS[x.decl().name()].kind for x in a}
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        return prove_eq(hyps, goal.arg(0), goal.arg(1), 0, timeout)
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)) and not kinds & {"SUM", "FOLD"}:
        return prove_iff(hyps, goal.arg(0), goal.arg(1), 0, timeout)
    ex = lemmas(hyps, [goal]) if "SUM" in kinds else fold_lemmas(hyps, [goal]) if "FOLD" in kinds else []
    r = check(hyps, goal, timeout, extra=ex)
    if r == "sat" and kinds & {"SUM", "FOLD"}:
        return "unknown"
    return r
