"""Builtin functions and methods of the subset."""
import ast
import z3
from fractions import Fraction
from values import *
import prove as P
from prove import SUM, EXIDX, FOLD, scoped, znat


def call(e, fn, args, kw, st):
    n = fn.name
    if fn.bound is not None:
        return method(e, n, fn.bound, args, kw, st)
    if n.startswith("getter:"):
        return e.getattr(args[0], n[7:], st)
    f = globals().get("b_" + n.replace(".", "_"))
    if f is None:
        raise OutOfReach("builtin %s" % n)
    return f(e, args, kw, st)


# ------------------------------------------------------------------ functions
def b_len(e, a, kw, st):
    v = a[0]
    if isinstance(v, Un):
        return e.foralts(v, st, lambda x, s: b_len(e, [x], kw, s))
    if isinstance(v, str):
        return len(v)
    if isinstance(v, StrV):
        raise OutOfReach("length of a string")
    return e.seqlen(e.seq(v, st))


def b_range(e, a, kw, st):
    for i, x in enumerate(a):
        if isinstance(x, Un):
            return e.foralts(x, st, lambda y, s: b_range(e, a[:i] + [y] + a[i + 1:], kw, s))
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if any(isz(x) and z3.is_real(x) or isinstance(x, Fraction) for x in (lo, hi, step)):
        e.side(st, True, "TypeError")
        return Seq()
    if not isz(lo) and not isz(hi) and not isz(step):
        if len(range(lo, hi, step)) <= 64:
            return Seq([One(i) for i in range(lo, hi, step)])
        n = len(range(lo, hi, step))
        k = scoped("k", z3.IntSort())
        return Seq([Comp(k, n, True, [One(lo + step * k)])])
    if isz(step):
        raise OutOfReach("symbolic range step")
    d = z3.simplify(znum(hi) - znum(lo))
    k = scoped("k", z3.IntSort())
    if z3.is_int_value(d) and abs(d.as_long()) <= 64:
        return Seq([One(z3.simplify(znum(lo) + i)) for i in range(0, d.as_long(), step)])
    if step == 1:
        n = d
    elif step > 1:
        n = (d + (step - 1)) / step
    elif step == -1:
        n = z3.simplify(-d)
    else:
        raise OutOfReach("range step")
    if e.decide(st, n >= 0, deep=True) is not True:
        n = z3.If(n > 0, n, 0)
    x = k if (not isz(lo) and lo == 0 and step == 1) else znum(lo) + step * k
    return Seq([Comp(k, n, True, [One(x)])])


def b_str(e, a, kw, st):
    if isinstance(a[0], Un):
        return e.foralts(a[0], st, lambda x, s: b_str(e, [x], kw, s))
    return e.tostr(a[0], st)


def isint_str(t):
    return z3.Function("isintstr", U, z3.BoolSort())(t)


def floor(v):
    """the floor of a real term; of n / c for an integer n and a constant c > 0 as integer division"""
    s = z3.simplify(v)
    if z3.is_app_of(s, z3.Z3_OP_MUL) and s.num_args() == 2 and z3.is_rational_value(s.arg(0)) and z3.is_app_of(s.arg(1), z3.Z3_OP_TO_REAL) \
            and s.arg(0).numerator_as_long() == 1:
        return s.arg(1).arg(0) / s.arg(0).denominator_as_long()
    return z3.ToInt(v)


def b_int(e, a, kw, st):
    v = a[0]
    if isinstance(v, Un):
        return e.foralts(v, st, lambda x, s: b_int(e, [x], kw, s))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return int(v)
    if isz(v) and z3.is_bool(v):
        return znum(v)
    if isz(v) and z3.is_int(v):
        return v
    if isz(v) and z3.is_real(v):
        s = z3.simplify(v)
        if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
            return s.arg(0)
        up, down = floor(v), -floor(-v)
        c = e.decide(st, v >= 0, deep=True)
        return z3.If(c, up, down) if isz(c) else up if c else down
    if v is None:
        e.side(st, True, "TypeError")
        return None
    if isz(v) and v.sort() == U:
        e.side(st, NOT(isint_str(v)), "ValueError")
        return z3.Function("intval", U, z3.IntSort())(v)
    if isinstance(v, StrV) and len(v.segs) == 1 and isinstance(v.segs[0], StrOf) and isnum(v.segs[0].v) and \
            (not isz(v.segs[0].v) or z3.is_int(v.segs[0].v)) and not v.segs[0].spec:
        return v.segs[0].v
    raise OutOfReach("int(%r)" % (v,))


def b_float(e, a, kw, st):
    v = a[0]
    if isinstance(v, Un):
        return e.foralts(v, st, lambda x, s: b_float(e, [x], kw, s))
    if isinstance(v, str):
        if v in ("inf", "Inf", "infinity"):
            return INF
        raise OutOfReach("float of text")
    if isnum(v):
        return toreal(znum(v)) if isz(v) else Fraction(v)
    if isinstance(v, bool):
        return Fraction(int(v))
    if v is None:
        e.side(st, True, "TypeError")
        return None
    if isz(v) and v.sort() == U:
        e.side(st, NOT(z3.Function("isfloatstr", U, z3.BoolSort())(v)), "ValueError")
        return z3.Function("floatval", U, z3.RealSort())(v)
    raise OutOfReach("float(%r)" % (v,))


def ext_segs(e, segs, st):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(P.XLeaf(s.g, num_of(e, s.v, st)))
        elif isinstance(s, Base):
            k = scoped("k", z3.IntSort())
            s2 = st.copy()
            s2.pc += [k >= 0, k < base_len_(s)]
            out.append(P.XComp(k, base_len_(s), True, [P.XLeaf(True, num_of(e, base_at_(s, k), s2))]))
        elif isinstance(s, Comp):
            s2 = st.copy()
            s2.pc += [s.k >= 0, s.k < znat(s.n)] + ([s.g] if s.g is not True else [])
            out.append(P.XComp(s.k, s.n, s.g, ext_segs(e, s.segs, s2)))
        else:
            from engine import NeedLoc
            raise NeedLoc(s.loc)
    return out


def num_of(e, v, st):
    if isinstance(v, Un):
        v = e.foralts(v, st, lambda x, s: x)
    return znum(v)


def xreal(items):
    return any(z3.is_real(x.v) if isinstance(x, P.XLeaf) else xreal(x.items) for x in items)


def xtoreal(items):
    return [P.XLeaf(x.g, toreal(x.v)) if isinstance(x, P.XLeaf) else P.XComp(x.k, x.n, x.g, xtoreal(x.items)) for x in items]


def minmax(e, a, kw, st, less):
    if len(a) == 1:
        q = e.seq(a[0], st)
        if set(kw) - {"default"}:
            raise OutOfReach("max/min with a key")
        some = e.nonempty(q)
        if "default" not in kw:
            e.side(st, NOT(some), "ValueError")
            if e.dead(st):
                return None
        elif e.decide(st, some) is not True:
            d = kw["default"]
            s2 = st.copy()
            s2.pc.append(some)
            from engine import vmerge
            if e.decide(st, some) is False:
                return d
            return vmerge(some, minmax(e, a, {}, s2, less), d)
        if all(isinstance(s, One) and s.g is True for s in q.segs):
            return minmax(e, [s.v for s in q.segs], {}, st, less) if len(q.segs) > 1 else q.segs[0].v
        segs = list(q.segs)
        if isinstance(segs[0], One) and segs[0].g is True:
            first = num_of(e, segs[0].v, st)
            segs = segs[1:]
        else:
            first = None
        items = ext_segs(e, segs, st)
        if first is None:
            # any element will do as the start: take the one of the first non-empty position
            first = znum(e.at_raw(q, 0, st))
        if z3.is_real(first) or xreal(items):
            first, items = toreal(first), xtoreal(items)
        return P.EXTREMUM(first, items, less)
    for i, x in enumerate(a):
        if isinstance(x, Un):
            return e.foralts(x, st, lambda y, s: minmax(e, a[:i] + [y] + a[i + 1:], kw, s, less))
    r = a[0]
    for x in a[1:]:
        c = e.compare(ast.Lt(), x, r, st) if less else e.compare(ast.Lt(), r, x, st)
        if e.dead(st):
            return None
        if not isz(c):
            r = x if c else r
        else:
            p, q = (znum(x), znum(r))
            if z3.is_int(p) != z3.is_int(q):
                p, q = toreal(p), toreal(q)
            r = z3.If(c, p, q)
    return r


def b_max(e, a, kw, st):
    return minmax(e, a, kw, st, False)


def b_min(e, a, kw, st):
    return minmax(e, a, kw, st, True)


def segsum(e, s, st):
    if isinstance(s, One):
        v = znum(s.v)
        return v if s.g is True else z3.If(zbool(s.g), v, z3.IntVal(0) if z3.is_int(v) else z3.RealVal(0))
    if isinstance(s, Base):
        k = scoped("k", z3.IntSort())
        return SUM(k, base_len_(s), znum(base_at_(s, k)))
    if isinstance(s, Comp):
        tot = None
        for x in s.segs:
            t = segsum(e, x, st)
            if tot is None:
                tot = t
            else:
                if z3.is_int(tot) != z3.is_int(t):
                    tot, t = toreal(tot), toreal(t)
                tot = tot + t
        if s.g is not True:
            tot = z3.If(zbool(s.g), tot, z3.IntVal(0) if z3.is_int(tot) else z3.RealVal(0))
        return SUM(s.k, s.n, tot)
    from engine import NeedLoc
    if isinstance(s, HoleSeg):
        raise NeedLoc(s.loc)
    raise OutOfReach("sum of %r" % (s,))


def base_len_(s):
    from engine import base_len
    return base_len(s)


def base_at_(s, k):
    from engine import base_at
    return base_at(s, k)


def b_sum(e, a, kw, st):
    q = e.seq(a[0], st)
    tot = a[1] if len(a) > 1 else 0
    for s in q.segs:
        t = segsum(e, s, st)
        tot = t if not isz(tot) and tot == 0 else e.arith(ast.Add(), tot, t, st)
    return tot


def b_abs(e, a, kw, st):
    v = a[0]
    if isinstance(v, Un):
        return e.foralts(v, st, lambda x, s: b_abs(e, [x], kw, s))
    if v is None:
        e.side(st, True, "TypeError")
        return 0
    if not isz(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


def b_list(e, a, kw, st):
    r = Ref("list")
    st.heap[r.id] = e.seq(a[0], st) if a else Seq()
    return r


def b_tuple(e, a, kw, st):
    q = e.seq(a[0], st)
    if all(isinstance(s, One) and s.g is True for s in q.segs):
        return Tup([s.v for s in q.segs])
    raise OutOfReach("tuple()")


def b_dict(e, a, kw, st):
    if a or kw:
        raise OutOfReach("dict(...)")
    r = Ref("dict")
    st.heap[r.id] = MapV(1, NODEF)
    return r


def b_bool(e, a, kw, st):
    return e.truth(a[0], st)


def b_reversed(e, a, kw, st):
    q = e.seq(a[0], st)
    if all(isinstance(s, One) for s in q.segs):
        return Seq(list(reversed(q.segs)))
    n = znum(e.seqlen(q))
    k = scoped("k", z3.IntSort())
    s2 = st.copy()
    s2.pc += [k >= 0, k < n]
    return Seq([Comp(k, n, True, [One(e.at_raw(q, n - 1 - k, s2))])])


def b_enumerate(e, a, kw, st):
    q = e.seq(a[0], st)
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if all(isinstance(s, One) and s.g is True for s in q.segs):
        return Seq([One(Tup([e.arith(ast.Add(), start, i, st), s.v])) for i, s in enumerate(q.segs)])
    n = e.seqlen(q)
    k = scoped("k", z3.IntSort())
    s2 = st.copy()
    s2.pc += [k >= 0, k < znat(n)]
    return Seq([Comp(k, n, True, [One(Tup([e.arith(ast.Add(), start, k, st), e.at_raw(q, k, s2)]))])])


def b_zip(e, a, kw, st):
    qs = [e.seq(x, st) for x in a]
    if all(isinstance(s, One) and s.g is True for q in qs for s in q.segs):
        return Seq([One(Tup([s.v for s in r])) for r in zip(*[q.segs for q in qs])])
    ns = [znum(e.seqlen(q)) for q in qs]
    n = ns[0]
    for m in ns[1:]:
        if not m.eq(n) and e.decide(st, m == n) is not True:
            n = z3.If(n < m, n, m)
    k = scoped("k", z3.IntSort())
    s2 = st.copy()
    s2.pc += [k >= 0, k < n]
    return Seq([Comp(k, n, True, [One(Tup([e.at_raw(q, k, s2) for q in qs]))])])


def b_isinstance(e, a, kw, st):
    raise OutOfReach("isinstance")


def b_property(e, a, kw, st):
    return Prop(a[0] if a else kw.get("fget"), (a[1] if len(a) > 1 else kw.get("fset")))


def b_operator_attrgetter(e, a, kw, st):
    return Builtin("getter:" + a[0])


def b_operator_lt(e, a, kw, st):
    return e.compare(ast.Lt(), a[0], a[1], st)


def b_operator_le(e, a, kw, st):
    return e.compare(ast.LtE(), a[0], a[1], st)


def b_operator_gt(e, a, kw, st):
    return e.compare(ast.Gt(), a[0], a[1], st)


def b_operator_ge(e, a, kw, st):
    return e.compare(ast.GtE(), a[0], a[1], st)


def b_math_floor(e, a, kw, st):
    v = a[0]
    if isinstance(v, (int, Fraction)):
        return v.__floor__()
    if z3.is_int(v):
        return v
    # floor(x / c) for integer x and positive integer c is integer division
    if z3.is_app_of(v, z3.Z3_OP_DIV) and z3.is_app_of(v.arg(0), z3.Z3_OP_TO_REAL) and z3.is_rational_value(v.arg(1)) and \
            v.arg(1).denominator_as_long() == 1 and v.arg(1).numerator_as_long() > 0:
        return v.arg(0).arg(0) / z3.IntVal(v.arg(1).numerator_as_long())
    return z3.ToInt(v)


def b_math_sqrt(e, a, kw, st):
    v = a[0]
    return e.sqrt(znum(v), st)


def trig(name):
    def f(e, a, kw, st):
        v = toreal(znum(a[0]))
        fn = z3.Function(name, z3.RealSort(), z3.RealSort())
        if name in ("sin", "cos"):
            s, c = (z3.Function(x, z3.RealSort(), z3.RealSort()) for x in ("sin", "cos"))
            x = z3.Real("x")
            P.AXIOMS.setdefault(name, [z3.ForAll([x], s(x) * s(x) + c(x) * c(x) == 1, patterns=[fn(x)])])
        if name == "acos":
            e.side(st, z3.Or(v < -1, v > 1), "ValueError")
        return fn(v)
    return f


b_math_sin, b_math_cos, b_math_acos = trig("sin"), trig("cos"), trig("acos")
b_math_radians, b_math_degrees = trig("radians"), trig("degrees")


def b_np_array(e, a, kw, st):
    return a[0]


def b_round(e, a, kw, st):
    raise OutOfReach("round")


def b_print(e, a, kw, st):
    return None


def b_implies(e, a, kw, st):
    return OR(NOT(e.truth(a[0], st)), e.truth(a[1], st))


def b_iff(e, a, kw, st):
    x, y = zbool(e.truth(a[0], st)), zbool(e.truth(a[1], st))
    return x == y


def b_uf(e, a, kw, st):
    """uninterpreted real function of its arguments, for specifications: uf('name', x, ...)"""
    from engine import keyterm
    ts = [keyterm(x) for x in a[1:]]
    return z3.Function(a[0], *[t.sort() for t in ts], z3.RealSort())(*ts)


def b_opaque(e, a, kw, st):
    """an arbitrary value of a type that depends on the arguments only: opaque('Real', 'name', x, ...)"""
    from engine import keyterm, mkval

    def ty(t):
        if isinstance(t, Tup):
            return tuple([t.items[0]] + [[ty(y) for y in x.items] if isinstance(x, Tup) and t.items[0] == "map" and i == 0 else ty(x)
                                         for i, x in enumerate(t.items[1:])])
        return t
    t = ty(a[0])
    v = mkval(a[1], [keyterm(x) for x in a[2:]], t)
    if isinstance(t, tuple) and t[0] in ("list", "map"):
        r = Ref(a[1])
        st.heap[r.id] = v
        return r
    return v


def b_frozen(e, a, kw, st):
    """the same map, read only: reading a missing key leaves no entry behind (an abstraction; specifications only)"""
    return e.frozen(st.heap[a[0].id], a[0].id, st)


def b_made(e, a, kw, st):
    """a new object of a class with these fields (specifications only)"""
    from engine import Inst
    r = Ref(a[0])
    st.heap[r.id] = Inst(a[0], dict(kw))
    return r


def b_peek(e, a, kw, st):
    """map value at the keys, without the entry that reading a defaultdict creates (specifications only)"""
    from engine import keyterm
    o, ks = a[0], tuple(keyterm(x) for x in a[1:])
    if isinstance(o, MapView):
        o, ks = o.ref, tuple(o.keys) + ks
    m = st.heap[o.id] if isinstance(o, Ref) else o
    if len(ks) != m.depth:
        raise OutOfReach("peek needs all the keys")
    return e.lookup(m, ks, st)


# ------------------------------------------------------------------ methods
def method(e, n, o, a, kw, st):
    if isinstance(o, Un):
        return e.foralts(o, st, lambda x, s: call(e, Builtin(n, x), a, kw, s))
    if n == "__getattribute__":
        return e.getattr(o, a[0], st)
    if n == "__setattr__":
        if isinstance(o, SObj):
            return e.setattr(o, a[0], a[1], st)
        inst = st.heap[o.id]
        p = e.classattr(inst.cls, a[0])
        if isinstance(p, Prop):
            return e.setattr(o, a[0], a[1], st)
        st.heap[o.id] = inst.set(a[0], a[1])
        return None
    if n.startswith("prop."):
        if n == "prop.setter":
            return Prop(o.fget, a[0])
        raise OutOfReach(n)
    if isinstance(o, (str, StrV)) or (isz(o) and o.sort() == U):
        return strmethod(e, n, o, a, kw, st)
    cont = st.heap.get(o.id) if isinstance(o, Ref) else None
    if isinstance(o, Seq):
        cont = o
    if isinstance(cont, Seq):
        return listmethod(e, n, o, cont, a, kw, st)
    if isinstance(o, MapView):
        m = st.heap[o.ref.id]
        if len(o.keys) == m.depth:
            return leafmethod(e, n, o, m, a, kw, st)
        return mapmethod(e, n, o.ref, m, o.keys, a, kw, st)
    if isinstance(cont, MapV):
        return mapmethod(e, n, o, cont, (), a, kw, st)
    raise OutOfReach("method %s of %r" % (n, o))


def listmethod(e, n, o, q, a, kw, st):
    def put(segs):
        if not isinstance(o, Ref):
            raise OutOfReach("mutation of a list without a location")
        st.heap[o.id] = Seq(segs)
    if n == "append":
        put(list(q.segs) + [One(a[0])])
        return None
    if n == "extend":
        put(list(q.segs) + list(e.seq(a[0], st).segs))
        return None
    if n == "insert":
        i = e.concrete(znum(a[0]), st)
        if i == 0:
            put([One(a[1])] + list(q.segs))
            return None
        raise OutOfReach("insert")
    if n == "copy":
        r = Ref("list")
        st.heap[r.id] = q
        return r
    if n == "index":
        ln = e.seqlen(q)
        if all(isinstance(s, One) and s.g is True for s in q.segs):
            r, some = None, False
            for i in reversed(range(len(q.segs))):
                c = e.equal(q.segs[i].v, a[0], st)
                some = OR(some, c)
                r = i if r is None else ITE(c, z3.IntVal(i), znum(r))
            e.side(st, NOT(some), "ValueError")
            return r
        k = scoped("k", z3.IntSort())
        s2 = st.copy()
        s2.pc += [k >= 0, k < znat(ln)]
        ex, i = EXIDX(k, ln, zbool(e.equal(e.at_raw(q, k, s2), a[0], s2)))
        e.side(st, NOT(ex), "ValueError")
        st.pc += [i >= 0, i < znat(ln)]
        return i
    if n in ("pop", "remove"):
        if n == "remove":
            i = listmethod(e, "index", o, q, a, kw, st)
        else:
            i = a[0] if a else -1
        if e.dead(st):
            return None
        v = e.at(q, i, st)
        if e.dead(st):
            return None
        put(removed(e, q, i, st).segs)
        return v if n == "pop" else None
    if n == "count":
        raise OutOfReach("count")
    raise OutOfReach("list.%s" % n)


def removed(e, q, i, st):
    """q without position i (in range)"""
    n = e.seqlen(q)
    if all(isinstance(s, One) and s.g is True for s in q.segs) and not isz(i):
        segs = list(q.segs)
        segs.pop(i)
        return Seq(segs)
    if not isz(i) and i < 0:
        i = z3.simplify(znum(n) + i)
    elif isz(i) and e.decide(st, i >= 0) is not True:
        raise OutOfReach("pop at a position of unknown sign")
    i = znum(i)
    if len(q.segs) == 1 and isinstance(q.segs[0], Base):
        b = q.segs[0]
        off = 0 if b.off is None else b.off
        if z3.is_int_value(i) and i.as_long() == 0:
            return Seq([Base(b.name, b.args, b.elem, z3.simplify(znum(off) + 1), z3.simplify(znum(n) - 1))])
        return Seq([Base(b.name, b.args, b.elem, b.off, i),
                    Base(b.name, b.args, b.elem, z3.simplify(znum(off) + i + 1), z3.simplify(znum(n) - i - 1))])
    k = scoped("k", z3.IntSort())
    s2 = st.copy()
    s2.pc += [k >= 0, k < znum(n) - 1]
    from engine import vmerge
    return Seq([Comp(k, z3.simplify(znum(n) - 1), True,
                     [One(vmerge(k < i, e.at_raw(q, k, s2), e.at_raw(q, k + 1, s2)))])])


def leafmethod(e, n, o, m, a, kw, st):
    """list stored in a map"""
    if n in ("append", "extend"):
        if m.default is NODEF:
            e.side(st, NOT(e.has(m, o.keys, st)), "KeyError")
            if e.dead(st):
                return None
            m = st.heap[o.ref.id]
        v = Seq([One(a[0])]) if n == "append" else e.seq(a[0], st)
        if n == "append" and isinstance(a[0], Ref) and isinstance(st.heap.get(a[0].id), Seq):
            v = Seq([One(st.heap[a[0].id])])
        e.writable(o.ref)
        st.heap[o.ref.id] = m.add(W("append", o.keys, v))
        return None
    q = e.seq(o, st)
    if n == "index":
        return listmethod(e, n, None, q, a, kw, st)
    raise OutOfReach("method %s of a stored list" % n)


def mapseq(e, q, f, st):
    """[f(x) for x in q]"""
    from engine import base_len, base_at
    out = []
    for s in q.segs:
        if isinstance(s, One):
            s2 = st.copy()
            if s.g is not True:
                s2.pc.append(s.g)
            out.append(One(f(s.v, s2), s.g))
        elif isinstance(s, Base):
            k = scoped("k", z3.IntSort())
            s2 = st.copy()
            s2.pc += [k >= 0, k < base_len(s)]
            out.append(Comp(k, base_len(s), True, [One(f(base_at(s, k), s2))]))
        elif isinstance(s, Comp):
            s2 = st.copy()
            s2.pc += [s.k >= 0, s.k < znat(s.n)] + ([s.g] if s.g is not True else [])
            out.append(Comp(s.k, s.n, s.g, mapseq(e, Seq(s.segs), f, s2).segs))
        else:
            from engine import NeedLoc
            raise NeedLoc(s.loc)
    return Seq(out)


def mapmethod(e, n, ref, m, prefix, a, kw, st):
    from engine import keyterm

    def val(key, s):
        ks = tuple(prefix) + (keyterm(key),)
        if len(ks) < m.depth or isinstance(m.default, ListDefault):
            return MapView(ref, ks)
        return e.lookup(m, ks, s)
    if n == "keys":
        return e.keyseq(m, prefix, st)
    if n == "items":
        return mapseq(e, e.keyseq(m, prefix, st), lambda x, s: Tup([x, val(x, s)]), st)
    if n == "values":
        return mapseq(e, e.keyseq(m, prefix, st), lambda x, s: val(x, s), st)
    if n == "get":
        k = keyterm(a[0])
        d = a[1] if len(a) > 1 else None
        h = e.has(m, tuple(prefix) + (k,), st)
        h = e.decide(st, h) if isz(h) else h
        if h is False:
            return d
        s = st.copy()
        if isz(h):
            s.pc.append(h)
        v = val(a[0], s)
        if h is True:
            return v
        from engine import vmerge
        return vmerge(h, v, d)
    raise OutOfReach("dict.%s" % n)


# ------------------------------------------------------------------ strings
def plainseg(x, sep):
    """text without the separator"""
    return sep not in x if isinstance(x, str) else isinstance(x, StrOf) and isnum(x.v) and not (
        isz(x.v) and not z3.is_int(x.v)) and not x.spec and sep not in "-0123456789"


def split(segs, sep):
    """the pieces of a built text; a repetition must repeat a separator and what follows it, or join"""
    out, cur = [], []

    def text(x):
        return x[0] if len(x) == 1 and isinstance(x[0], str) else StrV(x)

    def some(c):
        """Comp of at most one piece, guarded"""
        return isinstance(c, Comp) and z3.is_int_value(znat(c.n)) and znat(c.n).as_long() == 1
    segs = [x for x in segs if x != ""]
    i = 0
    while i < len(segs):
        x = segs[i]
        i += 1
        if isinstance(x, str) and sep in x:
            head, rest = x.split(sep, 1)
            out.append(One(text(cur + [head] if head else cur or [""])))
            cur = []
            segs[i:i] = [rest] if rest else []
        elif plainseg(x, sep):
            cur = cur + [x]
        elif isinstance(x, Comp) and x.g is True:
            b = [y for y in x.segs if y != ""]
            if b and isinstance(b[0], str) and b[0].startswith(sep) and all(plainseg(y, sep) for y in [b[0][1:]] + b[1:]):
                # (sep piece)*: the pieces are what stands before, and each repeated one
                if i < len(segs) and not (isinstance(segs[i], str) and segs[i].startswith(sep)) and not (
                        isinstance(segs[i], Comp) and segs[i].segs and isinstance(segs[i].segs[0], str) and segs[i].segs[0].startswith(sep)):
                    raise OutOfReach("split of a repetition followed by more text")
                out.append(One(text(cur or [""])))
                out.append(Comp(x.k, x.n, True, [One(text([y for y in [b[0][1:]] + b[1:] if y != ""] or [""]))]))
                cur = None
                if i < len(segs):
                    if isinstance(segs[i], str):
                        segs[i] = segs[i][1:]
                        cur = []
                        if not segs[i]:
                            i += 1
                    else:
                        # another repetition: it starts with its own separator
                        c = segs[i]
                        b2 = [y for y in c.segs if y != ""]
                        if not (c.g is True and all(plainseg(y, sep) for y in [b2[0][1:]] + b2[1:]) and i + 1 == len(segs)):
                            raise OutOfReach("split of a repetition followed by more text")
                        out.append(Comp(c.k, c.n, True, [One(text([y for y in [b2[0][1:]] + b2[1:] if y != ""] or [""]))]))
                        i += 1
            elif not out and not cur and len(b) > 1 and some(b[0]) and list(b[0].segs) == [sep] and isz(b[0].g) and \
                    P.check([x.k >= 0], subst(b[0].g, [(b[0].k, z3.IntVal(0))]) == (x.k > 0), 500) == "proved" and \
                    all(plainseg(y, sep) for y in b[1:]) and (i == len(segs) or isinstance(segs[i], str) and segs[i].startswith(sep)):
                # joined: never without a piece where it is not the empty text
                out.append(Comp(x.k, x.n, True, [One(text(b[1:]))]))
                out.append(Comp(scoped("k", z3.IntSort()), z3.IntVal(1), znat(x.n) <= 0, [One("")]))
                cur = None
                if i < len(segs):
                    cur = []
                    segs[i:i + 1] = [segs[i][1:]] if segs[i][1:] else []
            else:
                raise OutOfReach("split of a repetition: %r" % (segs,))
        else:
            raise OutOfReach("split of %r" % (x,))
    if cur is not None:
        out.append(One(text(cur or [""])))
    return Seq(out)


def strmethod(e, n, o, a, kw, st):
    if n == "format":
        import string
        if not isinstance(o, str):
            raise OutOfReach("format of a built string")
        segs, auto = [], 0
        for text, field, spec, conv in string.Formatter().parse(o):
            if text:
                segs.append(text)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise OutOfReach("format field %s" % field)
            if isinstance(v, Un):
                v = e.foralts(v, st, lambda x, s: e.tostr(x, s, spec or ""))
                if not isinstance(v, StrV):
                    segs.append(StrOf(v, spec or ""))
                    continue
                segs += list(v.segs)
            else:
                segs += list(e.tostr(v, st, spec or "").segs)
        return StrV(segs)
    if isinstance(o, str) and all(isinstance(x, str) for x in a):
        r = getattr(o, n)(*a)
        return Tup(r) if isinstance(r, tuple) else Seq([One(x) for x in r]) if isinstance(r, list) else r
    if n == "join" and isinstance(o, str):
        q = e.seq(a[0], st)
        out = []
        if all(isinstance(s, One) and s.g is True for s in q.segs):
            for i, s in enumerate(q.segs):
                if i:
                    out.append(o)
                v = s.v if isinstance(s.v, (str, StrV)) else StrV([StrOf(s.v)])
                out += list(v.segs) if isinstance(v, StrV) else [v]
            return StrV(out)
        n_ = znum(e.seqlen(q))
        k = scoped("k", z3.IntSort())
        s2 = st.copy()
        s2.pc += [k >= 0, k < n_]
        v = e.at_raw(q, k, s2)
        v = v if isinstance(v, (str, StrV)) else StrV([StrOf(v)])
        vs = list(v.segs) if isinstance(v, StrV) else [v]
        sep = scoped("j", z3.IntSort())
        return StrV([Comp(k, n_, True, [Comp(sep, z3.IntVal(1), k > 0, [o])] + vs)])
    if n in ("rstrip", "strip") and isinstance(o, StrV) and all(isinstance(x, StrOf) and isnum(x.v) for x in o.segs):
        return o
    if n == "split" and isz(o) and o.sort() == U and len(a) == 1 and isinstance(a[0], str):
        return Seq([Base("split " + a[0], [o], "U")])
    if n == "split" and isinstance(o, (str, StrV)) and len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
        return split(o.segs if isinstance(o, StrV) else [o], a[0])
    if n in ("rstrip", "strip") and isz(o):
        # the text of a number keeps its value without the line end
        return o
    raise OutOfReach("str.%s" % n)
