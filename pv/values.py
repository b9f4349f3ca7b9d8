"""Symbolic values of the Python subset. Everything here is immutable; mutable objects live in State.heap."""
import z3
from fractions import Fraction

U = z3.DeclareSort("U")          # identities: objects, strings, any hashable the code only compares
INF = z3.Real("INF")             # float('inf'); every finite input is assumed smaller


class OutOfReach(Exception):
    """the construct is outside the subset: the obligation stays undecided"""


class Walked(OutOfReach):
    """the keys of a map are looked at, so reads that create entries matter"""
    def __init__(self, name):
        OutOfReach.__init__(self, "keys of %s" % name)
        self.name = name


class Un:
    """guarded union: exactly one guard holds"""
    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Un(%s)" % self.alts


class Tup:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class SObj:
    """an object of the input, known only by identity; attributes are functions of it"""
    def __init__(self, term, cls):
        self.term, self.cls = term, cls

    def __repr__(self):
        return "<%s %s>" % (self.cls, self.term)


class Ref:
    """a heap object created during execution or a distinguished argument"""
    n = 0

    def __init__(self, hint=""):
        Ref.n += 1
        self.id = "%s#%d" % (hint, Ref.n)

    def __repr__(self):
        return "Ref(%s)" % self.id


class Inst:
    """heap content: instance of a repo class"""
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Inst(self.cls, f)

    def __repr__(self):
        return "Inst(%s,%r)" % (self.cls, self.fields)


class Rec:
    """snapshot of an object created once per loop iteration"""
    def __init__(self, cls, fields, tag=None):
        self.cls, self.fields, self.tag = cls, fields, tag

    def __repr__(self):
        return "Rec(%s,%r)" % (self.cls, self.fields)


class One:
    def __init__(self, v, g=True):
        self.v, self.g = v, g

    def __repr__(self):
        return "One(%r|%s)" % (self.v, self.g) if self.g is not True else "One(%r)" % (self.v,)


class Base:
    """the input sequence name(args), possibly a slice [off, off+n)"""
    def __init__(self, name, args, elem, off=None, n=None):
        self.name, self.args, self.elem, self.off, self.n = name, tuple(args), elem, off, n

    def __repr__(self):
        return "Base(%s%s)" % (self.name, self.args)


class Comp:
    """for k in 0..n-1, if g: segs"""
    def __init__(self, k, n, g, segs):
        self.k, self.n, self.g, self.segs = k, n, g, tuple(segs)

    def __repr__(self):
        return "Comp(%s<%s|%s: %r)" % (self.k, self.n, self.g, self.segs)


class HoleSeg:
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Hole(%s)" % (self.loc,)


class Seq:
    """list content; also immutable list value"""
    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return "Seq%r" % (self.segs,)


class StrV:
    """string as a sequence of literal pieces and str() of values"""
    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, str) and out and isinstance(out[-1], str):
                out[-1] += s
            elif s != "":
                out.append(s)
        self.segs = tuple(out)

    def __repr__(self):
        return "StrV%r" % (self.segs,)


class StrOf:
    def __init__(self, v, spec=""):
        self.v, self.spec = v, spec

    def __repr__(self):
        return "StrOf(%r)" % (self.v,)


class W:
    """map write / touch / add"""
    def __init__(self, kind, keys, val, g=True):
        self.kind, self.keys, self.val, self.g = kind, tuple(keys), val, g

    def __repr__(self):
        return "W(%s %r:=%r|%s)" % (self.kind, self.keys, self.val, self.g)


class WComp:
    def __init__(self, k, n, g, log):
        self.k, self.n, self.g, self.log = k, n, g, tuple(log)

    def __repr__(self):
        return "WComp(%s<%s|%s: %r)" % (self.k, self.n, self.g, self.log)


class MapV:
    """dict content. depth keys lead to a leaf; base: None (empty) or MapBase; default: leaf default or NODEF"""
    def __init__(self, depth, default, base=None, log=(), keysorts=None):
        self.depth, self.default, self.base, self.log = depth, default, base, tuple(log)
        # classes of the keys, filled in place as keys are seen (shared by all versions of a map)
        self.keysorts = keysorts if keysorts is not None else [None] * depth

    def add(self, w):
        return MapV(self.depth, self.default, self.base, self.log + (w,), self.keysorts)

    def __repr__(self):
        return "MapV(%d,%r,%r,%r)" % (self.depth, self.default, self.base, self.log)


class MapBase:
    def __init__(self, name, args, keytypes, valtype):
        self.name, self.args, self.keytypes, self.valtype = name, tuple(args), keytypes, valtype

    def __repr__(self):
        return "MapBase(%s)" % self.name


class GenBase:
    """an arbitrary earlier content, of which one place is looked at"""
    def __init__(self, value):
        self.value = value


class HoleMap:
    def __init__(self, loc):
        self.loc = loc


class MapView:
    def __init__(self, ref, keys):
        self.ref, self.keys = ref, tuple(keys)

    def __repr__(self):
        return "View(%r,%r)" % (self.ref, self.keys)


class NoDef:
    def __repr__(self):
        return "NODEF"


NODEF = NoDef()


class ListDefault:
    pass


class Cls:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Cls(%s)" % self.name


class Fn:
    def __init__(self, node, module, cls=None, closure=None, bound=None, qual=""):
        self.node, self.module, self.cls, self.closure, self.bound, self.qual = node, module, cls, closure, bound, qual


class Builtin:
    def __init__(self, name, bound=None):
        self.name, self.bound = name, bound

    def __repr__(self):
        return "Builtin(%s)" % self.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ExcV:
    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return "Exc(%s)" % self.cls


class Mod:
    def __init__(self, name):
        self.name = name


class Hole:
    """opaque carried value of a loop"""
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Hole(%s)" % (self.loc,)


# ---------------------------------------------------------------- helpers
_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (prefix, _fresh[0]), sort)


def freshname(prefix):
    _fresh[0] += 1
    return "%s!%d" % (prefix, _fresh[0])


_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const("lit:%r" % (s,), U)
    return _lits[s]


def lit_axioms():
    v = list(_lits.values())
    return [z3.Distinct(*v)] if len(v) > 1 else []


def isz(v):
    return isinstance(v, z3.ExprRef)


def isnum(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (isz(v) and z3.is_arith(v))


def isbool(v):
    return isinstance(v, bool) or (isz(v) and z3.is_bool(v))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def znum(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v)) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
    if isz(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isz(v):
        return v
    raise OutOfReach("not a number: %r" % (v,))


def toreal(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def AND(*xs):
    out = []
    for x in xs:
        if x is True or (isz(x) and z3.is_true(x)):
            continue
        if x is False or (isz(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is False or (isz(x) and z3.is_false(x)):
            continue
        if x is True or (isz(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return x.arg(0) if z3.is_not(x) else z3.Not(x)


def ITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


_vars = {}
_novars = {}


def zvars(t, acc=None):
    """free constants of a z3 term, by name"""
    i = t.get_id()
    got = _vars.get(i)
    if got is None:
        got = _zvars(t)
    else:
        got = got[1]
    if acc is None:
        return got
    acc.update(got)
    return acc


def _zvars(t):
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _vars:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        elif z3.is_app(x):
            ch = x.children()
        else:
            ch = []
        todo = [c for c in ch if c.get_id() not in _vars]
        if todo:
            stack += todo
            continue
        stack.pop()
        if not ch:
            v = {x.decl().name(): x} if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else _novars
        else:
            v = _novars
            for c in ch:
                w = _vars[c.get_id()][1]
                if w and w is not v:
                    v = w if not v else v if all(k in v for k in w) else w if all(k in w for k in v) else {**v, **w}
        _vars[i] = (x, v)
    return _vars[t.get_id()][1]


def walk_terms(v, f):
    """calls f on every z3 term inside value v"""
    if isz(v):
        f(v)
    elif isinstance(v, Un):
        for g, x in v.alts:
            walk_terms(g, f)
            walk_terms(x, f)
    elif isinstance(v, Tup):
        for x in v.items:
            walk_terms(x, f)
    elif isinstance(v, SObj):
        f(v.term)
    elif isinstance(v, (Inst, Rec)):
        for x in v.fields.values():
            walk_terms(x, f)
    elif isinstance(v, One):
        walk_terms(v.v, f)
        walk_terms(v.g, f)
    elif isinstance(v, Base):
        for x in v.args + (v.off, v.n):
            walk_terms(x, f)
    elif isinstance(v, Comp):
        walk_terms(v.n, f)
        walk_terms(v.g, f)
        for s in v.segs:
            walk_terms(s, f)
    elif isinstance(v, (Seq, StrV)):
        for s in v.segs:
            walk_terms(s, f)
    elif isinstance(v, StrOf):
        walk_terms(v.v, f)
    elif isinstance(v, W):
        for x in v.keys:
            walk_terms(x, f)
        walk_terms(v.val, f)
        walk_terms(v.g, f)
    elif isinstance(v, WComp):
        walk_terms(v.n, f)
        walk_terms(v.g, f)
        for s in v.log:
            walk_terms(s, f)
    elif isinstance(v, MapV):
        if isinstance(v.base, MapBase):
            for x in v.base.args:
                walk_terms(x, f)
        for s in v.log:
            walk_terms(s, f)
    elif isinstance(v, MapView):
        for x in v.keys:
            walk_terms(x, f)
    elif isinstance(v, Fn):
        walk_terms(v.bound, f)


def vvars(v):
    acc = {}
    walk_terms(v, lambda t: zvars(t, acc))
    return acc


def holes(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, (Hole, HoleSeg)):
        acc.add(v.loc)
    elif isinstance(v, Un):
        for g, x in v.alts:
            holes(x, acc)
    elif isinstance(v, Tup):
        for x in v.items:
            holes(x, acc)
    elif isinstance(v, (Inst, Rec)):
        for x in v.fields.values():
            holes(x, acc)
    elif isinstance(v, One):
        holes(v.v, acc)
    elif isinstance(v, (Comp, Seq, StrV)):
        for s in v.segs:
            holes(s, acc)
    elif isinstance(v, StrOf):
        holes(v.v, acc)
    elif isinstance(v, W):
        for x in v.keys:
            holes(x, acc)
        holes(v.val, acc)
    elif isinstance(v, WComp):
        for s in v.log:
            holes(s, acc)
    elif isinstance(v, MapV):
        if isinstance(v.base, HoleMap):
            acc.add(v.base.loc)
        for s in v.log:
            holes(s, acc)
    return acc


def subst(v, pairs):
    """substitutes z3 constants in a value"""
    if not pairs:
        return v
    s = lambda x: subst(x, pairs)  # noqa: E731
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Un):
        return Un([(s(g), s(x)) for g, x in v.alts])
    if isinstance(v, Tup):
        return Tup([s(x) for x in v.items])
    if isinstance(v, SObj):
        return SObj(s(v.term), v.cls)
    if isinstance(v, Inst):
        return Inst(v.cls, {k: s(x) for k, x in v.fields.items()})
    if isinstance(v, Rec):
        return Rec(v.cls, {k: s(x) for k, x in v.fields.items()}, s(v.tag))
    if isinstance(v, One):
        return One(s(v.v), s(v.g))
    if isinstance(v, Base):
        return Base(v.name, [s(x) for x in v.args], v.elem, s(v.off), s(v.n))
    if isinstance(v, Comp):
        return Comp(v.k, s(v.n), s(v.g), [s(x) for x in v.segs])
    if isinstance(v, Seq):
        return Seq([s(x) for x in v.segs])
    if isinstance(v, StrV):
        return StrV([s(x) for x in v.segs])
    if isinstance(v, StrOf):
        return StrOf(s(v.v), v.spec)
    if isinstance(v, W):
        return W(v.kind, [s(x) for x in v.keys], s(v.val), s(v.g))
    if isinstance(v, WComp):
        return WComp(v.k, s(v.n), s(v.g), [s(x) for x in v.log])
    if isinstance(v, MapV):
        b = v.base
        if isinstance(b, MapBase):
            b = MapBase(b.name, [s(x) for x in b.args], b.keytypes, b.valtype)
        return MapV(v.depth, v.default, b, [s(x) for x in v.log], v.keysorts)
    if isinstance(v, MapView):
        return MapView(v.ref, [s(x) for x in v.keys])
    if isinstance(v, Fn):
        return Fn(v.node, v.module, v.cls, v.closure, s(v.bound), v.qual)
    if isinstance(v, tuple):
        return tuple(s(x) for x in v)
    return v
