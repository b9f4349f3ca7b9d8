"""Checks one function against its contract: all inputs allowed by the precondition, all paths, all iterations."""
import ast
import os
import time
import z3
from values import *
import prove as P
import engine as E
from engine import Engine, State, mkval, SCHEMA, NeedLoc
from compare import Cmp, worst, feasible, prove
from source import Source

FACTOR = [1.0]
CONTRACTS = []
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(os.path.dirname(HERE), "contracts")


def contract(fn, spec=None, prop=(), args=None, requires=None, ensures=(), modular=None, name=None, frame=True,
             inline_ok=True, note="", lemma=False, raises=True, timeout=None, invariants=None, whiles=None):
    CONTRACTS.append(dict(fn=fn, spec=spec, prop=[prop] if isinstance(prop, str) else list(prop), args=args or [],
                          requires=requires, ensures=[ensures] if isinstance(ensures, str) else list(ensures),
                          modular=modular or {}, name=name or fn.split(".", 2)[-1] if name is None else name, frame=frame,
                          note=note, lemma=lemma, raises=raises, timeout=timeout, invariants=invariants, whiles=whiles))


INVARIANTS = []


def invariant(cls, fn):
    INVARIANTS.append((cls, fn))


def load(src):
    ns = dict(contract=contract, SCHEMA=SCHEMA, invariant=invariant)
    for f in sorted(os.listdir(DIR)):
        if f.endswith(".py") and not f.startswith("_"):
            text = open(os.path.join(DIR, f)).read()
            mod = "contracts." + f[:-3]
            src.load(mod, text)
            exec(compile(text, f, "exec"), ns)


def spec_fn(src, name):
    for m, fs in src.functions.items():
        if m.startswith("contracts.") and name in fs:
            return E.Fn(fs[name], m, qual="%s.%s" % (m, name))
    raise OutOfReach("specification %s is missing" % name)


def mkarg(st, name, t):
    """initial value; mutable containers and objects get their own heap location"""
    if isinstance(t, tuple):
        if t[0] == "obj":
            fields = {}
            for c in reversed(SRC[0].mro(t[1])):
                for f, ft in SCHEMA.get(c, {}).items():
                    fields[f] = ft
            if len(t) > 2:
                fields.update(t[2])
            r = Ref(name)
            st.heap[r.id] = E.Inst(t[1])
            for f, ft in fields.items():
                st.heap[r.id] = st.heap[r.id].set(f, mkarg(st, "%s.%s" % (name, f), ft))
            return r
        if t[0] == "new":
            r = Ref(name)
            st.heap[r.id] = E.Inst(t[1])
            return r
        if t[0] == "const":
            return t[1]
        if t[0] == "alt":
            alts, rest = [], True
            for i, x in enumerate(t[1:]):
                last = i == len(t) - 2
                b = z3.Bool("%s?%d" % (name, i)) if not last else True
                g = AND(rest, b)
                alts.append((g, mkarg(st, "%s|%d" % (name, i), x) if x is not None else None))
                if not last:
                    rest = AND(rest, NOT(b))
            return Un(alts)
        if t[0] == "opt":
            return mkarg(st, name, ("alt", None, t[1]))
        if t[0] in ("list", "map"):
            r = Ref(name)
            v = mkval(name, [], t)
            st.heap[r.id] = v
            return r
        if t[0] == "items":     # list of known length with these types
            r = Ref(name)
            st.heap[r.id] = Seq([One(mkarg(st, "%s[%d]" % (name, i), x)) for i, x in enumerate(t[1:])])
            return r
        if t[0] == "tuple":
            return Tup([mkarg(st, "%s.%d" % (name, i), x) for i, x in enumerate(t[1:])])
        if t[0] == "text":
            return t[1]
    if t is None:
        return None
    return mkval(name, [], t)


SRC = [None]


def run_one(eng, fn, args, st, modular):
    """(merged return state or None, value, raised list)"""
    eng.sinks = [[]]
    eng.frames = []
    eng.loops = []
    eng.depth = 0
    eng.modular = modular
    s = st.copy()
    s.env = {}
    f = E.Fn(fn.node, fn.module, fn.cls, bound=None, qual=fn.qual)
    v = eng.run_fn(f, list(args), {}, s)
    raised = [(x, exc) for x, exc in eng.sinks[0] if not eng.dead(x)]
    return (None if eng.dead(s) else s), v, raised


def excond(raised, base):
    by = {}
    for s, exc in raised:
        g = AND(*s.pc[base:])
        by.setdefault(exc.cls, []).append((g, s))
    return by


def verify(c, src):
    """the entries that reading a defaultdict creates are left out for the maps whose keys nothing looks at"""
    loud = set()
    t0 = time.time()
    while True:
        try:
            r = verify_(c, src, loud)
            r["time"] = time.time() - t0
            return r
        except Walked as x:
            if x.name in loud:
                raise OutOfReach(str(x))
            loud.add(x.name)


def verify_(c, src, loud):
    t0, q0, sv0 = time.time(), P.STATS["queries"], P.STATS["time"]
    obls = []
    P.BASE[0] = None
    used = {}
    label = c["name"]

    def ob(name, status, detail=""):
        obls.append(dict(name="%s: %s" % (label, name), status=status, detail=detail[:600]))
    P.TIMEOUT[0] = int((c["timeout"] or 8000) * FACTOR[0])
    try:
        eng = Engine(src)
        st = State()
        if c["lemma"]:
            fn = spec_fn(src, c["fn"])
        else:
            mod, cls, node = src.find(c["fn"])
            fn = E.Fn(node, mod, cls, qual=c["fn"])
        args = [mkarg(st, n, t) for n, t in c["args"]]
        for nm, (ecls, ty) in getattr(eng, "attrtypes", {}).items():
            pass
        inputs = {i for i in st.heap}
        if c["frame"] in ("values", False):
            for i, v in st.heap.items():
                if isinstance(v, MapV) and v.default is not NODEF and not isinstance(v.default, E.ListDefault) and \
                        isinstance(v.base, MapBase) and v.base.name not in loud:
                    eng.quiet[i] = v.base.name
        # precondition
        for req in [c["requires"]] if isinstance(c["requires"], str) else c["requires"] or []:
            # (a precondition is only meaningful where it does not raise)
            s, v, raised = run_one(eng, spec_fn(src, req), args, st, {})
            if s is None:
                raise OutOfReach("precondition never holds")
            g = eng.truth(v, s)
            pre = [x for x in s.pc if x is not True] + ([g] if g is not True else [])
            st.pc = [zbool(x) for x in pre]
        vac = P.check([zbool(x) for x in st.pc], z3.BoolVal(False), 2000) if st.pc else "sat"
        ob("precondition can hold", "proved" if vac == "sat" or vac == "unknown" else "refuted",
           "" if vac == "sat" else "not refuted by the solver" if vac == "unknown" else "precondition is contradictory")
        modular = {q: spec_fn(src, s) for q, s in c["modular"].items()}
        eng.invs = {(q, v): spec_fn(src, s) for (q, v), s in (c["invariants"] or {}).items()}
        eng.whiles = {k: (spec_fn(src, i) if i else None, t) for k, (i, t) in (c["whiles"] or {}).items()}
        base = len(st.pc)
        h0 = list(st.pc)
        P.BASE[0] = [zbool(x) for x in h0] or None
        P._inj.clear()
        si, vi, ri = run_one(eng, fn, args, st, modular)
        used.update(eng.used)
        for nm, stt, det in eng.obls:
            ob(nm, stt, det)
        h0 = h0 + [zbool(x) for x in eng.assumed if x is not True]
        cmp_ = Cmp(eng)
        cmp_.inputs = inputs
        ei = excond(ri, base)
        if c["spec"]:
            ss, vs, rs = run_one(eng, spec_fn(src, c["spec"]), args, st, modular)
            es = excond(rs, base)
            for cls in sorted(set(ei) | set(es)):
                gi = OR(*[g for g, _ in ei.get(cls, [])])
                gs = OR(*[g for g, _ in es.get(cls, [])])
                r = prove(h0, zbool(gi) == zbool(gs), "raises %s" % cls)
                ob("raises %s exactly when specified" % cls, r[0], r[1])
                if c["frame"]:
                    w = []
                    for g1, s1 in ei.get(cls, []):
                        for g2, s2 in es.get(cls, []):
                            h = h0 + [zbool(x) for x in (g1, g2) if x is not True]
                            if feasible(h):
                                w.append(frame(cmp_, inputs, s1, s2, h, "state after %s" % cls, c["frame"]))
                    r = worst(w)
                    ob("state after %s" % cls, r[0], r[1])
            if si is not None and ss is not None:
                h = h0 + [zbool(x) for x in si.pc[base:] + ss.pc[base:] if x is not True]
                cmp_.seen = set()
                r = cmp_.eqv(vi, si, vs, ss, h, "result") if feasible(h) else ("proved", "")
                ob("result", r[0], r[1])
                if c["frame"]:
                    r = frame(cmp_, inputs, si, ss, h, "state", c["frame"]) if feasible(h) else ("proved", "")
                    ob("state after return", r[0], r[1])
            elif (si is None) != (ss is None):
                s = si or ss
                r = prove(h0, zbool(NOT(AND(*s.pc[base:]))) if AND(*s.pc[base:]) is not True else z3.BoolVal(False), "returns")
                ob("returns exactly when specified", r[0], r[1])
        elif c["raises"]:
            for cls in sorted(ei):
                gi = OR(*[g for g, _ in ei[cls]])
                r = prove(h0, zbool(NOT(gi)), "raises %s" % cls)
                ob("does not raise %s" % cls, r[0], r[1])
        for en in c["ensures"]:
            if si is None:
                ob("ensures %s" % en, "unknown", "the function never returns")
                continue
            s2 = si.copy()
            s, v, raised = run_one(eng, spec_fn(src, en), list(args) + [vi], s2, {})
            if s is None:
                ob("ensures %s" % en, "unknown", "the condition raises")
                continue
            h = h0 + [zbool(x) for x in si.pc[base:] if x is not True]
            for i, part in enumerate(conj(v if isinstance(v, Tup) else eng.truth(v, s))):
                r = prove(h, zbool(part), en)
                ob("ensures %s%s" % (en, " (%d)" % (i + 1) if i else ""), r[0], r[1])
            for cls, l in excond(raised, len(s2.pc)).items():
                r = prove(h, zbool(NOT(OR(*[g for g, _ in l]))), "condition defined")
                ob("ensures %s is defined (%s)" % (en, cls), r[0], r[1])
    except Walked:
        raise
    except NeedLoc as x:
        ob("within reach", "unknown", "a value carried through a loop has no closed form: %s" % (x.loc,))
    except OutOfReach as x:
        if os.environ.get("PV_DEBUG"):
            raise
        ob("within reach", "unknown", str(x))
    except z3.Z3Exception as x:
        if os.environ.get("PV_DEBUG"):
            raise
        ob("within reach", "unknown", "z3: %s" % str(x)[:200])
    return dict(obligations=obls, used=used, time=time.time() - t0, solver=P.STATS["time"] - sv0,
                queries=P.STATS["queries"] - q0)


def conj(v):
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            out += conj(x)
        return out
    if isz(v) and z3.is_and(v):
        return list(v.children())
    return [v]


def frame(cmp_, inputs, s1, s2, h, path, mode=True):
    """the state of the inputs; mode 'values': of maps with a default only the values, not which keys were looked at"""
    rs = []
    for i in inputs:
        a, b = s1.heap[i], s2.heap[i]
        if isinstance(a, E.Inst) and isinstance(b, E.Inst):
            if a.cls != b.cls:
                rs.append(cmp_.differ(h, path, a.cls, b.cls))
                continue
            for f in sorted(set(a.fields) | set(b.fields)):
                cmp_.seen = set()
                rs.append(cmp_.eqv(a.fields.get(f, E.UNBOUND), s1, b.fields.get(f, E.UNBOUND), s2, h, "%s %s.%s" % (path, i.split("#")[0], f)))
        elif isinstance(a, Seq):
            rs.append(cmp_.eqseq(a, s1, b, s2, h, "%s %s" % (path, i.split("#")[0]), 0))
        elif isinstance(a, MapV):
            rs.append(cmp_.eqmap((a, ()), s1, (b, ()), s2, h, "%s %s" % (path, i.split("#")[0]), 0,
                                 mode == "values" and a.default is not NODEF and not isinstance(a.default, E.ListDefault)))
    keys = [k for k in set(s1.heap) | set(s2.heap) if isinstance(k, str) and k.startswith("attr:")]
    for k in sorted(keys):
        x = z3.Const("obj!%s" % k, U)
        ma = s1.heap.get(k) or cmp_.e.attr_map0(k)
        mb = s2.heap.get(k) or cmp_.e.attr_map0(k)
        if isinput_only(cmp_.e, ma) and isinput_only(cmp_.e, mb):
            continue
        a, b = cmp_.e.lookup(ma, (x,), s1.copy()), cmp_.e.lookup(mb, (x,), s2.copy())
        rs.append(cmp_.eqv(a, s1, b, s2, h, "%s %s of the inputs" % (path, k)))
    return worst(rs)


def isinput_only(e, m):
    """only created objects are written"""
    def ok(w):
        if isinstance(w, W):
            return all(e.newsym(k) for k in w.keys)
        return all(ok(x) for x in w.log)
    return all(ok(w) for w in m.log)
