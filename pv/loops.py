"""Loops. One symbolic iteration (index k, arbitrary carried values) is executed and every carried location is brought into
its inductive form: overwrite, sum, last write, list append, map log, string append, or a fold over scalars; returns, breaks
and exceptions become the first index at which they happen. The forms are exact, so no bound on the iterations is involved."""
import os
import z3
from values import *
import prove as P
from prove import SUM, EXIDX, FOLD, scoped, znat


def fill(v, vals, pairs):
    """replaces the placeholders of resolved locations (vals: loc -> value, pairs: z3 substitution)"""
    f = lambda x: fill(x, vals, pairs)  # noqa: E731
    if isz(v):
        return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, Hole):
        return vals.get(v.loc, v)
    if isinstance(v, Un):
        alts = []
        for g, x in v.alts:
            g, x = f(g), f(x)
            if isinstance(x, Un):
                alts += [(AND(g, h), y) for h, y in x.alts]
            else:
                alts.append((g, x))
        return Un(alts)
    if isinstance(v, Tup):
        return Tup([f(x) for x in v.items])
    if isinstance(v, SObj):
        return SObj(f(v.term), v.cls)
    if isinstance(v, Inst):
        return Inst(v.cls, {k: f(x) for k, x in v.fields.items()})
    if isinstance(v, One):
        return One(f(v.v), f(v.g))
    if isinstance(v, Base):
        return subst(v, pairs)
    if isinstance(v, Comp):
        return Comp(v.k, f(v.n), f(v.g), fillsegs(v.segs, vals, pairs))
    if isinstance(v, Seq):
        return Seq(fillsegs(v.segs, vals, pairs))
    if isinstance(v, StrV):
        out = []
        for s in v.segs:
            if isinstance(s, HoleSeg) and s.loc in vals:
                x = vals[s.loc]
                out += list(x.segs) if isinstance(x, StrV) else [x]
            else:
                out.append(s if isinstance(s, str) else f(s))
        return StrV(out)
    if isinstance(v, StrOf):
        return StrOf(f(v.v), v.spec)
    if isinstance(v, W):
        return W(v.kind, [f(x) for x in v.keys], f(v.val), f(v.g))
    if isinstance(v, WComp):
        return WComp(v.k, f(v.n), f(v.g), [f(x) for x in v.log])
    if isinstance(v, MapV):
        if isinstance(v.base, HoleMap) and v.base.loc in vals:
            b = vals[v.base.loc]
            return MapV(v.depth, v.default, b.base, list(b.log) + [f(x) for x in v.log], v.keysorts or b.keysorts)
        return subst(MapV(v.depth, v.default, v.base, [f(x) for x in v.log], v.keysorts), pairs)
    if isinstance(v, MapView):
        return MapView(v.ref, [f(x) for x in v.keys])
    if isinstance(v, Fn):
        return Fn(v.node, v.module, v.cls, v.closure, f(v.bound), v.qual)
    return v


def fillsegs(segs, vals, pairs):
    out = []
    for s in segs:
        if isinstance(s, HoleSeg) and s.loc in vals:
            out += list(vals[s.loc].segs)
        else:
            out.append(fill(s, vals, pairs))
    return out


class Poison(Hole):
    """a value after the loop that has no closed form; using it puts the obligation out of reach"""


DEBUG = bool(os.environ.get("PV_LOOPS"))


def onenumber(u):
    from engine import coerce
    v = u.alts[-1][1]
    for g, x in reversed(u.alts[:-1]):
        v = z3.If(zbool(g), *coerce(x, v))
    return v


def eitherway(segs):
    """entries of which exactly one is added: one entry, the one or the other"""
    from engine import vmerge
    out, i = [], 0
    segs = list(segs)

    def exclusive(xs):
        gs = [x.g for x in xs]
        return P.check([], zbool(OR(*gs)), 500) == "proved" and \
            all(P.check([], zbool(NOT(AND(x, y))), 500) == "proved" for n, x in enumerate(gs) for y in gs[:n])
    while i < len(segs):
        run = 0
        while i + run < len(segs) and run < 4 and isinstance(segs[i + run], One) and isz(segs[i + run].g):
            run += 1
        for m in range(run, 1, -1):
            if exclusive(segs[i:i + m]):
                v = segs[i + m - 1].v
                for x in reversed(segs[i:i + m - 1]):
                    v = vmerge(x.g, x.v, v)
                out.append(One(v, True))
                i += m
                break
        else:
            out.append(segs[i])
            i += 1
    return out


class Loop:
    MAXRUNS = 24

    def __init__(self, engine, st, n, body):
        self.e, self.st, self.n, self.body = engine, st, n, body
        self.k = scoped("k", z3.IntSort())
        P.RANGE[self.k.decl().name()] = znat(n)
        self.kinds = {}      # loc -> placeholder kind
        self.consts = {}     # const name -> loc
        self.ph = {}         # loc -> placeholder value
        self.fixed = {}      # loc -> (name, invariant), for variables whose value at the start of an iteration is stated
        self.carried = {}    # loc -> what every iteration leaves in it, for variables that start as None
        self.notcarried = set()
        self.user = {}       # loc -> name, for stated invariants
        self.guess = {}      # loc -> what each iteration adds, for locations read while being built
        self.ref0 = Ref.n
        self.refmax = Ref.n

    # ------------------------------------------------------------ locations
    def init_of(self, loc):
        st = self.st
        if loc[0] == "env":
            return st.env.get(loc[1], self.U())
        if loc[0] == "heap":
            return st.heap[loc[1]]
        if loc[0] == "field":
            return st.heap[loc[1]].fields.get(loc[2], self.U())
        m = st.heap.get(loc[1])
        return m if m is not None else self.e.attr_map0(loc[1])

    @staticmethod
    def U():
        from engine import UNBOUND
        return UNBOUND

    @staticmethod
    def put(s, loc, v):
        if loc[0] == "env":
            s.env[loc[1]] = v
        elif loc[0] == "field":
            s.heap[loc[1]] = s.heap[loc[1]].set(loc[2], v)
        else:
            s.heap[loc[1]] = v

    @staticmethod
    def get(s, loc):
        if loc[0] == "env":
            return s.env.get(loc[1], Loop.U())
        if loc[0] == "field":
            return s.heap[loc[1]].fields.get(loc[2], Loop.U())
        return s.heap.get(loc[1])

    def guessed(self, loc):
        """the value at the start of iteration k when every iteration j adds guess(j)"""
        init, log = self.init_of(loc), self.guess[loc]
        j = scoped("k", z3.IntSort())
        parts = [subst(x, [(self.k, j)]) if not isinstance(x, str) else x for x in log]
        if isinstance(init, Seq):
            return Seq(list(init.segs) + ([Comp(j, self.k, True, parts)] if parts else []))
        if isinstance(init, MapV):
            return MapV(init.depth, init.default, init.base, list(init.log) + ([WComp(j, self.k, True, parts)] if parts else []),
                        init.keysorts)
        iv = init if isinstance(init, StrV) else StrV([init])
        return StrV(list(iv.segs) + ([Comp(j, self.k, True, parts)] if parts else []))

    def stated(self, loc):
        """what the invariant stated in the contract says iteration k appends to a list"""
        e, st = self.e, self.st
        if not e.frames or loc[0] != "heap":
            return None
        for (qual, name), fn in e.invs.items():
            v = st.env.get(name)
            if qual != e.frames[-1][2] or not (isinstance(v, Ref) and v.id == loc[1]):
                continue
            names = [a.arg for a in fn.node.args.args]
            if any(n != "k" and n not in st.env for n in names):
                continue
            s = st.copy()
            s.pc += [self.k >= 0, self.k < znat(self.n)]
            r = e.run_fn(fn, [self.k if n == "k" else st.env[n] for n in names], {}, s)
            self.user[loc] = name
            return list(e.seq(r, s).segs)
        return None

    def invariant_of(self, loc):
        e, st = self.e, self.st
        if loc[0] not in ("env", "heap") or not e.frames:
            return None
        if loc[0] == "env":
            fn = e.invs.get((e.frames[-1][2], loc[1]))
        else:
            # a list changed in place, stated as "object.field"
            fn = None
            for (qual, name), x in e.invs.items():
                if qual != e.frames[-1][2] or "." not in name:
                    continue
                o = st.env.get(name.split(".")[0])
                o = st.heap.get(o.id) if isinstance(o, Ref) else None
                r = getattr(o, "fields", {}).get(name.split(".")[1])
                if isinstance(r, Ref) and r.id == loc[1]:
                    fn = x
        if fn is None:
            return None
        names = [a.arg for a in fn.node.args.args]
        if "k" not in names or any(n != "k" and (n not in st.env or isinstance(st.env[n], Hole) or st.env[n] is self.U()) for n in names):
            return None
        return fn

    def stated_at(self, fn, t, s=None):
        """the value the stated invariant gives at the start of iteration t"""
        pc = (s or self.st).pc
        s = self.st.copy()
        s.pc = pc + [zbool(t >= 0), zbool(t <= znat(self.n))]
        names = [a.arg for a in fn.node.args.args]
        r = self.e.run_fn(fn, [t if n == "k" else self.st.env[n] for n in names], {}, s)
        return self.e.seq(r, s) if isinstance(r, Ref) and isinstance(s.heap.get(r.id), Seq) else r

    # variables that start as None and hold what the iteration before left in them
    def carry(self, loc, v):
        if loc[0] != "env" or self.init_of(loc) is not None or loc in self.notcarried:
            return False
        if not (isz(v) or isnum(v) or isinstance(v, SObj)):
            return False
        acc = {}
        walk_terms(v, lambda t: zvars(t, acc))
        if set(holes(v)) or any(n in self.consts for n in acc):
            return False
        self.carried[loc] = v
        self.ph[loc] = self.carried_at(loc, self.k)
        return True

    def carried_at(self, loc, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        x = self.sub(self.carried[loc], t - 1)
        if z3.is_int_value(t):
            return None if t.as_long() == 0 else x
        return Un([(t == 0, None), (t != 0, x)])

    def check_carried(self, end):
        """what the iteration leaves is what was assumed; otherwise the variable is not treated this way"""
        from compare import Cmp
        again = False
        for loc, want in list(self.carried.items()):
            v = self.get(end, loc)
            ok = not self.deps(v)
            if ok:
                v = self.now(v)
                ok = alphaeq(v, want) or Cmp(self.e).eqv(v, end, want, end, self.e.hyps(end), "carried %s" % loc[1])[0] == "proved"
            if not ok:
                del self.carried[loc]
                self.notcarried.add(loc)
                self.ph[loc] = self.placeholder(loc)
                again = True
        return again

    def check_fixed(self, end):
        from compare import Cmp
        for loc, (name, fn) in self.fixed.items():
            cmp_ = Cmp(self.e)
            st = self.st
            r = cmp_.eqv(self.init_of(loc), st, self.stated_at(fn, z3.IntVal(0)), st, self.e.hyps(st), "start of %s" % name)
            v = self.get(end, loc)
            if self.deps(v):
                raise OutOfReach("%s depends on a value without closed form" % name)
            h = self.e.hyps(end)
            r2 = cmp_.eqv(self.now(v), end, self.stated_at(fn, self.k + 1, end), end, h, "step of %s" % name)
            w = "invariant of %s is kept" % name
            self.e.obls[:] = [o for o in self.e.obls if o[0] not in (w, "invariant of %s holds at the start" % name)]
            self.e.obls += [("invariant of %s holds at the start" % name,) + tuple(r), (w,) + tuple(r2)]
            for x in (r, r2):
                if x[0] != "proved":
                    raise OutOfReach("the stated invariant of %s is not shown to be kept: %s" % (name, x[1]))

    def added(self, loc, v):
        """what the iteration added to a guessed location, or None"""
        p = self.ph[loc]
        if isinstance(p, StrV):
            return self.addedtext(p, v)
        if type(p) is not type(v):
            return None
        a, b = (p.log, v.log) if isinstance(p, MapV) else (p.segs, v.segs)
        from engine import samev, samebase
        if isinstance(p, MapV) and not samebase(p.base, v.base):
            return None
        if len(b) < len(a) or not all(samev(x, y) for x, y in zip(a, b)):
            return None
        return list(b[len(a):])

    def addedtext(self, p, v):
        """the same for text: pieces under guards where what is added differs"""
        from engine import samev
        from values import Un

        def same(x, y):
            return x == y if isinstance(x, str) or isinstance(y, str) else x.spec == y.spec and (samev(x.v, y.v) or (
                isz(x.v) and isz(y.v) and x.v.sort() == y.v.sort() and z3.is_true(z3.simplify(x.v == y.v)))) \
                if isinstance(x, StrOf) and isinstance(y, StrOf) else samev(x, y)
        alts = []
        for g, x in v.alts if isinstance(v, Un) else [(True, v)]:
            if not isinstance(x, (str, StrV)):
                return None
            b = list(StrV([x]).segs) if isinstance(x, str) else list(x.segs)
            a = list(p.segs)
            if a and isinstance(a[-1], str) and len(b) >= len(a) and isinstance(b[len(a) - 1], str) and b[len(a) - 1].startswith(a[-1]):
                b[len(a) - 1:len(a)] = [a[-1], b[len(a) - 1][len(a[-1]):]]
            if len(b) < len(a) or not all(same(x, y) for x, y in zip(a, b)):
                return None
            alts.append((g, [x for x in b[len(a):] if x != ""]))
        if len(alts) == 1:
            return alts[0][1]
        return self.pieces(alts)

    @staticmethod
    def pieces(alts):
        """text under guards, the common end without"""
        from engine import samev

        def same(x, y):
            return x == y if isinstance(x, str) or isinstance(y, str) else x.spec == y.spec and (samev(x.v, y.v) or (
                isz(x.v) and isz(y.v) and x.v.sort() == y.v.sort() and z3.is_true(z3.simplify(x.v == y.v)))) \
                if isinstance(x, StrOf) and isinstance(y, StrOf) else samev(x, y)
        tail = []
        while all(x for _, x in alts) and all(same(x[-1], alts[0][1][-1]) for _, x in alts):
            tail.insert(0, alts[0][1][-1])
            for _, x in alts:
                x.pop()
        return [Comp(scoped("k", z3.IntSort()), z3.IntVal(1), g, x) for g, x in alts if x] + tail

    def placeholder(self, loc, sort=None):
        if loc in self.guess:
            return self.guessed(loc)
        init = self.init_of(loc)
        if isinstance(init, Seq):
            return Seq([HoleSeg(loc)])
        if isinstance(init, MapV):
            return MapV(init.depth, init.default, HoleMap(loc), (), init.keysorts)
        if isinstance(init, (str, StrV)):
            return StrV([HoleSeg(loc)])
        t = None
        if isbool(init):
            t = z3.BoolSort()
        elif isnum(init):
            t = sort if sort is not None else znum(init).sort()
        elif isz(init):
            t = init.sort()
        elif isinstance(init, SObj):
            t = U
        if t is None or loc in self.opaque:
            return Hole(loc)
        c = scoped("c", t)
        self.consts[c.decl().name()] = loc
        return SObj(c, init.cls) if isinstance(init, SObj) else c

    # ------------------------------------------------------------ one iteration
    def run_body(self):
        e = self.e
        # objects get the same names in every run of the body
        self.refmax = max(self.refmax, Ref.n)
        Ref.n = self.ref0
        s = self.st.copy()
        s.env, s.heap = dict(s.env), dict(s.heap)
        for loc, v in self.ph.items():
            self.put(s, loc, v)
        s.pc += [self.k >= 0, self.k < znat(self.n)]
        e.sinks.append([])
        e.loops.append(self)
        try:
            outs = e.nocont(self.body(s, self.k))
        finally:
            e.loops.pop()
            raised = e.sinks.pop()
        nxt, exits = [], []
        for kind, s2, v in outs:
            if e.dead(s2):
                continue
            (nxt.append(s2) if kind == "next" else exits.append((kind, s2, v)))
        exits += [("raise", s2, x) for s2, x in raised if not e.dead(s2)]
        return nxt, exits

    def changed(self, end):
        """locations of the start state whose value differs"""
        from engine import samev
        out = []
        st = self.st
        for n in end.env:
            loc = ("env", n)
            start = self.ph.get(loc, st.env.get(n, self.U()))
            if not samev(start, end.env[n]):
                out.append(loc)
        for i in end.heap:
            if isinstance(i, str) and i.startswith("attr:"):
                loc = ("attr", i)
                if loc in self.ph:
                    start = self.ph[loc]
                else:
                    start = st.heap.get(i) or self.e.attr_map0(i)
                if not samev(start, end.heap[i]):
                    out.append(loc)
                continue
            if i not in st.heap:
                continue
            a, b = st.heap[i], end.heap[i]
            if isinstance(a, Inst):
                for f in set(a.fields) | set(b.fields):
                    loc = ("field", i, f)
                    start = self.ph.get(loc, a.fields.get(f, self.U()))
                    if not samev(start, b.fields.get(f, self.U())):
                        out.append(loc)
            else:
                loc = ("heap", i)
                if not samev(self.ph.get(loc, a), b):
                    out.append(loc)
        return out

    # ------------------------------------------------------------ leaving the iteration
    def export(self, v, s, exported):
        """values that outlive the iteration: objects created in it become NEW(k..) identities, lists their content"""
        x = lambda y: self.export(y, s, exported)  # noqa: E731
        if isinstance(v, Ref):
            if v.id in self.st.heap:
                return v
            c = s.heap.get(v.id)
            if isinstance(c, (Seq, MapV)):
                return x(c)
            if isinstance(c, Inst):
                if v.id not in exported:
                    ks = [l.k for l in self.e.loops] + [self.k]
                    nm = "NEW:%s:%s" % (c.cls, v.id)
                    t = z3.Function(nm, *[q.sort() for q in ks], U)(*ks)
                    self.e.news[nm] = c.cls
                    exported[v.id] = SObj(t, c.cls)
                    for f, fv in c.fields.items():
                        key = self.e.attr_key(c.cls, f)
                        m = s.heap.get(key)
                        if m is None:
                            self.e.attr_map(SObj(t, c.cls), f)
                            m = MapV(1, NODEF, HoleMap(("attr", key))) if ("attr", key) in self.ph else self.e.attr_map0(key)
                        s.heap[key] = m.add(W("set", [t], x(fv)))
                return exported[v.id]
            return v
        if isinstance(v, Un):
            return Un([(g, x(y)) for g, y in v.alts])
        if isinstance(v, Tup):
            return Tup([x(y) for y in v.items])
        if isinstance(v, One):
            return One(x(v.v), v.g)
        if isinstance(v, Comp):
            return Comp(v.k, v.n, v.g, [x(y) for y in v.segs])
        if isinstance(v, Seq):
            return Seq([x(y) for y in v.segs])
        if isinstance(v, W):
            return W(v.kind, v.keys, x(v.val), v.g)
        if isinstance(v, WComp):
            return WComp(v.k, v.n, v.g, [x(y) for y in v.log])
        if isinstance(v, MapV):
            return MapV(v.depth, v.default, v.base, [x(y) for y in v.log], v.keysorts)
        if isinstance(v, MapView) and v.ref.id not in self.st.heap:
            m = s.heap[v.ref.id]
            if len(v.keys) == m.depth:
                return x(self.e.lookup(m, v.keys, s))
            return Hole(("dead",))
        if isinstance(v, Fn) and v.closure is not None:
            return Hole(("dead",))
        return v

    def prune(self, v, s):
        """drops what cannot happen on the paths that go on to the next iteration"""
        e = self.e
        off = lambda g: g is False or (isz(g) and e.decide(s, g) is False)  # noqa: E731
        if isinstance(v, Seq):
            return Seq([x for x in v.segs if not (isinstance(x, (One, Comp)) and off(x.g)) and
                        not (isinstance(x, Comp) and not isinstance(x.n, int) and e.holds(s, x.n <= 0))])
        if isinstance(v, MapV):
            return MapV(v.depth, v.default, v.base, [x for x in v.log if not off(x.g)], v.keysorts)
        while isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            c = e.decide(s, v.arg(0))
            if isz(c):
                break
            v = v.arg(1) if c else v.arg(2)
        return v

    def export_state(self, s):
        exported = {}
        for loc in list(self.changed(s)):
            v = self.get(s, loc)
            if v is not None:
                self.put(s, loc, self.export(v, s, exported))

    # ------------------------------------------------------------ driver
    def run(self):
        from engine import samev
        self.opaque = set()
        sorts = {}
        runs = 0
        while True:
            runs += 1
            if DEBUG:
                print("loop", self.k, "run", runs, "ph", list(self.ph), "guess", self.guess)
            if runs > self.MAXRUNS:
                raise OutOfReach("carried values of a loop do not settle")
            try:
                nxt, exits = self.run_body()
            except NeedLoc_() as x:
                p = self.ph.get(x.loc)
                if p is None or x.loc in self.guess or not isinstance(p, (Seq, MapV, StrV)):
                    raise
                self.guess[x.loc] = self.stated(x.loc) or []
                self.ph[x.loc] = self.guessed(x.loc)
                continue
            end = self.e.merge_states(nxt)
            if end is None:
                break
            self.export_state(end)
            ch = self.changed(end)
            if exits and ch:
                for loc in ch:
                    v = self.get(end, loc)
                    if isinstance(v, (Seq, MapV)) or isz(v):
                        self.put(end, loc, self.prune(v, end))
                ch = self.changed(end)
            for kind, s2, v in exits:
                for loc in self.changed(s2):
                    if loc not in ch and loc[0] != "env":
                        pass     # changes on leaving paths need no carrying
            grow = False
            for loc in ch:
                if loc not in self.ph:
                    init = self.init_of(loc)
                    fn = self.invariant_of(loc)
                    if fn is not None:
                        self.fixed[loc] = (loc[1], fn)
                        self.ph[loc] = self.stated_at(fn, self.k)
                        grow = True
                        continue
                    if self.carry(loc, self.get(end, loc)):
                        grow = True
                        continue
                    if isinstance(init, MapV) and init.default is not NODEF and isinstance(self.get(end, loc), MapV):
                        # read and touched at the same time in most code: start from what one iteration adds
                        self.ph[loc] = init
                        new = self.added(loc, self.get(end, loc))
                        if new is None or any("touch" in self.e.logkinds(w) for w in new):
                            self.guess[loc] = [] if new is None else new
                            self.ph[loc] = self.guessed(loc)
                        else:
                            self.ph[loc] = self.placeholder(loc)
                    else:
                        self.ph[loc] = self.placeholder(loc)
                    grow = True
                    continue
                if loc in self.fixed or loc in self.carried:
                    continue
                p, v = self.ph[loc], self.get(end, loc)
                if isinstance(v, Un) and isz(p) and z3.is_arith(p) and any(isnum(x) for _, x in v.alts) and \
                        all(isnum(x) or self.e.decide(end, g) is False for g, x in v.alts):
                    v = onenumber(Un([(g, x) for g, x in v.alts if isnum(x)]))
                    self.put(end, loc, v)
                if isz(p) and not isinstance(p, SObj):
                    ok = (z3.is_bool(p) and isbool(v)) or (not z3.is_bool(p) and isnum(v)) or (isz(v) and v.sort() == p.sort())
                    if not ok:
                        self.opaque.add(loc)
                        self.ph[loc] = Hole(loc)
                        grow = True
                    elif z3.is_int(p) and z3.is_real(znum(v)):
                        self.ph[loc] = self.placeholder(loc, z3.RealSort())
                        grow = True
                elif isinstance(p, SObj) and not isinstance(v, SObj):
                    self.opaque.add(loc)
                    self.ph[loc] = Hole(loc)
                    grow = True
                elif isinstance(p, SObj) and v.cls != p.cls:
                    c = self.e.common(v.cls, p.cls)
                    if c != p.cls:
                        self.ph[loc] = SObj(p.term, c)
                        grow = True
            if grow:
                continue
            self.end = end
            self.resolve()
            again = False
            rewrite = []
            for loc in list(self.guess):
                new = self.added(loc, self.get(end, loc))
                if new is None or any(self.deps(x) for x in new if not isinstance(x, str)):
                    raise OutOfReach("%s is read while it is being built, and not only appended to" % (loc,))
                new = [x if isinstance(x, str) else self.now(x) for x in new]
                old = self.guess[loc]
                if loc in self.user:
                    # a stated invariant: what the iteration adds is what is stated, under the invariant up to here
                    s2 = self.st.copy()
                    s2.pc += [self.k >= 0, self.k < znat(self.n)]
                    from compare import Cmp
                    h = self.e.hyps(s2)
                    r = Cmp(self.e).eqv(Seq(new), s2, Seq(old), s2, h, "invariant of %s" % (self.user[loc],))
                    self.e.obls[:] = [o for o in self.e.obls if o[0] != "invariant of %s is kept" % self.user[loc]]
                    self.e.obls.append(("invariant of %s is kept" % self.user[loc],) + tuple(r))
                    if r[0] == "proved":
                        # elsewhere in the iteration the same conditions may be written as stated
                        raw = self.added(loc, self.get(end, loc))
                        if len(raw) == len(old):
                            for x, y in zip(raw, old):
                                if isinstance(x, One) and isinstance(y, One) and isz(x.g) and isz(y.g):
                                    rewrite.append((x.g, y.g))
                        continue
                    raise OutOfReach("the stated invariant of %s is not shown to be kept: %s" % (self.user[loc], r[1]))
                if len(old) != len(new) or not all(alphaeq(x, y) or runs > 2 and self.proveq(x, y) for x, y in zip(old, new)):
                    self.guess[loc] = new
                    self.ph[loc] = self.guessed(loc)
                    again = True
            again = self.check_carried(end) or again
            if not again:
                self.check_fixed(end)
                if DEBUG and rewrite:
                    print("REWRITE", rewrite, "IN", [self.get(end, l) for l in ch if l[1].startswith("map#")])
                if rewrite:
                    for loc in ch:
                        if loc not in self.user:
                            v = self.get(end, loc)
                            if v is not None:
                                self.put(end, loc, fill(v, {}, rewrite))
                    self.resolve()
                break
        Ref.n = max(Ref.n, self.refmax)
        self.end = end
        if end is None:
            self.at = {}
        return self.outcomes(exits)

    # ------------------------------------------------------------ closed forms
    def deps(self, v):
        """unresolved locations a value depends on"""
        out = set(l for l in holes(v) if l not in self.at)
        acc = {}
        walk_terms(v, lambda t: zvars(t, acc))
        out |= {self.consts[n] for n in acc if n in self.consts and self.consts[n] not in self.at
                and self.ph.get(self.consts[n]) is not None and self.phname(self.consts[n]) == n}
        return out

    def phname(self, loc):
        p = self.ph[loc]
        if loc in self.fixed or loc in self.carried:
            return None
        if isinstance(p, SObj):
            p = p.term
        return p.decl().name() if isz(p) else None

    def now(self, v):
        """v with resolved placeholders replaced by their value at the start of iteration k"""
        return self.inst(v, self.k)

    def inst(self, v, k):
        vals, pairs = {}, []
        for loc, f in self.at.items():
            p = self.ph[loc]
            x = None
            nm = self.phname(loc)
            if nm is not None:
                x = f(k)
                t = p.term if isinstance(p, SObj) else p
                y = x.term if isinstance(x, SObj) else znum(x) if isnum(x) else zbool(x) if isbool(x) else x
                if z3.is_real(t) and z3.is_int(y):
                    y = z3.ToReal(y)
                pairs.append((t, y))
            else:
                vals[loc] = _Lazy(f, k)
        class M(dict):
            def get(s, q, d=None):
                return vals[q]() if q in vals else d
            def __getitem__(s, q):
                return vals[q]()
            def __contains__(s, q):
                return q in vals
        return fill(v, M(), pairs)

    def sub(self, v, t):
        return subst(v, [(self.k, t)]) if not self.k.eq(t) else v

    def resolve(self):
        self.at = {}
        todo = list(self.ph)
        for loc, (name, fn) in self.fixed.items():
            self.at[loc] = lambda t, fn=fn: self.stated_at(fn, z3.IntVal(t) if isinstance(t, int) else t)
            todo.remove(loc)
        for loc in self.carried:
            self.at[loc] = lambda t, loc=loc: self.carried_at(loc, t)
            todo.remove(loc)
        end = {loc: self.get(self.end, loc) for loc in todo}
        progress = True
        while todo and progress:
            progress = False
            for loc in list(todo):
                f = self.form(loc, end[loc])
                if f is not None:
                    self.at[loc] = f
                    todo.remove(loc)
                    progress = True
            if todo and not progress:
                progress = self.fold(todo, end)
        self.poisoned = set(todo)

    def notfirst(self, segs):
        """all of it is added under a condition that says no more than k != 0"""
        if not segs:
            return False
        for x in segs:
            if not isinstance(x, (One, Comp)) or not isz(x.g):
                return False
            acc = {}
            zvars(x.g, acc)
            if isinstance(x, Comp) and x.k.decl().name() in acc:
                return False
            if set(acc) != {self.k.decl().name()}:
                return False
            if P.check([self.k >= 1], x.g, 500) != "proved" or P.check([self.k == 0], NOT(x.g), 500) != "proved":
                return False
        return True

    def atleast1(self, t):
        return P.check(self.e.hyps(self.st), t >= 1, 500) == "proved"

    def form(self, loc, r):
        """the value at the start of iteration t as a function of t"""
        init, k = self.init_of(loc), self.k
        p = self.ph[loc]
        if loc in self.guess:
            rest = self.added(loc, r)
            if rest is None:
                return None
            if loc in self.user:
                rest = self.guess[loc]
            if any(self.deps(x) for x in rest if not isinstance(x, str)):
                return None
            rest = [x if isinstance(x, str) else self.now(x) for x in rest]
            def f(t):
                j = scoped("k", z3.IntSort())
                parts = [x if isinstance(x, str) else subst(x, [(k, j)]) for x in rest]
                if isinstance(p, Seq):
                    return Seq(list(init.segs) + ([Comp(j, t, True, parts)] if parts else []))
                if isinstance(p, MapV):
                    return MapV(init.depth, init.default, init.base, list(init.log) + ([WComp(j, t, True, parts)] if parts else []),
                                init.keysorts)
                iv = init if isinstance(init, StrV) else StrV([init])
                return StrV(list(iv.segs) + ([Comp(j, t, True, parts)] if parts else []))
            return f
        if isinstance(p, Seq):
            if isinstance(r, Seq) and r.segs and isinstance(r.segs[0], HoleSeg) and r.segs[0].loc == loc:
                rest = Seq(r.segs[1:])
                if loc in holes(rest) or self.deps(rest):
                    return None
                rest = self.now(rest)
                if self.notfirst(rest.segs):
                    # every iteration but the first adds: iterations counted from the second one
                    tail = [One(x.v, True) if isinstance(x, One) else Comp(x.k, x.n, True, x.segs) for x in rest.segs]
                    def f(t):
                        j = scoped("k", z3.IntSort())
                        t = z3.IntVal(t) if isinstance(t, int) else t
                        n = z3.simplify(t - 1) if self.atleast1(t) else z3.If(t > 0, t - 1, z3.IntVal(0))
                        return Seq(list(init.segs) + [Comp(j, n, True, [subst(x, [(k, j + 1)]) for x in tail])])
                    return f
                def f(t):
                    j = scoped("k", z3.IntSort())
                    return Seq(list(init.segs) + ([Comp(j, t, True, [subst(x, [(k, j)]) for x in rest.segs])] if rest.segs else []))
                return f
            if not self.deps(r):
                return self.overwrite(init, r)
            return None
        if isinstance(p, MapV):
            if isinstance(r, MapV) and isinstance(r.base, HoleMap) and r.base.loc == loc:
                if any(self.deps(x) for x in r.log):
                    return None
                log = [self.now(x) for x in r.log]
                def f(t):
                    j = scoped("k", z3.IntSort())
                    return MapV(init.depth, init.default, init.base,
                                list(init.log) + ([WComp(j, t, True, [subst(x, [(k, j)]) for x in log])] if log else []),
                                init.keysorts)
                return f
            return None
        if isinstance(p, StrV):
            if isinstance(r, str):
                r = StrV([r])
            if isinstance(r, StrV) and r.segs and isinstance(r.segs[0], HoleSeg) and r.segs[0].loc == loc:
                rest = StrV(r.segs[1:])
                if loc in holes(rest) or self.deps(rest):
                    return None
                rest = self.now(rest)
                iv = init if isinstance(init, StrV) else StrV([init])
                def f(t):
                    j = scoped("k", z3.IntSort())
                    return StrV(list(iv.segs) + ([Comp(j, t, True, [x if isinstance(x, str) else subst(x, [(k, j)]) for x in rest.segs])]
                                                 if rest.segs else []))
                return f
            if not self.deps(r):
                return self.overwrite(init, r)
            # guarded append: Un / merged strings
            g = self.guardedstr(loc, r)
            if g is not None:
                iv = init if isinstance(init, StrV) else StrV([init])
                def f(t):
                    j = scoped("k", z3.IntSort())
                    return StrV(list(iv.segs) + [Comp(j, t, True, [subst(x, [(k, j)]) for x in g])])
                return f
            return None
        if isinstance(p, (Hole, SObj)) or (isz(p) and not z3.is_arith(p)) or isz(p):
            dep = self.deps(r)
            if not dep:
                return self.overwrite(init, self.now(r))
            if isz(p) and z3.is_arith(p):
                d = self.diff(znum(r), p)
                if d is not None and not self.deps(d):
                    d = self.now(d)
                    def f(t):
                        j = scoped("k", z3.IntSort())
                        s = SUM(j, t, subst(d, [(k, j)]))
                        a = znum(init)
                        if z3.is_int(a) != z3.is_int(s):
                            a, s = toreal(a), toreal(s)
                        return s if not isz(init) and init == 0 else a + s
                    return f
                ex = self.extremum(p, znum(r))
                if ex is not None and not any(self.deps(x) for x in ex[2]):
                    less, items, _ = ex
                    items = self.xnow(items)
                    def f(t):
                        j = scoped("k", z3.IntSort())
                        a = znum(init)
                        if z3.is_real(p):
                            a = toreal(a)
                        return P.EXTREMUM(a, [P.XComp(j, t, True, P.xsubst(items, [(k, j)]))], less)
                    return f
            lw = self.lastwrite(loc, r)
            if lw is not None:
                g, v = lw
                if self.deps(v) or (isz(g) and self.deps(g)):
                    return None
                g, v = self.now(g), self.now(v)
                def f(t):
                    from engine import vmerge
                    e, i = EXIDX(k, t, zbool(g), last=True)
                    return vmerge(e, subst(v, [(k, i)]), init)
                return f
        return None

    def xnow(self, items):
        return [P.XLeaf(self.now(x.g), self.now(x.v)) if isinstance(x, P.XLeaf) else
                P.XComp(x.k, self.now(x.n), self.now(x.g), self.xnow(x.items)) for x in items]

    def extremum(self, c, r):
        """(less, items, terms): the iteration makes c the least (greatest) of c and the items' values"""
        for less in (False, True):
            items = self.ext_items(c, z3.simplify(r), less)
            if items:
                terms, own = [], []
                P.xterms(items, terms, own)
                return less, items, terms
        return None

    def ext_items(self, c, r, less, g=True):
        name = c.decl().name()
        if r.eq(c):
            return []
        if z3.is_app(r) and r.decl().name() in P.DEFS:
            d = P.DEFS[r.decl().name()]
            if d.kind == "EXT" and d.less == less and r.arg(0).eq(c) and not any(name in zvars(x) for x in r.children()[1:]):
                its = P.xsubst(d.items, list(zip(d.params, r.children()[1:])))
                return [P.XComp(scoped("k", z3.IntSort()), z3.IntVal(1), g, its)] if g is not True else its
            return None
        if not z3.is_app_of(r, z3.Z3_OP_ITE):
            return None
        cond, a, b = r.children()
        if name not in zvars(cond):
            x, y = self.ext_items(c, a, less, AND(g, cond)), self.ext_items(c, b, less, AND(g, z3.Not(cond)))
            return None if x is None or y is None else x + y
        x = b if a.eq(c) else a if b.eq(c) else None
        if x is None or name in zvars(x):
            return None
        worse = x + 1 if less else x - 1
        upd = cond if b.eq(c) else z3.Not(cond)
        gg = z3.simplify(z3.substitute(upd, (c, worse)))
        better = x < c if less else c < x
        same = r == z3.If(z3.And(gg, better), x, c)
        if self.e.holds(self.end, same):
            return [P.XLeaf(AND(g, gg), x)]
        return None

    def proveq(self, x, y):
        """two writes or list items are the same for every index of this loop, by proof"""
        s = self.st.copy()
        s.pc += [self.k >= 0, self.k < znat(self.n)]
        return sameterms(x, y, lambda a, b: self.e.holds(s, a == b if a.sort() == b.sort() else znum(a) == znum(b)))

    def newkeys(self, x):
        if isinstance(x, W):
            return all(self.e.newsym(q) for q in x.keys)
        return all(self.newkeys(y) for y in x.log)

    def overwrite(self, init, r):
        from engine import vmerge
        k = self.k
        def f(t):
            if isinstance(t, int):
                t = z3.IntVal(t)
            t = z3.simplify(t)
            if z3.is_int_value(t):
                return init if t.as_long() <= 0 else subst(r, [(k, z3.simplify(t - 1))])
            c = self.e.decide(self.st, t > 0)
            v = subst(r, [(k, z3.simplify(t - 1))])
            if isinstance(v, Seq) and isinstance(init, Ref):
                return v if c is True else Poison(("dead",))
            return vmerge(c, v, init)
        return f

    def diff(self, r, c):
        """r - c if the result is free of c"""
        if r.eq(c):
            return z3.RealVal(0) if z3.is_real(c) else z3.IntVal(0)
        name = c.decl().name()
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            if name in zvars(r.arg(0)):
                return None
            a, b = self.diff(r.arg(1), c), self.diff(r.arg(2), c)
            return None if a is None or b is None else z3.If(r.arg(0), a, b)
        if z3.is_add(r):
            out, seen = [], False
            for x in r.children():
                if not seen and name in zvars(x):
                    d = self.diff(x, c)
                    if d is None:
                        return None
                    seen = True
                    out.append(d)
                elif name in zvars(x):
                    return None
                else:
                    out.append(x)
            return z3.simplify(z3.Sum(out)) if seen else None
        if z3.is_app_of(r, z3.Z3_OP_SUB) and name not in zvars(z3.Sum(r.children()[1:])):
            d = self.diff(r.arg(0), c)
            return None if d is None else d - z3.Sum(r.children()[1:])
        if z3.is_app_of(r, z3.Z3_OP_TO_REAL) and r.arg(0).eq(c):
            return z3.RealVal(0)
        d = z3.simplify(r - c, som=True)
        return d if name not in zvars(d) else None

    def lastwrite(self, loc, r):
        """(guard, value): the iteration writes value when guard, else keeps"""
        p = self.ph[loc]
        t = p.term if isinstance(p, SObj) else p
        if isinstance(r, SObj):
            x = self.lastwrite_z(t, r.term) if isz(t) else None
            return None if x is None else (x[0], SObj(x[1], r.cls))
        if isz(r) and isz(t):
            if z3.is_bool(r):
                r1 = z3.simplify(z3.substitute(r, (t, z3.BoolVal(True))))
                r0 = z3.simplify(z3.substitute(r, (t, z3.BoolVal(False))))
                # value r0 when r0 == r1, else keeps (monotone in c)
                g = z3.simplify(r0 == r1)
                if self.e.holds(self.end, z3.Implies(r0, r1)):
                    return g, r0
                return None
            return self.lastwrite_z(t, r)
        if isinstance(r, Un):
            keep, alts = False, []
            for g, x in r.alts:
                if isinstance(x, Hole) and x.loc == loc:
                    keep = OR(keep, g)
                elif loc in holes(x) or loc in self.deps(x):
                    lw = self.lastwrite(loc, x)
                    if lw is None:
                        return None
                    keep = OR(keep, AND(g, NOT(lw[0])))
                    alts.append((AND(g, lw[0]), lw[1]))
                else:
                    alts.append((g, x))
            if keep is False or not alts:
                return None
            return NOT(keep), (Un(alts) if len(alts) > 1 else alts[0][1])
        return None

    def lastwrite_z(self, c, r):
        name = c.decl().name()
        if r.eq(c):
            return False, r
        if name not in zvars(r):
            return True, r
        if z3.is_app_of(r, z3.Z3_OP_ITE) and name not in zvars(r.arg(0)):
            a, b = self.lastwrite_z(c, r.arg(1)), self.lastwrite_z(c, r.arg(2))
            if a is None or b is None:
                return None
            g = r.arg(0)
            w = OR(AND(g, a[0]), AND(NOT(g), b[0]))
            if a[0] is False:
                return w, b[1]
            if b[0] is False:
                return w, a[1]
            return w, z3.If(g, a[1], b[1])
        return None

    def guardedstr(self, loc, r):
        """append pieces under guards: Un of strings all starting with the placeholder"""
        if not isinstance(r, Un):
            return None
        out = []
        for g, x in r.alts:
            if isinstance(x, str):
                x = StrV([x])
            if not (isinstance(x, StrV) and x.segs and isinstance(x.segs[0], HoleSeg) and x.segs[0].loc == loc):
                return None
            rest = StrV(x.segs[1:])
            if loc in holes(rest) or self.deps(rest) or (isz(g) and self.deps(g)):
                return None
            out.append((self.now(g), [x if isinstance(x, str) else self.now(x) for x in rest.segs]))
        return self.pieces(out)

    def fold(self, todo, end):
        """the remaining scalar locations that depend only on each other"""
        sc = [l for l in todo if self.phname(l) is not None]
        while True:
            bad = [l for l in sc if any(d not in sc for d in self.deps(end[l]))]
            if not bad:
                break
            sc = [l for l in sc if l not in bad]
        if not sc:
            return False
        cs, inits, steps = [], [], []
        for l in sc:
            p, v, i = self.ph[l], end[l], self.init_of(l)
            t = p.term if isinstance(p, SObj) else p
            v = self.now(v)
            v = v.term if isinstance(v, SObj) else zbool(v) if z3.is_bool(t) else znum(v)
            i = i.term if isinstance(i, SObj) else zbool(i) if z3.is_bool(t) else znum(i) if z3.is_arith(t) else i
            if z3.is_real(t):
                v, i = toreal(v), toreal(i)
            cs.append(t)
            inits.append(i)
            steps.append(v)
        for j, l in enumerate(sc):
            p = self.ph[l]
            def f(t, j=j, p=p):
                x = FOLD(self.k, t, cs, inits, steps)[j]
                return SObj(x, p.cls) if isinstance(p, SObj) else x
            self.at[l] = f
            todo.remove(l)
        return True

    # ------------------------------------------------------------ outcomes
    def outcomes(self, exits):
        e, st, k, n = self.e, self.st, self.k, self.n
        base = len(st.pc) + 2
        outs = []
        conds = []
        for kind, s, v in exits:
            g = AND(*s.pc[base:])
            if isz(g):
                if self.deps(g):
                    raise OutOfReach("exit of a loop depends on a value without closed form")
                g = self.now(g)
            conds.append(g)
        ex = False
        if exits:
            ex, idx = EXIDX(k, n, zbool(OR(*conds)))
            for (kind, s, v), g in zip(exits, conds):
                s2 = s.copy()
                # the range of idx and the exit condition at idx follow from ex
                s2.pc = list(st.pc) + [ex] + ([subst(g, [(k, idx)])] if isz(g) and len(exits) > 1 else [])
                ch = self.changed(s)
                # carried locations hold their value at idx; then what this path did
                for loc in set(ch) | set(self.ph):
                    x = self.get(s, loc)
                    if x is None:
                        x = self.init_of(loc)
                    s2_val = self.leave(x, idx)
                    self.put(s2, loc, s2_val)
                for i in list(s2.heap):
                    if i not in st.heap and not (isinstance(i, str) and i.startswith("attr:")):
                        s2.heap[i] = self.leave(s2.heap[i], idx)
                v2 = self.leave(v, idx) if not isinstance(v, ExcV) else v
                if kind == "raise":
                    e.sinks[-1].append((s2, v2))
                else:
                    outs.append((kind, s2, v2))
        if self.end is None and not self.can_skip():
            return outs
        s = st.copy()
        s.pc = list(st.pc)
        if self.end is None:
            # every iteration leaves: going on means there was none
            s.pc.append(znat(n) <= 0)
            if not e.dead(s):
                outs.append(("next", s, None))
            return outs
        if exits:
            s.pc.append(NOT(ex))
        for loc in self.ph:
            if loc in self.at:
                v = self.at[loc](znat(n))
            else:
                v = Poison(("dead", loc))
                if loc[0] != "env":
                    init = self.init_of(loc)
                    if isinstance(init, Seq):
                        v = Seq([HoleSeg(("dead", loc))])
                    elif isinstance(init, MapV):
                        v = MapV(init.depth, init.default, HoleMap(("dead", loc)))
            self.put(s, loc, v)
        outs.append(("next", s, None))
        return outs

    def can_skip(self):
        return not self.e.holds(self.st, znat(self.n) > 0)

    def leave(self, v, idx):
        if v is None or isinstance(v, (bool, int, str)):
            return v
        v = self.now(v)
        return subst(v, [(self.k, idx)])


def alphaeq(a, b, d=0):
    """equal up to the names of bound indices"""
    if a is b:
        return True
    if isz(a) or isz(b):
        return isz(a) and isz(b) and (a.eq(b) or (a.sort() == b.sort() and z3.simplify(a).eq(z3.simplify(b))))
    if type(a) is not type(b):
        return False
    al = lambda xs, ys: len(xs) == len(ys) and all(alphaeq(x, y, d) for x, y in zip(xs, ys))  # noqa: E731
    if isinstance(a, (Comp, WComp)):
        if not (alphaeq(a.n, b.n, d)):
            return False
        kk = z3.Int("#b%d" % d)
        P.SCOPED[kk.decl().name()] = kk
        xs, ys = (a.segs, b.segs) if isinstance(a, Comp) else (a.log, b.log)
        s1 = lambda x: x if isinstance(x, str) else subst(x, [(a.k, kk)])  # noqa: E731
        s2 = lambda x: x if isinstance(x, str) else subst(x, [(b.k, kk)])  # noqa: E731
        return len(xs) == len(ys) and alphaeq(s1(a.g), s2(b.g), d + 1) and \
            all(alphaeq(s1(x), s2(y), d + 1) for x, y in zip(xs, ys))
    if isinstance(a, W):
        return a.kind == b.kind and al(a.keys, b.keys) and alphaeq(a.val, b.val, d) and alphaeq(a.g, b.g, d)
    if isinstance(a, One):
        return alphaeq(a.v, b.v, d) and alphaeq(a.g, b.g, d)
    if isinstance(a, Un):
        return len(a.alts) == len(b.alts) and all(alphaeq(g, h, d) and alphaeq(x, y, d) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, Tup):
        return al(a.items, b.items)
    if isinstance(a, (Seq, StrV)):
        return al(a.segs, b.segs)
    if isinstance(a, SObj):
        return a.cls == b.cls and a.term.eq(b.term)
    if isinstance(a, Base):
        return a.name == b.name and al(a.args, b.args) and alphaeq(a.off, b.off, d) and alphaeq(a.n, b.n, d)
    if isinstance(a, StrOf):
        return a.spec == b.spec and alphaeq(a.v, b.v, d)
    from engine import samev
    return samev(a, b)


def sameterms(a, b, eq):
    """same structure, with terms related by eq; nothing under binders"""
    al = lambda xs, ys: len(xs) == len(ys) and all(sameterms(x, y, eq) for x, y in zip(xs, ys))  # noqa: E731
    if isz(a) or isz(b) or isinstance(a, bool) or isinstance(b, bool):
        if not (isz(a) or isz(b)):
            return a == b
        try:
            if isbool(a) and isbool(b):
                a, b = zbool(a), zbool(b)
            elif isnum(a) and isnum(b):
                a, b = znum(a), znum(b)
        except Exception:
            return False
        return isz(a) and isz(b) and (a.eq(b) or ((a.sort() == b.sort() or z3.is_arith(a) and z3.is_arith(b)) and eq(a, b)))
    if type(a) is not type(b):
        return False
    if isinstance(a, W):
        return a.kind == b.kind and al(a.keys, b.keys) and sameterms(a.val, b.val, eq) and sameterms(a.g, b.g, eq)
    if isinstance(a, One):
        return sameterms(a.v, b.v, eq) and sameterms(a.g, b.g, eq)
    if isinstance(a, Tup):
        return al(a.items, b.items)
    if isinstance(a, SObj):
        return a.cls == b.cls and sameterms(a.term, b.term, eq)
    return alphaeq(a, b)


class _Lazy:
    def __init__(self, f, k):
        self.f, self.k, self.v, self.done = f, k, None, False

    def __call__(self):
        if not self.done:
            self.v, self.done = self.f(self.k), True
        return self.v


def NeedLoc_():
    from engine import NeedLoc
    return NeedLoc
