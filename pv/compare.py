"""Equality of two outcomes (implementation and contract) as proof obligations."""
import z3
from values import *
import prove as P
from prove import scoped, znat
from engine import samebase, base_len, base_at, vmerge, keyterm, mkval, samev, UNBOUND, Unbound, NeedLoc, Inst

ORDER = {"proved": 0, "unknown": 1, "refuted": 2}


def worst(rs):
    """rs: list of (status, detail)"""
    r = ("proved", "")
    for x in rs:
        if ORDER[x[0]] > ORDER[r[0]]:
            r = x
    return r


def prove(h, goal, what):
    r = P.prove(h, goal)
    if r == "proved":
        return ("proved", "")
    return ("refuted" if r == "sat" else "unknown", what + ": " + short(goal))


def short(t):
    s = str(t).replace("\n", " ")
    return " ".join(s.split())[:400]


def feasible(h):
    return P.feasible(h, 1500)


def atom(t):
    """an atomic condition of an if-then-else or of the logical structure of a goal"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_eq(x) and z3.is_bool(x.arg(0)):
            for c in x.children():
                if z3.is_bool(c) and not (z3.is_true(c) or z3.is_false(c)):
                    y = atom(c)
                    if y is not None:
                        return y
                    if not any(z3.is_app_of(z, z3.Z3_OP_ITE) for z in c.children()):
                        return c
        stack.extend(reversed(x.children()))
    return None


class Cmp:
    def __init__(self, ea, eb=None):
        self.e = ea
        self.seen = set()

    def eqv(self, a, sa, b, sb, h, path, depth=0):
        if depth > 14:
            return ("unknown", path + ": too deep")
        e = self.e
        if samev(a, b) and not isinstance(a, (Ref, SObj, Seq, Tup, MapView, Un)):
            return ("proved", "")
        if isinstance(a, Hole) or isinstance(b, Hole):
            return ("unknown", path + ": value without closed form")
        if isinstance(a, Un) or isinstance(b, Un):
            rs = []
            for g, x in (a.alts if isinstance(a, Un) else [(True, a)]):
                for g2, y in (b.alts if isinstance(b, Un) else [(True, b)]):
                    h2 = h + [zbool(q) for q in (g, g2) if q is not True]
                    if any(q is False for q in (g, g2)) or not feasible(h2):
                        continue
                    rs.append(self.eqv(x, sa, y, sb, h2, path, depth + 1))
            return worst(rs)
        if isinstance(a, Unbound) or isinstance(b, Unbound):
            return ("proved", "") if isinstance(a, Unbound) and isinstance(b, Unbound) else self.differ(h, path, a, b)
        if a is None or b is None:
            return ("proved", "") if a is None and b is None else self.differ(h, path, a, b)
        if isbool(a) and isbool(b):
            return prove(h, zbool(a) == zbool(b), path)
        if isnum(a) and isnum(b):
            x, y = znum(a), znum(b)
            if z3.is_int(x) != z3.is_int(y):
                x, y = toreal(x), toreal(y)
            return prove(h, x == y, path)
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return ("proved", "") if a == b else self.differ(h, path, a, b)
            return self.eqstr(a, sa, b, sb, h, path, depth)
        # lists
        la, lb = self.aslist(a, sa), self.aslist(b, sb)
        if la is not None and lb is not None:
            return self.eqseq(la, sa, lb, sb, h, path, depth)
        ma, mb = self.asmap(a, sa), self.asmap(b, sb)
        if ma is not None and mb is not None:
            return self.eqmap(ma, sa, mb, sb, h, path, depth)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return self.differ(h, path, a, b)
            return worst([self.eqv(x, sa, y, sb, h, "%s[%d]" % (path, i), depth + 1)
                          for i, (x, y) in enumerate(zip(a.items, b.items))])
        oa, ob = self.isobj(a, sa), self.isobj(b, sb)
        if oa and ob:
            return self.eqobj(a, sa, b, sb, h, path, depth)
        if isinstance(a, (Cls, ExcV)) and isinstance(b, (Cls, ExcV)):
            return ("proved", "") if (a.name if isinstance(a, Cls) else a.cls) == (b.name if isinstance(b, Cls) else b.cls) \
                else self.differ(h, path, a, b)
        if isz(a) and isz(b):
            if a.sort() != b.sort():
                return self.differ(h, path, a, b)
            return prove(h, a == b, path)
        if (isz(a) and isinstance(b, (str, StrV))) or (isz(b) and isinstance(a, (str, StrV))):
            try:
                x, y = keyterm(a), keyterm(b)
            except OutOfReach as ex:
                return ("unknown", "%s: %s" % (path, ex))
            return prove(h, x == y, path) if x.sort() == y.sort() else self.differ(h, path, a, b)
        if type(a) is type(b) and isinstance(a, Fn):
            return ("proved", "") if a.node is b.node else ("unknown", path + ": functions")
        return self.differ(h, path, a, b)

    def differ(self, h, path, a, b):
        if not feasible(h):
            return ("proved", "")
        r = P.check(h, z3.BoolVal(False))
        if r == "proved":
            return ("proved", "")
        return ("refuted" if r == "sat" and not self.abstract(h) else "unknown", "%s: %s against %s" % (path, rep(a), rep(b)))

    @staticmethod
    def abstract(h):
        a, _ = P.apps([zbool(x) for x in h])
        return any(P.DEFS[x.decl().name()].kind in ("SUM", "FOLD") for x in a)

    def aslist(self, v, st):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Seq):
            return st.heap[v.id]
        if isinstance(v, MapView):
            m = st.heap[v.ref.id]
            if len(v.keys) == m.depth:
                x = self.e.lookup(m, v.keys, st)
                return self.aslist(x, st)
        return None

    def asmap(self, v, st):
        if isinstance(v, MapV):
            return (v, ())
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), MapV):
            return (st.heap[v.id], ())
        if isinstance(v, MapView) and len(v.keys) < st.heap[v.ref.id].depth:
            return (st.heap[v.ref.id], v.keys)
        return None

    def isobj(self, v, st):
        return isinstance(v, SObj) or (isinstance(v, Ref) and isinstance(st.heap.get(v.id), Inst))

    # ------------------------------------------------------------ objects
    def eqobj(self, a, sa, b, sb, h, path, depth):
        e = self.e
        na = isinstance(a, SObj) and e.newsym(a.term)
        nb = isinstance(b, SObj) and e.newsym(b.term)
        ca = isinstance(a, Ref) or na
        cb = isinstance(b, Ref) or nb
        if not ca and not cb:
            if isinstance(a, SObj) and isinstance(b, SObj):
                if z3.is_app_of(a.term, z3.Z3_OP_ITE) and self.mixed(a.term):
                    return self.split(a, sa, b, sb, h, path, depth, True)
                if z3.is_app_of(b.term, z3.Z3_OP_ITE) and self.mixed(b.term):
                    return self.split(a, sa, b, sb, h, path, depth, False)
                return prove(h, a.term == b.term, path)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return ("proved", "")     # same distinguished object; its content is compared as part of the frame
        if ca and cb:
            if isinstance(a, Ref) and a.id in self.inputs or isinstance(b, Ref) and b.id in self.inputs:
                return self.differ(h, path, a, b)
            key = (str(a), str(b))
            if key in self.seen:
                return ("proved", "")
            self.seen.add(key)
            cla = sa.heap[a.id].cls if isinstance(a, Ref) else e.news[na]
            clb = sb.heap[b.id].cls if isinstance(b, Ref) else e.news[nb]
            if cla != clb:
                return self.differ(h, path, a, b)
            fs = self.fields(a, sa, na) | self.fields(b, sb, nb)
            rs = []
            for f in sorted(fs):
                rs.append(self.eqv(self.field(a, sa, f), sa, self.field(b, sb, f), sb, h, "%s.%s" % (path, f), depth + 1))
            return worst(rs)
        # one created, one from the input (or an if-then-else of both)
        for v, first in ((a, True), (b, False)):
            if isinstance(v, SObj) and z3.is_app_of(v.term, z3.Z3_OP_ITE):
                return self.split(a, sa, b, sb, h, path, depth, first)
        return self.differ(h, path, a, b)

    def mixed(self, t):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return self.mixed(t.arg(1)) or self.mixed(t.arg(2))
        return bool(self.e.newsym(t))

    def split(self, a, sa, b, sb, h, path, depth, first):
        v = a if first else b
        c = v.term.arg(0)
        rs = []
        for q, t in ((c, v.term.arg(1)), (z3.Not(c), v.term.arg(2))):
            if feasible(h + [q]):
                w = SObj(t, v.cls)
                rs.append(self.eqv(w if first else a, sa, b if first else w, sb, h + [q], path, depth + 1))
        return worst(rs)

    def fields(self, o, st, new):
        if isinstance(o, Ref):
            return set(st.heap[o.id].fields)
        out = set()
        for key, m in st.heap.items():
            if isinstance(key, str) and key.startswith("attr:"):
                if any(self.writes(w, new) for w in m.log):
                    out.add(key[5:].split(".")[1])
        return out

    def writes(self, w, new):
        if isinstance(w, W):
            return any(self.e.newsym(k) == new for k in w.keys)
        return any(self.writes(x, new) for x in w.log)

    def field(self, o, st, f):
        if isinstance(o, Ref):
            return st.heap[o.id].fields.get(f, UNBOUND)
        return self.e.lookup(st.heap[self.e.attr_key(o.cls, f)], (o.term,), st.copy())

    # ------------------------------------------------------------ lists
    def eqseq(self, a, sa, b, sb, h, path, depth):
        A, B = list(a.segs), list(b.segs)
        if len(A) == len(B) and all(samev(x, y) for x, y in zip(A, B)) and not any(isinstance(s, (One, Comp)) for s in A):
            return ("proved", "")
        rs, i, j = [], 0, 0
        # aligned segments
        ok = len(A) == len(B)
        if ok:
            for n, (x, y) in enumerate(zip(A, B)):
                r = self.eqseg(x, sa, y, sb, h, "%s<%d>" % (path, n), depth)
                rs.append(r)
                if r[0] != "proved":
                    ok = False
                    break
            if ok:
                return worst(rs)
        filtered = any(isinstance(x, Comp) and (x.g is not True or any(isinstance(y, One) and y.g is not True for y in x.segs))
                       for x in A + B)
        if filtered and any(isinstance(x, Comp) and x.g is not True and self.indep(x) for x in A + B):
            r3 = self.normalised(a, sa, b, sb, h, path, depth)
            if r3 is not None:
                return r3
        if filtered and self.samefilter(a, sa, b, sb, h, path, depth):
            return ("proved", "")
        for p, sp, q, sq in ((a, sa, b, sb), (b, sb, a, sa)) if filtered else ():
            if self.allbutone(p, sp, q, sq, h, path, depth):
                return ("proved", "")
        r2 = self.pointwise(a, sa, b, sb, h, path, depth)
        if r2 is not None:
            return r2
        r3 = self.normalised(a, sa, b, sb, h, path, depth)
        if r3 is not None:
            return r3
        if rs and len(A) == len(B):
            r = worst(rs)
            return ("unknown" if r[0] == "refuted" else r[0], r[1])
        return ("unknown", "%s: lists of different shape %s / %s" % (path, rep(a), rep(b)))

    def byplace(self, a, s, p):
        """(number of places, is there an element at place p, the element), for a list with at most one element per place"""
        e, tot, alts = self.e, z3.IntVal(0), []
        for x in a.segs:
            if isinstance(x, Comp) and len(x.segs) == 1 and isinstance(x.segs[0], One):
                n, k = znat(x.n), z3.simplify(p - tot)
                g, v = subst(zbool(AND(x.g, x.segs[0].g)), [(x.k, k)]), subst(x.segs[0].v, [(x.k, k)])
            elif isinstance(x, Base):
                n, g = znum(base_len(x)), True
                v = base_at(x, z3.simplify(p - tot))
            elif isinstance(x, One):
                n, g, v = z3.IntVal(1), x.g, x.v
            else:
                return None
            tot = z3.simplify(tot + n)
            alts.append((tot, g, v))
        if not alts:
            return None
        g, v = alts[-1][1:]
        for end, g2, v2 in reversed(alts[:-1]):
            g, v = ITE(p < end, zbool(g2), zbool(g)), vmerge(p < end, v2, v)
        return tot, g, v

    def samefilter(self, a, sa, b, sb, h, path, depth):
        """two lists over the same places: an element at the same places, and the same there"""
        p = scoped("i", z3.IntSort())
        try:
            x, y = self.byplace(a, sa, p), self.byplace(b, sb, p)
            if x is None or y is None or P.check(h, x[0] == y[0], 2000) != "proved":
                return False
            h2 = h + [p >= 0, p < x[0]]
            if prove(h2, zbool(x[1]) == zbool(y[1]), path)[0] != "proved":
                return False
            return self.eqv(x[2], sa, y[2], sb, h2 + [zbool(x[1])], path, depth + 1)[0] == "proved"
        except (OutOfReach, NeedLoc):
            return False

    def allbutone(self, a, sa, b, sb, h, path, depth):
        """a list that leaves out one place (two slices) and the same list filtered"""
        A, B = a.segs, b.segs
        if len(A) != 2 or len(B) != 1 or not isinstance(B[0], Comp) or len(B[0].segs) != 1 or not isinstance(B[0].segs[0], One):
            return False
        e, c = self.e, B[0]
        try:
            n1, n2 = znum(e.seglen(A[0])), znum(e.seglen(A[1]))
            g = zbool(AND(c.g, c.segs[0].g))
            k = scoped("i", z3.IntSort())
            at = lambda t: z3.substitute(g, (c.k, t))  # noqa: E731
            ok = prove(h, n1 + n2 + 1 == znat(c.n), path)[0] == "proved" and prove(h, z3.Not(at(n1)), path)[0] == "proved"
            for seg, n, shift in ((A[0], n1, 0), (A[1], n2, n1 + 1)):
                if not ok:
                    return False
                h2 = h + [k >= 0, k < n]
                s = sa.copy()
                s.pc = list(h2)
                p = z3.simplify(k + shift)
                ok = prove(h2, at(p), path)[0] == "proved" and \
                    self.eqv(e.seg_at(seg, k, s), s, subst(c.segs[0].v, [(c.k, p)]), sb, h2, path, depth + 1)[0] == "proved"
            return ok
        except (OutOfReach, NeedLoc):
            return False

    def clean(self, segs, h):
        """drops segments that are empty, one guard per segment"""
        out = []
        for s in segs:
            if isinstance(s, One) and s.g is not True:
                if not feasible(h + [zbool(s.g)]):
                    continue
                if P.check(h, zbool(s.g), 2000) == "proved":
                    s = One(s.v)
            elif isinstance(s, Comp):
                if s.g is not True and self.indep(s):
                    if not feasible(h + [zbool(s.g)]):
                        continue
                    if P.check(h, zbool(s.g), 2000) == "proved":
                        s = Comp(s.k, s.n, True, s.segs)
                if isz(znat(s.n)) and P.check(h, znat(s.n) <= 0, 1000) == "proved":
                    continue
                hk = h + [s.k >= 0, s.k < znat(s.n)] + ([zbool(s.g)] if s.g is not True else [])
                inner = self.clean(s.segs, hk)
                if not inner:
                    continue
                s = Comp(s.k, s.n, s.g, inner)
            elif isinstance(s, Base) and s.n is not None and P.check(h, znat(s.n) <= 0, 1000) == "proved":
                continue
            out.append(s)
        return out

    def indep(self, s):
        return isz(s.g) and s.k.decl().name() not in zvars(s.g)

    def normalised(self, a, sa, b, sb, h, path, depth):
        A, B = self.clean(a.segs, h), self.clean(b.segs, h)
        if len(A) == len(a.segs) and len(B) == len(b.segs) and len(A) == len(B):
            pass
        # split on a guard that does not vary inside the list
        for s in A + B:
            if isinstance(s, (One, Comp)) and s.g is not True and (isinstance(s, One) or self.indep(s)) and depth < 10:
                rs = []
                for q in (zbool(s.g), z3.Not(zbool(s.g))):
                    if feasible(h + [q]):
                        rs.append(self.eqseq(Seq(A), sa, Seq(B), sb, h + [q], path, depth + 1))
                return worst(rs)
        if len(A) == len(B) and (len(A) != len(a.segs) or len(B) != len(b.segs)):
            return self.eqseq(Seq(A), sa, Seq(B), sb, h, path, depth + 1)
        return None

    def eqseg(self, x, sx, y, sy, h, path, depth):
        if isinstance(x, One) and isinstance(y, One):
            r = ("proved", "") if x.g is True and y.g is True else prove(h, zbool(x.g) == zbool(y.g), path + " present")
            h2 = h + [zbool(g) for g in (x.g,) if g is not True]
            return worst([r, self.eqv(x.v, sx, y.v, sy, h2, path, depth + 1)])
        if isinstance(x, Base) and isinstance(y, Base) and x.name == y.name and len(x.args) == len(y.args):
            rs = [prove(h, p == q, path) for p, q in zip(x.args, y.args)]
            rs.append(prove(h, znum(base_len(x)) == znum(base_len(y)), path + " length"))
            rs.append(prove(h, znum(x.off if x.off is not None else 0) == znum(y.off if y.off is not None else 0), path))
            return worst(rs)
        if isinstance(x, Base) and isinstance(y, Comp):
            k = scoped("k", z3.IntSort())
            return self.eqseg(Comp(k, base_len(x), True, [One(base_at(x, k))]), sx, y, sy, h, path, depth)
        if isinstance(x, Comp) and isinstance(y, Base):
            k = scoped("k", z3.IntSort())
            return self.eqseg(x, sx, Comp(k, base_len(y), True, [One(base_at(y, k))]), sy, h, path, depth)
        if isinstance(x, Comp) and isinstance(y, Comp):
            k = scoped("k", z3.IntSort())
            rs = []
            # empty under equal guards
            n1, n2 = znat(x.n), znat(y.n)
            r = prove(h, z3.Or(n1 == n2, z3.And(n1 <= 0, n2 <= 0)), path + " count")
            if r[0] != "proved":
                return r
            h2 = h + [k >= 0, k < n1]
            gx = subst(x.g, [(x.k, k)]) if isz(x.g) else x.g
            gy = subst(y.g, [(y.k, k)]) if isz(y.g) else y.g
            if len(x.segs) == 1 and isinstance(x.segs[0], One) and len(y.segs) == 1 and isinstance(y.segs[0], One):
                ox, oy = x.segs[0], y.segs[0]
                gx = AND(gx, subst(ox.g, [(x.k, k)]) if isz(ox.g) else ox.g)
                gy = AND(gy, subst(oy.g, [(y.k, k)]) if isz(oy.g) else oy.g)
                r = ("proved", "") if gx is True and gy is True else prove(h2, zbool(gx) == zbool(gy), path + " filter")
                if r[0] != "proved":
                    return r
                h3 = h2 + ([zbool(gx)] if gx is not True else [])
                if not feasible(h3):
                    return ("proved", "")
                return self.eqv(subst(ox.v, [(x.k, k)]), sx, subst(oy.v, [(y.k, k)]), sy, h3, path + "[k]", depth + 1)
            ax = Seq([subst(s, [(x.k, k)]) for s in x.segs])
            by = Seq([subst(s, [(y.k, k)]) for s in y.segs])
            if gx is True and gy is True:
                return self.eqseq(ax, sx, by, sy, h2, path + "[k]", depth + 1)
            r = prove(h2, zbool(gx) == zbool(gy), path + " filter")
            if r[0] == "proved":
                return self.eqseq(ax, sx, by, sy, h2 + ([zbool(gx)] if gx is not True else []), path + "[k]", depth + 1)
            from engine import guardsegs
            ax = Seq(guardsegs(gx, ax.segs)) if gx is not True else ax
            by = Seq(guardsegs(gy, by.segs)) if gy is not True else by
            return self.eqseq(ax, sx, by, sy, h2, path + "[k]", depth + 1)
        return ("unknown", path + ": segments %s / %s" % (rep(x), rep(y)))

    def pointwise(self, a, sa, b, sb, h, path, depth):
        """equal length and equal elements at every position"""
        e = self.e
        try:
            la, lb = znum(e.seqlen(a)), znum(e.seqlen(b))
            r = prove(h, la == lb, path + " length")
            if r[0] != "proved":
                return r if r[0] == "refuted" else None
            if P.check(h, la <= 0, 1000) == "proved":
                return ("proved", "")
            i = scoped("i", z3.IntSort())
            h2 = h + [i >= 0, i < la]
            s = sa.copy()
            s.pc = list(h2)
            x = e.at_raw(a, i, s)
            s2 = sb.copy()
            s2.pc = list(h2)
            y = e.at_raw(b, i, s2)
        except (OutOfReach, NeedLoc):
            return None
        return self.eqv(x, sa, y, sb, h2, path + "[i]", depth + 1)

    # ------------------------------------------------------------ maps
    def eqmap(self, a, sa, b, sb, h, path, depth, values=False):
        (ma, ka), (mb, kb) = a, b
        e = self.e
        if ma.depth - len(ka) != mb.depth - len(kb):
            return ("unknown", path + ": maps of different depth")
        if samev(ma, mb) and len(ka) == len(kb) and all(x.eq(y) for x, y in zip(ka, kb)):
            return ("proved", "")
        if values and not ka and not kb:
            ks = [scoped("key", s) for s in self.keysorts(ma) or self.keysorts(mb)]
            s1, s2 = sa.copy(), sb.copy()
            s1.pc, s2.pc = list(h), list(h)
            x, y = e.lookup(ma, ks, s1), e.lookup(mb, ks, s2)
            return self.eqv(x, s1, y, s2, h, "%s[%s]" % (path, ",".join(map(str, ks))), depth + 1)
        if not ka and not kb and ma.depth > 1 and samebase(ma.base, mb.base) and samev(ma.default, mb.default) and \
                any(isinstance(w, WComp) for w in ma.log) and len(ma.log) == len(mb.log):
            r = self.samelogs(ma, ma.log, sa, mb, mb.log, sb, h, path)
            if r:
                return ("proved", "")
            if r is False:
                return ("unknown", path + ": what one round writes")
        sorts = self.keysorts(ma) or self.keysorts(mb)
        if sorts is None:
            return ("proved", "") if not self.nonempty(ma) and not self.nonempty(mb) else ("unknown", path + ": keys")
        ks = [scoped("key", s) for s in sorts]
        fa = tuple(ka) + tuple(ks[len(ka):])
        fb = tuple(kb) + tuple(ks[len(kb):])
        rs = []
        d0 = max(len(ka), len(kb))
        for d in range(d0 + 1, ma.depth + 1):
            s1, s2 = sa.copy(), sb.copy()
            s1.pc, s2.pc = list(h), list(h)
            p, q = e.has(ma, fa[:d], s1), e.has(mb, fb[:d], s2)
            rs.append(prove(h, zbool(p) == zbool(q), "%s keys" % path))
        h2 = list(h)
        s1, s2 = sa.copy(), sb.copy()
        p = e.has(ma, fa, sa.copy())
        if p is False:
            return worst(rs)
        if isz(p):
            h2.append(p)
        if not feasible(h2):
            return worst(rs)
        s1.pc, s2.pc = list(h2), list(h2)
        x, y = e.lookup(ma, fa, s1), e.lookup(mb, fb, s2)
        rs.append(self.eqv(x, s1, y, s2, h2, "%s[%s]" % (path, ",".join(map(str, ks))), depth + 1))
        return worst(rs)

    def samelogs(self, ma, la, sa, mb, lb, sb, h, path):
        """the entries, one after the other, have the same effect on any map; False when not, None when they are built differently"""
        if all(isinstance(w, W) for w in list(la) + list(lb)):
            return self.sameeffect(ma, la, sa, mb, lb, sb, h, path)
        if len(la) != len(lb):
            return None
        for x, y in zip(la, lb):
            if isinstance(x, W) and isinstance(y, W):
                r = self.sameeffect(ma, [x], sa, mb, [y], sb, h, path)
                if not r:
                    return r
                continue
            if not (isinstance(x, WComp) and isinstance(y, WComp)):
                return None
            if not znat(x.n).eq(znat(y.n)) and prove(h, znat(x.n) == znat(y.n), path + " rounds")[0] != "proved":
                return None
            k = scoped("k", z3.IntSort())
            h2 = h + [k >= 0, k < znat(x.n)]
            gx, gy = (z3.simplify(zbool(subst(zbool(w.g), [(w.k, k)]))) for w in (x, y))
            if not gx.eq(gy) and prove(h2, gx == gy, path + " filter")[0] != "proved":
                return None
            r = self.samelogs(ma, [subst(w, [(x.k, k)]) for w in x.log], sa, mb, [subst(w, [(y.k, k)]) for w in y.log], sb,
                              h2 + ([] if z3.is_true(gx) else [gx]), path)
            if not r:
                return r
        return True

    def sameeffect(self, ma, la, sa, mb, lb, sb, h, path):
        """both lists of single writes do the same to an arbitrary map, looked at in an arbitrary place"""
        e = self.e
        ws = [w for w in list(la) + list(lb) if len(w.keys) == ma.depth]
        if not ws:
            return not la and not lb
        if any(w.kind not in ("set", "touch") or w.kind == "set" and not (isnum(w.val) and not isbool(w.val)) for w in list(la) + list(lb)):
            return None
        keys = []
        for d in range(ma.depth):
            ts = [w.keys[d] for w in list(la) + list(lb) if len(w.keys) > d]
            if len(keys) == d and all(t.eq(ts[0]) for t in ts):
                keys.append(ts[0])
        keys += [scoped("key", ws[0].keys[d].sort()) for d in range(len(keys), ma.depth)]
        for d in range(1, ma.depth + 1):
            p, q = (e.has(MapV(m.depth, m.default, None, l, m.keysorts), keys[:d], s.copy()) for m, l, s in ((ma, la, sa), (mb, lb, sb)))
            r = self.bycases(h, zbool(p) == zbool(q))
            if r != "proved":
                return False
        u = scoped("value", z3.RealSort())
        out = []
        for m, l, s in ((ma, la, sa), (mb, lb, sb)):
            s = s.copy()
            s.pc = list(h)
            v = e.lookup(MapV(m.depth, m.default, GenBase(u), l, m.keysorts), keys, s)
            if not isnum(v):
                return None
            out.append(toreal(znum(v)))
        return self.bycases(h, out[0] == out[1]) == "proved"

    def bycases(self, h, goal, depth=0):
        """the goal under each combination of its conditions; conditions with existence symbols that are equivalent are one"""
        h = [zbool(x) for x in h]
        goal = z3.simplify(zbool(goal))
        if z3.is_true(goal):
            return "proved"
        c = atom(goal)
        if c is None or depth > 14:
            return P.prove(h, goal)
        for s in [c] if z3.is_true(z3.simplify(c)) else [c, z3.Not(c)]:
            if not P.feasible(h + [s], 400):
                continue
            g = z3.substitute(goal, (c, z3.BoolVal(s is c)))
            # the same condition written differently
            if P.is_ex(c):
                for d in {x.get_id(): x for x in P.apps([g])[0] if P.is_ex(x) and not x.eq(c) and x.arg(0).eq(c.arg(0))}.values():
                    if P.prove_iff(h, c, d, 0, 1000) == "proved":
                        g = z3.substitute(g, (d, z3.BoolVal(s is c)))
            if self.bycases(h + [s], g, depth + 1) != "proved":
                return "unknown"
        return "proved"

    def keysorts(self, m):
        def ent(w):
            if isinstance(w, W):
                return [k.sort() for k in w.keys] if len(w.keys) == m.depth else None
            for x in w.log:
                r = ent(x)
                if r:
                    return r
            return None
        if isinstance(m.base, MapBase):
            from engine import sort_of
            return [sort_of(t) for t in m.base.keytypes]
        for w in m.log:
            r = ent(w)
            if r:
                return r
        return None

    def nonempty(self, m):
        return bool(m.log) or m.base is not None

    # ------------------------------------------------------------ strings
    def eqstr(self, a, sa, b, sb, h, path, depth):
        A = list(a.segs) if isinstance(a, StrV) else [a]
        B = list(b.segs) if isinstance(b, StrV) else [b]
        return self.strsegs(A, sa, B, sb, h, path, depth)

    def strsegs(self, A, sa, B, sb, h, path, depth):
        A, B = [x for x in A if x != ""], [x for x in B if x != ""]
        A, B = self.flat(A, h), self.flat(B, h)
        # literal pieces: cut common prefixes
        i = j = 0
        rs = []
        A, B = list(A), list(B)
        while A and B:
            x, y = A[0], B[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]:
                    n += 1
                if n == 0:
                    return self.differ(h, path + " text", x, y)
                A[0], B[0] = x[n:], y[n:]
                if not A[0]:
                    A.pop(0)
                if not B[0]:
                    B.pop(0)
                if A and B and isinstance(A[0], str) and isinstance(B[0], str) and n < len(x) and n < len(y):
                    return self.differ(h, path + " text", x, y)
                continue
            if isinstance(x, StrOf) and isinstance(y, StrOf) and x.spec == y.spec:
                r = self.eqv(x.v, sa, y.v, sb, h, path + " piece", depth + 1)
                rs.append(r)
                if r[0] != "proved":
                    return ("unknown" if r[0] == "refuted" else r[0], r[1])
                A.pop(0)
                B.pop(0)
                continue
            if isinstance(x, Comp) and isinstance(y, Comp):
                r = prove(h, znat(x.n) == znat(y.n), path + " count")
                k = scoped("k", z3.IntSort())
                h2 = h + [k >= 0, k < znat(x.n)]
                gx = subst(x.g, [(x.k, k)]) if isz(x.g) else x.g
                gy = subst(y.g, [(y.k, k)]) if isz(y.g) else y.g
                r2 = prove(h2, zbool(gx) == zbool(gy), path + " guard")
                s1 = [z if isinstance(z, str) else subst(z, [(x.k, k)]) for z in x.segs]
                s2 = [z if isinstance(z, str) else subst(z, [(y.k, k)]) for z in y.segs]
                h3 = h2 + ([zbool(gx)] if gx is not True else [])
                r3 = self.strsegs(s1, sa, s2, sb, h3, path + "[k]", depth + 1) if feasible(h3) else ("proved", "")
                rs += [r, r2, r3]
                if worst(rs)[0] != "proved":
                    w = worst(rs)
                    return ("unknown", w[1])
                A.pop(0)
                B.pop(0)
                continue
            return ("unknown", path + ": text %s / %s" % (rep(x), rep(y)))
        if A or B:
            return ("unknown", path + ": text of different length %s / %s" % (rep(A), rep(B)))
        return worst(rs)

    def flat(self, A, h):
        out = []
        for x in A:
            if isinstance(x, Comp) and z3.is_int_value(znat(x.n)) and znat(x.n).as_long() == 1 and x.g is True:
                out += self.flat(list(x.segs), h)
            else:
                out.append(x)
        m = []
        for x in out:
            if isinstance(x, str) and m and isinstance(m[-1], str):
                m[-1] += x
            else:
                m.append(x)
        return m


def rep(v):
    s = repr(v)
    return " ".join(s.split())[:160]
