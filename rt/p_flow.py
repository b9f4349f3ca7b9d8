"""C13-C23: extended graph, route choice, assignment, flows, constraints and costs"""
import math
from collections import defaultdict

from lib import *
import oracle as orc
from oracle import ACC, BRD, ALI, RTE, INF, key
from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode
from sidermit.optimization import Constrains, InfrastructureCost, OperatorsCost, UsersCost


# ---------------------------------------------------------------- C13
def c13_cases(r, i):
    w = gen_world(r, 5, cover=r.random() < 0.7)
    w["pax"][4] = r.choice([0, w["pax"][4]])
    return w


def c13(case):
    w = World(case)
    eg = ExtendedGraph(w.city, w.routes, w.pax.pt, w.f)
    orc.check_graph(eg, w.city, w.routes, w.pax.pt, w.f)
    eg = ExtendedGraph(w.city, w.routes, w.pax.pt)
    orc.check_graph(eg, w.city, w.routes, w.pax.pt, {rt.id: rt.mode.fini for rt in w.routes})


# ---------------------------------------------------------------- C14, C15
def od_cases(r, i):
    w = gen_world(r, 4, zero_f=0.2 if i % 2 else 0)
    m = 2 * w["city"]["n"] + 1
    w["od"] = [r.sample(range(m), 2) for _ in range(4)]
    if r.random() < 0.3:
        for md in w["modes"]:
            md[9] = r.choice([0.5, 1, 0.25])
    return w


def od_pairs(w, eg):
    nodes = eg.get_extended_graph_nodes()
    by = {c.graph_node.id: c for c in nodes}
    ids = [nd.id for nd in w.city.get_nodes()]
    for a, b in w.d["od"]:
        o, d = by.get(ids[a]), by.get(ids[b])
        if o is not None and d is not None:
            yield o, d


def own(s, o, pax):
    return s.mode.tat / 60 * pax.pa / pax.pv if isinstance(s, StopNode) and s.city_node is o else 0


def c14(case):
    w = World(case)
    eg = ExtendedGraph(w.city, w.routes, w.pax.pt, w.f)
    hp = Hyperpath(eg, w.pax)
    for o, d in od_pairs(w, eg):
        _, lab, _ = hp.build_hyperpath_graph(o, d)
        exp, _, _ = orc.optimal_labels(eg, w.pax, o, d)
        for x in exp:
            same(lab[x], exp[x] + own(x, o, w.pax), "label of %s for %s-%s" % (key(x), key(o)[1], key(d)[1]))
        _, lab2, _, _ = hp.get_hyperpath_OD(o, d)
        for x in exp:
            need(lab2[x] == lab[x], "label of %s differs between the two queries", key(x))


def c15(case):
    w = World(case)
    eg = ExtendedGraph(w.city, w.routes, w.pax.pt, w.f)
    hp = Hyperpath(eg, w.pax)
    edges = set(eg.get_extended_graph_edges())
    for o, d in od_pairs(w, eg):
        paths, lab, suc, fr = hp.get_hyperpath_OD(o, d)
        exp, brd, out = orc.optimal_labels(eg, w.pax, o, d)
        what = "%s-%s" % (key(o)[1], key(d)[1])
        for x in exp:
            ch = suc[x]
            need(len(set(ch)) == len(ch), "%s: a link is chosen twice at %s", what, key(x))
            cost = {e: t + exp[e.nodej] for e, t in out[x]}
            for e in ch:
                need(e in edges and e.nodei is x and e in cost, "%s: link chosen at %s is not one of its links", what, key(x))
            if x is d or exp[x] == INF:
                need(not ch, "%s: links chosen at %s, which needs none", what, key(x))
                continue
            bs = [e for e in ch if e.type == BRD]
            if bs:
                need(len(bs) == len(ch), "%s: boarding and walking chosen together at %s", what, key(x))
                same(brd[x], exp[x], "%s: cost of boarding at %s, where it is chosen," % (what, key(x)))
                eps = 1e-9 * max(1, exp[x])
                for e, t in out[x]:
                    if e.type == BRD and e.f > 0:
                        need(not (cost[e] < exp[x] - eps and e not in bs), "%s: attractive line missing at %s", what, key(x))
                        need(not (cost[e] > exp[x] + eps and e in bs), "%s: unattractive line chosen at %s", what, key(x))
                need(all(e.f > 0 for e in bs), "%s: line without frequency chosen at %s", what, key(x))
                same(fr[x], sum(e.f for e in bs), "%s: cumulative frequency at %s" % (what, key(x)))
            else:
                need(len(ch) == 1, "%s: %d links chosen at %s", what, len(ch), key(x))
                same(cost[ch[0]], exp[x], "%s: cost of the link chosen at %s" % (what, key(x)))
        # no cycles
        state = {}

        def visit(x):
            state[x] = 1
            for e in suc[x]:
                need(state.get(e.nodej) != 1, "%s: chosen links form a cycle at %s", what, key(e.nodej))
                if e.nodej not in state:
                    visit(e.nodej)
            state[x] = 2
        for x in list(exp):
            if x not in state:
                visit(x)
        # elementary paths
        nodes = eg.get_extended_graph_nodes()
        need(set(paths) <= set(nodes[o]), "%s: paths from stops outside the origin", what)
        for s in nodes[o]:
            want = []

            def go(p):
                if p[-1] is d:
                    want.append(tuple(p))
                    return
                for e in suc[p[-1]]:
                    go(p + [e.nodej])
            go([o, s])
            got = [tuple(p) for p in paths.get(s, [])]
            need(sorted(map(lambda p: [id(q) for q in p], got)) == sorted(map(lambda p: [id(q) for q in p], want)),
                 "%s: paths from %s: %s, expected %s", what, key(s), [[key(q) for q in p] for p in got], [[key(q) for q in p] for p in want])
            need(bool(got) == (exp[s] < INF), "%s: stop %s has %d paths and label %s", what, key(s), len(got), exp[s])


# ---------------------------------------------------------------- C16
def c16_cases(r, i):
    w = gen_world(r, 4, zero_f=r.choice([0, 0.3]), cover=r.random() < 0.8)
    if i % 4 == 3:
        w["modes"] = [gen_mode(r, "m%d" % k, r.choice([1, 1, 2, 3])) for k in range(r.choice([2, 3]))]
        w["bypass"] = True
        for o in w["routes"]:
            o["mode"] = r.randrange(len(w["modes"]))
    elif i % 4 == 1:
        # few routes, few pairs, little demand
        w = gen_world(r, 3, zero_f=0, cover=False)
        m = 2 * w["city"]["n"] + 1
        w["demand"] = dict(kind="cells", cells=[r.sample(range(m), 2) + [r.choice([10 ** r.uniform(-5, 0), rnum(r, 0, 1), amount(r)]) or 0.5]
                                                for _ in range(r.randint(1, 2))])
    return w


def bare_routes(case):
    """routes without the registry, for mode sets the registry refuses"""
    city = build_city(case["city"])
    modes = [TransportMode(*m) for m in case["modes"]]
    net = TransportNetwork(city)
    out = []
    for o in case["routes"]:
        m = modes[o["mode"]]
        out += [Route(o["id"], m, seq(o["ni"]), seq(o["nr"]), seq(o["si"]), seq(o["sr"]))] if o["type"] == "custom" else family(net, o, m)
    return [x for k, x in enumerate(out) if x.id not in [y.id for y in out[:k]]]


def c16(case):
    if case.get("bypass"):
        w = World({k: case[k] for k in ("city", "pax", "demand")})
        w.routes = bare_routes(case)
        w.f = w.freq(case["f"])
    else:
        w = World(case)
    eg = ExtendedGraph(w.city, w.routes, w.pax.pt, w.f)
    hp = Hyperpath(eg, w.pax)
    m = w.demand.get_matrix()
    before = {(i, j): m[i][j] for i in m for j in m[i]}
    pairs = [k for k, v in before.items() if v != 0]
    conn = all(b in orc.reachable(w.routes, w.f, a) and a != b for a, b in pairs)
    modes = []
    for rt in w.routes:
        if rt.mode not in modes:
            modes.append(rt.mode)
    ok = conn and (len(modes) == 1 or (len(modes) == 2 and any(x.d == 1 for x in modes)))
    res = []
    for fn in (hp.network_validator, hp.get_all_hyperpaths):
        eg = ExtendedGraph(w.city, w.routes, w.pax.pt, w.f)
        h = Hyperpath(eg, w.pax)
        got, e = None, None
        try:
            got = getattr(h, fn.__name__)(m)
        except Exception as x:  # noqa: BLE001
            e = x
        res.append(got)
        need((e is None) == ok, "%s with pairs %s connected=%s modes %s raised %r", fn.__name__, pairs, conn, [(x.name, x.d) for x in modes], e)
    need({(i, j): m[i][j] for i in m for j in m[i]} == before, "the demand matrix was changed")
    if not ok:
        return
    need(res[0] is True, "validation returned %r", res[0])
    hyp, lab, suc, fr, vij = res[1]
    for name, t in (("paths", hyp), ("labels", lab), ("strategy", suc), ("frequencies", fr), ("trips", vij)):
        got = [(o.graph_node.id, d.graph_node.id) for o in t for d in t[o]]
        need(sorted(got) == sorted(pairs), "%s for pairs %s, expected %s", name, sorted(got), sorted(pairs))
    eg = h.extended_graph_obj
    nodes = eg.get_extended_graph_nodes()
    alln = [x for c in nodes for x in [c] + [y for s in nodes[c] for y in [s] + list(nodes[c][s])]]
    for o in hyp:
        for d in hyp[o]:
            need(vij[o][d] == before[o.graph_node.id, d.graph_node.id], "trips of %s-%s: %s", key(o), key(d), vij[o][d])
            p2, l2, s2, f2 = h.get_hyperpath_OD(o, d)
            need(sum(len(x) for x in hyp[o][d].values()) > 0, "no path for %s-%s", key(o), key(d))
            need({s: x for s, x in hyp[o][d].items() if x} == {s: x for s, x in p2.items() if x}, "paths of %s-%s belong to another pair", key(o), key(d))
            for x in alln:
                need(lab[o][d][x] == l2[x] and fr[o][d][x] == f2[x] and list(suc[o][d][x]) == list(s2[x]),
                     "results at %s for %s-%s belong to another pair", key(x), key(o), key(d))


# ---------------------------------------------------------------- C17
def c17_cases(r, i):
    d = r.choice([1, 2, 3, 4, 5, 6, 8])
    if i % 3 == 0:      # dyadic numbers: ties are exact
        va, ratio, p = r.choice([1, 2, 4]), r.choice([0.5, 1, 2]), r.choice([1, 2, 4, 8])
        base = r.choice([1, 2, 0.5])
        if d in (3, 5, 6):
            d = 4
        delta = r.choice([0] + [p / d * x for x in (0.5, 1, 1.5, 0.25, 2)] + [p / 2, p / 4]) * ratio / va
    else:
        va, ratio, p, base = rnum(r, 2, 6), rnum(r, 0.3, 4), rnum(r, 0.1, 5), rnum(r, 0.1, 3)
        delta = r.uniform(0, 0.8 * p) * ratio / va
    sgn = r.choice([1, 1, -1])
    other = base + delta
    l1, l2 = (base, other) if sgn == 1 else (other, base)
    return dict(d=d, va=va, pa=ratio * 2, pv=2, p=p, l1=l1, l2=l2, order=r.randint(0, 1), one=r.random() < 0.15, od=r.choice([1, 1, 2]))


def expected_share(d2, va, pa, pv, p, l1, l2):
    """share of the central stop"""
    ratio = pa / pv
    xs = [(k + 0.5) * (p / d2) for k in range(d2 // 2)]
    if l1 <= l2:
        d = va * (l2 - l1) / ratio
        if d >= p / 2 or not xs or d >= xs[-1]:
            return 1.0
        return (d + min(x for x in xs if x > d)) / p
    d = va * (l1 - l2) / ratio
    if d2 % 2 == 1 or d >= xs[0]:
        return 0.0
    return (xs[0] - d) / p


def c17(case):
    g = Graph.build_from_parameters(1, 1, 1, case["p"])
    nodes = g.get_nodes()

    def mode(name, d):
        return TransportMode(name, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, d, 1)
    hyp = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    lab = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    exp = {}
    cs = [CityNode(k, nodes[k]) for k in range(3)]
    for n in range(case["od"]):
        o, d = cs[n], cs[n + 1]
        m1, m2 = mode("metro", 1), mode("bus", case["d"])
        a, b = StopNode(0, m1, o), StopNode(1, m2, o)
        l1, l2 = (case["l1"], case["l2"]) if n == 0 else (case["l2"], case["l1"])
        if case["one"]:
            s, lb = (a, l1) if case["order"] else (b, l2)
            hyp[o][d][s].append([o, s])
            lab[o][d][s] = lb
            exp[o, d] = {s: 100}
            continue
        central, rest = a, b
        if case["d"] == 1 and case["order"]:
            central, rest = b, a
        for s in ((b, a) if case["order"] else (a, b)):
            hyp[o][d][s].append([o, s])
        lab[o][d][a], lab[o][d][b] = l1, l2
        sh = expected_share(rest.mode.d, case["va"], case["pa"], case["pv"], case["p"], lab[o][d][central], lab[o][d][rest])
        exp[o, d] = {central: 100 * sh, rest: 100 - 100 * sh}
    got = Assignment.get_assignment(hyp, lab, case["p"], case["va"], case["pa"], case["pv"])
    need(set((o, d) for o in got for d in got[o]) == set(exp), "pairs assigned")
    for (o, d), e in exp.items():
        tot = sum(got[o][d].values())
        need(set(got[o][d]) <= set(e), "share for a stop outside the origin")
        same(tot, 100, "sum of the shares")
        for s, x in e.items():
            y = got[o][d].get(s, 0)
            need(-1e-9 <= y <= 100 + 1e-9, "share %s", y)
            need(close(y, x, 1e-7, 1e-7), "share of the %s stop (d=%s): %r, expected %r", s.mode.name, s.mode.d, y, x)


# ---------------------------------------------------------------- flows
def flow_cases(r, i):
    w = gen_world(r, 3, zero_f=0)
    w["f2"] = [0 if r.random() < 0.12 else rnum(r, 0.5, 60) for _ in range(r.randint(1, 40))]
    return w


class Flow:
    """None when the case cannot be evaluated (network refused)"""

    @staticmethod
    def make(case):
        w = World(case)
        try:
            fl = orc.Full(w)
        except exc.SIDERMITException:
            return None
        f = w.freq(case["f2"])
        if not fl.usable(f):
            f = w.freq([x or 1.5 for x in case["f2"]])
        self = Flow()
        self.w, self.fl, self.f = w, fl, f
        self.ch = orc.all_chains(fl.hyp, fl.suc, fl.vij, fl.asg, f)
        self.z, self.v, self.ld = orc.loads(self.ch, f)
        return self

    def real(self):
        return Assignment.get_alighting_and_boarding(self.fl.vij, self.fl.hyp, self.fl.suc, self.fl.asg, self.f)

    def nested(self, t):
        q = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
        for (a, b, c), x in t.items():
            q[a][b][c] = x
        return q


def c18(case):
    q = Flow.make(case)
    if q is None:
        return
    z, v, ld = q.real()
    fz, fv, fl = orc.flat(z), orc.flat(v), orc.flat(ld)
    orc.same_table(fz, q.z, "boarding")
    orc.same_table(fv, q.v, "alighting")
    orc.same_table(fl, q.ld, "load")
    for rt in q.w.routes:
        for d, ns, ss in orc.dirs(rt):
            st = {s.city_node.graph_node.id: s for t in (fz, fv, fl) for (r, dd, s) in t if r == rt.id and dd == d}
            B = sum(x for (r, dd, _), x in fz.items() if (r, dd) == (rt.id, d))
            A = sum(x for (r, dd, _), x in fv.items() if (r, dd) == (rt.id, d))
            need(close(A, B, 1e-8, 1e-8), "route %s %s: %r board and %r alight", rt.id, d, B, A)
            if q.f[rt.id] == 0:
                need(B == 0 and all(x == 0 for (r, dd, _), x in fl.items() if r == rt.id), "route %s without frequency carries passengers", rt.id)
            n = len(ss) - 1 if orc.circular(rt) else len(ss)
            for k in range(n):
                prev = ss[k - 1 if k else (n - 1)] if (k or orc.circular(rt)) else None

                def at(t, node):
                    return t.get((rt.id, d, st[node]), 0) if node in st else 0
                inn = at(fl, prev) if prev is not None else 0
                need(close(at(fl, ss[k]), inn + at(fz, ss[k]) - at(fv, ss[k]), 1e-7, 1e-7), "route %s %s at %s: load %r, entering %r, boarding %r, alighting %r",
                     rt.id, d, ss[k], at(fl, ss[k]), inn, at(fz, ss[k]), at(fv, ss[k]))
    # one pair at a time: everybody leaves by vehicle and arrives
    for o in q.fl.hyp:
        for d in q.fl.hyp[o]:
            one = {o: {d: q.fl.hyp[o][d]}}
            z, v, _ = Assignment.get_alighting_and_boarding(q.fl.vij, one, q.fl.suc, q.fl.asg, q.f)
            zq = [(k[2].city_node, x * q.f[k[0]]) for k, x in orc.flat(z).items()]
            vq = [(k[2].city_node, x * q.f[k[0]]) for k, x in orc.flat(v).items()]
            # net of the passengers who change lines there (a strategy may come back to the origin)
            out = sum(x for c, x in zq if c is o) - sum(x for c, x in vq if c is o)
            arr = sum(x for c, x in vq if c is d) - sum(x for c, x in zq if c is d)
            same(out, q.fl.vij[o][d], "passengers leaving %s for %s" % (key(o), key(d)), 1e-8)
            same(arr, q.fl.vij[o][d], "passengers reaching %s from %s" % (key(d), key(o)), 1e-8)


def table_cases(r, i):
    if i % 3 == 0:
        # loads that differ by little
        x = amount(r)
        return dict(t=[[r.choice(["a", "b"]), r.choice("IR"), r.randrange(5), x * (1 + r.choice([0, 1, -1, 2]) * 10 ** -r.uniform(1, 9))]
                       for _ in range(r.randint(2, 14))])
    return dict(t=[[r.choice(["a", "b", "c", 7]), r.choice("IR"), r.randrange(5), r.choice([0, rnum(r, 0, 90), rnum(r, 0, 1)])]
                   for _ in range(r.randint(0, 14))])


def c19(case):
    from sidermit.optimization.optimizer import Optimizer
    t = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    exp = {}
    for a, b, c, x in case["t"]:
        t[a][b][c] = x
    for a in t:
        exp[a] = max([0] + [x for b in t[a] for x in t[a][b].values()])
    before = orc.flat(t)
    k, m = Optimizer.get_k(t), Assignment.most_loaded_section(t)
    for q in (k, m):
        need(dict(q) == exp, "sizes %s, expected %s", dict(q), exp)
        need(q["no such route"] == 0, "size of a route without loads")
    need(orc.flat(t) == before, "the load table was changed")


def c20(case):
    q = Flow.make(case)
    if q is None:
        return
    w = q.w
    k = orc.vehicle_sizes(w.routes, q.ld)
    exp = orc.capacity(w.city, w.routes, w.net.get_modes(), q.f, k)
    most = Assignment.most_loaded_section(q.nested(q.ld))
    got = list(Constrains.most_loaded_section_constrains(w.routes, most)) + list(Constrains.fmax_constrains(w.city, w.routes, w.net.get_modes(), q.f))
    same_list(got, exp, "constraint")
    from sidermit.optimization.optimizer import Optimizer
    opt = Optimizer(w.city, w.demand, w.pax, w.net, w.f)
    x = [q.f[rt.id] for rt in w.routes]
    same_list(opt.get_constrains(x), exp, "constraint of the optimizer")
    a, b = opt.constrains(q.nested(q.ld), q.f)
    same_list(list(a) + list(b), exp, "constraint of Optimizer.constrains")


def same_list(got, exp, what):
    need(len(got) == len(exp), "%d %ss, expected %d", len(got), what, len(exp))
    for i, (a, b) in enumerate(zip(got, exp)):
        need(close(a, b, 1e-8, 1e-8), "%s %d: %r, expected %r", what, i, a, b)


def c21_cases(r, i):
    w = gen_world(r, 4, zero_f=0.2)
    w["t"] = [[r.random(), r.random()] for _ in range(60)]
    return w


def synth(case, w):
    """boarding, alighting and load tables over the stops of every route"""
    z = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    v = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    n = 0
    nodes = {nd.id: CityNode(k, nd) for k, nd in enumerate(w.city.get_nodes())}
    stops = {}
    for rt in w.routes:
        for d, ns, ss in orc.dirs(rt):
            for s in (ss[:-1] if orc.circular(rt) else ss):
                st = stops.setdefault((rt.mode, s), StopNode(0, rt.mode, nodes[s]))
                a, b = case["t"][n % len(case["t"])]
                n += 1
                if a > 0.35:
                    z[rt.id][d][st] = round(40 * a, 2)
                if b > 0.35:
                    v[rt.id][d][st] = round(40 * b, 2)
    return z, v


def c21(case):
    w = World(case)
    z, v = synth(case, w)
    fz, fv = orc.flat(z), orc.flat(v)
    run = OperatorsCost.lines_travel_time(w.routes, w.city.get_edges_distance())
    need(set(run) == set(rt.id for rt in w.routes), "running times of %s", sorted(map(str, run)))
    for rt in w.routes:
        same(run[rt.id], orc.running_time(w.city, rt), "running time of %s" % rt.id)
    cyc = OperatorsCost.get_cycle_time(z, v, w.routes, run)
    for rt in w.routes:
        same(cyc[rt.id], orc.cycle_time(w.city, rt, fz, fv), "cycle time of %s (rule %s)" % (rt.id, rt.mode.bya))
    k = defaultdict(float)
    for n, rt in enumerate(w.routes):
        k[rt.id] = 100 * case["t"][n % len(case["t"])][0]
    same(OperatorsCost.get_operators_cost(w.routes, cyc, w.f, k), orc.operators(w.city, w.routes, fz, fv, w.f, k), "operators cost")


def c22(case):
    w = World(case)
    exp = orc.built(w.city, w.routes, w.net.get_modes(), w.f)
    got = InfrastructureCost.get_mode_network_distance(w.city, w.net, w.f)
    need(set(got) <= set(exp), "built length of unknown modes")
    for m in exp:
        same(got.get(m, 0), exp[m], "built length of %s" % m.name)
    same(InfrastructureCost.get_infrastruture_cost(w.city, w.net, w.f), sum(m.c2 * exp[m] for m in exp), "infrastructure cost")


def c23(case):
    q = Flow.make(case)
    if q is None:
        return
    w, fl = q.w, q.fl
    z, v = q.nested(q.z), q.nested(q.v)
    exp = orc.resources(q.ch, fl.asg, fl.eg, w.pax.va, q.f, q.z, q.v)
    got = UsersCost.resources_consumer(fl.hyp, fl.vij, fl.asg, fl.suc, fl.eg, w.pax.va, q.f, z, v)
    for a, b, what in zip(got, exp, ("access time", "waiting time", "in-vehicle time", "transfers")):
        need(close(a, b, 1e-8, 1e-8) and a >= 0, "%s: %r, expected %r", what, a, b)
    z, v = q.nested(q.z), q.nested(q.v)
    same(UsersCost().get_users_cost(fl.hyp, fl.vij, fl.asg, fl.suc, fl.eg, q.f, w.pax, z, v), orc.users(exp, w.pax), "users' cost", 1e-8)
    twice = defaultdict(lambda: defaultdict(float))
    for o in fl.vij:
        for d in fl.vij[o]:
            twice[o][d] = 2 * fl.vij[o][d]
    g2 = UsersCost.resources_consumer(fl.hyp, twice, fl.asg, fl.suc, fl.eg, w.pax.va, q.f, z, v)
    for a, b in zip(g2, exp):
        need(close(a, 2 * b, 1e-8, 1e-8), "twice the demand needs %r, expected %r", a, 2 * b)


PROPS = {"C13": (c13_cases, c13, 600), "C14": (od_cases, c14, 300), "C15": (od_cases, c15, 300), "C16": (c16_cases, c16, 150),
         "C17": (c17_cases, c17, 3000), "C18": (flow_cases, c18, 300), "C19": (table_cases, c19, 600), "C20": (flow_cases, c20, 70),
         "C21": (c21_cases, c21, 300), "C22": (c21_cases, c22, 200), "C23": (flow_cases, c23, 240)}
