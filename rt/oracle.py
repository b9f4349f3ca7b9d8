"""Independent computations of what the strategy, flow and cost modules must produce.

They work on plain data (the extended graph's links, the routes' sequences) and share no code
with the repository."""
import math
from collections import defaultdict

from lib import *
from sidermit.optimization.preoptimization import (ExtendedGraph, Hyperpath, Assignment, CityNode, StopNode, RouteNode,  # noqa: E402
                                                   ExtendedEdgesType)

INF = math.inf
ACC, BRD, ALI, RTE = (ExtendedEdgesType.ACCESS, ExtendedEdgesType.BOARDING, ExtendedEdgesType.ALIGHTING, ExtendedEdgesType.ROUTE)


def rsorted(xs):
    return sorted(xs, key=repr)


def dirs(rt):
    """[(direction, node sequence, stop sequence)] of the directions a route has"""
    return [(d, n, s) for d, n, s in (("I", rt.nodes_sequence_i, rt.stops_sequence_i), ("R", rt.nodes_sequence_r, rt.stops_sequence_r)) if n]


def circular(rt):
    return rt._type == RouteType.CIRCULAR


def positions(city):
    return {nd.id: (nd.x, nd.y) for nd in city.get_nodes()}


def dist(pos, a, b):
    return math.hypot(pos[a][0] - pos[b][0], pos[a][1] - pos[b][1])


def along(pos, seq_, a, b):
    """distance along seq_ from stop a to the next occurrence of b"""
    i = seq_.index(a)
    j = seq_.index(b, i + 1)
    return sum(dist(pos, seq_[k], seq_[k + 1]) for k in range(i, j))


def expected_graph(city, routes, tp, f):
    """(stop nodes, route nodes, links) of the extended graph as plain tuples
    stop: ("S", mode, node); route node: ("R", route id, direction, node); city: ("C", node)"""
    pos = positions(city)
    stops, rnodes, links = set(), set(), []
    for rt in routes:
        for d, ns, ss in dirs(rt):
            keep = ss[:-1] if circular(rt) else ss
            for s in keep:
                stops.add(("S", rt.mode.name, s))
                rnodes.add(("R", rt.id, d, s))
                if circular(rt) or s != ns[-1]:
                    links.append((("S", rt.mode.name, s), ("R", rt.id, d, s), 0, f[rt.id] / rt.mode.d, BRD))
                if circular(rt) or s != ns[0]:
                    links.append((("R", rt.id, d, s), ("S", rt.mode.name, s), tp / 60, INF, ALI))
            for a, b in zip(ss, ss[1:]):
                links.append((("R", rt.id, d, a), ("R", rt.id, d, b), along(pos, ns, a, b) / rt.mode.v, INF, RTE))
    tat = {rt.mode.name: rt.mode.tat for rt in routes}
    for s in stops:
        c = ("C", s[2])
        links += [(c, s, tat[s[1]] / 60, INF, ACC), (s, c, tat[s[1]] / 60, INF, ACC)]
    return stops, rnodes, links


def key(nd):
    if isinstance(nd, CityNode):
        return ("C", nd.graph_node.id)
    if isinstance(nd, StopNode):
        return ("S", nd.mode.name, nd.city_node.graph_node.id)
    if isinstance(nd, RouteNode):
        return ("R", nd.route.id, nd.direction, nd.stop_node.city_node.graph_node.id)
    return ("?", repr(nd))


def check_graph(eg, city, routes, tp, f):
    stops, rnodes, links = expected_graph(city, routes, tp, f)
    nodes = eg.get_extended_graph_nodes()
    gids = {nd.id: nd for nd in city.get_nodes()}
    got_s, got_r = [], []
    for c in nodes:
        need(gids.get(c.graph_node.id) is c.graph_node, "city node %s holds another node", key(c))
        for s in nodes[c]:
            need(s.city_node is c, "stop node %s hangs under another city node", key(s))
            got_s.append(key(s))
            for q in nodes[c][s]:
                need(q.stop_node is s and q.route.mode is s.mode, "route node %s hangs under another stop", key(q))
                need(any(q.route is rt for rt in routes), "route node of an unknown route")
                got_r.append(key(q))
    need(len([c for c in nodes]) == len(set(c.graph_node.id for c in nodes)), "a city node is present twice")
    need(rsorted(got_s) == rsorted(stops), "stop nodes %s, expected %s", rsorted(got_s), rsorted(stops))
    need(rsorted(got_r) == rsorted(rnodes), "route nodes %s, expected %s", rsorted(got_r), rsorted(rnodes))
    allnodes = set(c for c in nodes) | set(s for c in nodes for s in nodes[c]) | set(q for c in nodes for s in nodes[c] for q in nodes[c][s])
    got = {}
    for e in eg.get_extended_graph_edges():
        k = (key(e.nodei), key(e.nodej))
        need(e.nodei in allnodes and e.nodej in allnodes, "link %s joins nodes outside the graph", k)
        need(k not in got, "link %s is present twice", k)
        got[k] = e
    exp = {(a, b): (t, fr, ty) for a, b, t, fr, ty in links}
    need(len(exp) == len(links), "oracle: duplicated link")
    need(set(got) == set(exp), "links missing %s, unexpected %s", rsorted(set(exp) - set(got)), rsorted(set(got) - set(exp)))
    for k, (t, fr, ty) in exp.items():
        e = got[k]
        need(e.type == ty, "link %s has type %s", k, e.type)
        same(e.t, t, "time of link %s" % (k,))
        same(e.f, fr, "frequency of link %s" % (k,))


# ---------------------------------------------------------------- optimal strategies

def board(links, th):
    """best waiting plus travel over the subsets of lines: links = [(f, t)], th = weighted regularity"""
    best, num, den = INF, th, 0.0
    for fr, t in sorted((x for x in links if x[0] > 0 and x[1] < INF), key=lambda x: x[1]):
        if t >= best:
            break
        num += fr * t
        den += fr
        best = num / den
    return best


def optimal_labels(eg, pax, o, d):
    """label per node (without the origin's own access time), and boarding label per stop"""
    nodes = eg.get_extended_graph_nodes()
    out = defaultdict(list)
    alln = []
    for c in nodes:
        alln.append(c)
        for s in nodes[c]:
            alln.append(s)
            alln.extend(nodes[c][s])
    for e in eg.get_extended_graph_edges():
        if e.nodei is o or e.nodej is o:
            continue
        t = e.t
        if e.type == ALI and e.nodej.city_node is d:
            t = 0
        if e.type == ACC:
            t = t * pax.pa / pax.pv
        out[e.nodei].append((e, t))
    lab = {x: INF for x in alln}
    lab[d] = 0
    brd = {}
    for _ in range(len(alln) + 2):
        changed = False
        for x in alln:
            if x is d:
                continue
            best = min([t + lab[e.nodej] for e, t in out[x] if e.type != BRD] or [INF])
            if isinstance(x, StopNode):
                brd[x] = board([(e.f, t + lab[e.nodej]) for e, t in out[x] if e.type == BRD], x.mode.theta * pax.pw / pax.pv)
                best = min(best, brd[x])
            if best < lab[x] - 1e-15 * max(1, best):
                lab[x] = best
                changed = True
        if not changed:
            break
    return lab, brd, out


# ---------------------------------------------------------------- connection

def reachable(routes, f, o):
    """city node ids that can be reached from o with lines of positive frequency"""
    seen, todo = {o}, [o]
    while todo:
        a = todo.pop()
        for rt in routes:
            if f[rt.id] <= 0:
                continue
            for _, _, ss in dirs(rt):
                if a in ss:
                    for b in (ss if circular(rt) else ss[ss.index(a) + 1:]):
                        if b not in seen:
                            seen.add(b)
                            todo.append(b)
    return seen


# ---------------------------------------------------------------- flows

def chains(suc, stop, dest, f):
    """[(probability, [(nodei, nodej, combined frequency or None)])] of the strategy from a stop"""
    res = []

    def go(node, prob, links):
        if isinstance(node, StopNode) and node.city_node is dest:
            res.append((prob, links))
            return
        nxt = suc[node]
        tot = sum(f[e.nodej.route.id] for e in nxt if e.type == BRD)
        for e in nxt:
            if e.type == BRD:
                go(e.nodej, prob * f[e.nodej.route.id] / tot, links + [(node, e.nodej, tot)])
            else:
                go(e.nodej, prob, links + [(node, e.nodej, None)])

    go(stop, 1.0, [])
    return res


def all_chains(hyp, suc, vij, asg, f):
    """[(passengers, origin, destination, stop, links)]"""
    out = []
    for o in hyp:
        for d in hyp[o]:
            for st in hyp[o][d]:
                v = vij[o][d] * asg[o][d][st] / 100
                if v == 0:
                    continue
                for pr, links in chains(suc[o][d], st, d, f):
                    out.append((v * pr, o, d, st, links))
    return out


def loads(ch, f):
    """z, v, load as dict[(route id, direction, stop)] in passengers per vehicle"""
    z, v, ld = defaultdict(float), defaultdict(float), defaultdict(float)
    for pax, o, d, st, links in ch:
        for a, b, _ in links:
            if isinstance(a, StopNode) and isinstance(b, RouteNode):
                z[b.route.id, b.direction, a] += pax
            elif isinstance(a, RouteNode) and isinstance(b, StopNode):
                v[a.route.id, a.direction, b] += pax
            elif isinstance(a, RouteNode) and isinstance(b, RouteNode):
                ld[a.route.id, a.direction, a.stop_node] += pax
    for q in (z, v, ld):
        for k in q:
            if f[k[0]]:
                q[k] /= f[k[0]]
    return z, v, ld


def flat(t):
    return {(r, d, s): t[r][d][s] for r in list(t) for d in list(t[r]) for s in list(t[r][d])}


def same_table(got, exp, what):
    for k in set(got) | set(exp):
        need(close(got.get(k, 0), exp.get(k, 0), 1e-8, 1e-8), "%s of route %s direction %s at %s: %r, expected %r", what, k[0], k[1], key(k[2]),
             got.get(k, 0), exp.get(k, 0))


def vehicle_sizes(routes, ld):
    k = {rt.id: 0.0 for rt in routes}
    for (r, _, _), x in ld.items():
        k[r] = max(k[r], x)
    return k


def running_time(city, rt):
    pos = positions(city)
    return sum(dist(pos, a, b) for _, ns, _ in dirs(rt) for a, b in zip(ns, ns[1:])) / rt.mode.v


def cycle_time(city, rt, z, v):
    tot = 0
    for k in set(z) | set(v):
        if k[0] == rt.id:
            a, b = z.get(k, 0), v.get(k, 0)
            tot += (a + b) if rt.mode.bya == 0 else max(a, b)
    return running_time(city, rt) + tot * rt.mode.t / 3600


def operators(city, routes, z, v, f, k):
    return sum((rt.mode.co + rt.mode.c1 * k[rt.id]) * f[rt.id] * cycle_time(city, rt, z, v) for rt in routes if f[rt.id] != 0)


def built(city, routes, modes, f):
    pos = positions(city)
    links = set(frozenset((e.node1.id, e.node2.id)) for e in city.get_edges())
    out = {}
    for m in modes:
        used = set()
        for rt in routes:
            if rt.mode is m and f[rt.id] != 0:
                for _, ns, _ in dirs(rt):
                    used |= set(frozenset(x) for x in zip(ns, ns[1:]))
        out[m] = sum(dist(pos, *tuple(x)) for x in used if x in links) * m.d
    return out


def resources(ch, asg, eg, va, f, z, v):
    """access, waiting, in-vehicle hours and transfers"""
    tlink = {(e.nodei, e.nodej): e.t for e in eg.get_extended_graph_edges()}
    ta = te = tv = tr = 0.0
    for pax, o, d, st, links in ch:
        ta += pax * (st.mode.tat / 60 + asg[o][d][st] / 100 * o.graph_node.width / (4 * va * st.mode.d))
        for n, (a, b, tot) in enumerate(links):
            if isinstance(a, StopNode) and isinstance(b, RouteNode):
                te += pax * b.route.mode.theta / (tot / b.route.mode.d)
            elif isinstance(a, RouteNode) and isinstance(b, RouteNode):
                tv += pax * tlink[a, b]
                if n + 1 < len(links) and isinstance(links[n + 1][1], RouteNode):
                    k = (a.route.id, a.direction, b.stop_node)
                    x, y = z.get(k, 0), v.get(k, 0)
                    tv += pax * (x + y if a.route.mode.bya == 0 else max(x, y)) * a.route.mode.t / 3600
            elif isinstance(a, RouteNode) and isinstance(b, StopNode):
                tv += pax * v.get((a.route.id, a.direction, b), 0) * 0.5 * a.route.mode.t / 3600
                if b.city_node is not d:
                    tr += pax
            elif isinstance(a, StopNode):
                ta += pax * a.mode.tat / 60
            else:
                ta += pax * b.mode.tat / 60
    return ta, te, tv, tr


def users(res, p):
    ta, te, tv, tr = res
    return ta * p.spa + te * p.spw + tv * p.spv + tr * p.spt / 60 * p.spv


def capacity(city, routes, modes, f, k):
    out = [k[rt.id] - rt.mode.kmax for rt in routes]
    for e in city.get_edges():
        for m in modes:
            s = 0
            for rt in routes:
                if rt.mode is m:
                    for _, ns, _ in dirs(rt):
                        s += sum(f[rt.id] / m.d for x in zip(ns, ns[1:]) if x == (e.node1.id, e.node2.id))
            out.append(s - m.fmax / m.d)
    return out


class Full:
    """the whole chain built by the real code up to route choice and assignment"""

    def __init__(self, w, f=None):
        f = w.f if f is None else f
        self.eg = ExtendedGraph(w.city, w.routes, w.pax.pt, f)
        self.hp = Hyperpath(self.eg, w.pax)
        self.hyp, self.lab, self.suc, self.fr, self.vij = self.hp.get_all_hyperpaths(w.demand.get_matrix())
        width = w.city.get_parameters()[3]
        self.asg = Assignment.get_assignment(self.hyp, self.lab, width, w.pax.va, w.pax.pa, w.pax.pv)

    def usable(self, f):
        """every boarding choice in a strategy has a positive combined frequency"""
        for o in self.suc:
            for d in self.suc[o]:
                for nd in self.suc[o][d]:
                    bs = [e for e in self.suc[o][d][nd] if e.type == BRD]
                    if bs and not sum(f[e.nodej.route.id] for e in bs) > 0:
                        return False
        return True
