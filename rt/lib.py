"""Scenario descriptors (plain JSON data) and builders of real objects from them.

Everything here runs under the interpreter of the repository (/opt/venv) and imports the
code from the tree given by VERIF_REPO (default /repo)."""
import math
import os
import random
import sys
import logging
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")

from sidermit.city import Graph, Demand, CBD, Periphery, Subcenter  # noqa: E402
from sidermit.publictransportsystem import (Passenger, TransportMode, TransportModeManager,  # noqa: E402
                                            TransportNetwork, Route)
from sidermit.publictransportsystem.network import RouteType  # noqa: E402
import sidermit.exceptions as exc  # noqa: E402


class Fail(Exception):
    """the property does not hold on this case"""


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=1e-9):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def same(a, b, what, rel=1e-9):
    need(close(a, b, rel), "%s: got %r, expected %r", what, a, b)


def raises(fn, kind=Exception):
    """the exception fn raises, or None"""
    try:
        fn()
    except Exception as e:  # noqa: BLE001
        if not isinstance(e, kind):
            raise Fail("raised %s(%s), expected %s" % (type(e).__name__, e, kind.__name__))
        return e
    return None


# ---------------------------------------------------------------- cities

def rnum(r, lo, hi, nd=3):
    """mostly short decimals, sometimes all the digits"""
    x = r.uniform(lo, hi)
    return x if r.random() < 0.2 else round(x, nd)


def amount(r, hi=500):
    """a quantity of trips or passengers: any order of magnitude"""
    return r.choice([r.randint(1, 9), rnum(r, 1, hi, 1), rnum(r, 1, hi, 1), 10 ** r.uniform(-4, 4), rnum(r, 0, 1)]) or 1


def gen_city(r, nmin=1, nmax=6, plain=False, far=False, text=None):
    n = r.randint(nmin, nmax)
    c = dict(kind="param", n=n, l=rnum(r, 0.5, 20), g=rnum(r, 0.05, 2), p=rnum(r, 0.1, 5))
    if r.random() < 0.15:
        c["l"] = r.choice([1, 10, 2.5])
    if r.random() < 0.1:
        c["g"] = 0 if not far else 0.5
    if r.random() < 0.1:
        c["p"] = r.choice([1, 2, 4])
    if not plain:
        if r.random() < 0.5:
            c["etha"] = r.choice([0, 1, 0.5, rnum(r, 0, 1)])
            c["etha_zone"] = r.randint(1, n)
        if r.random() < 0.5:
            c["angles"] = [r.choice([0, 90, 180, 270, 360, rnum(r, 0, 360, 2)]) for _ in range(n)]
        if r.random() < 0.5:
            c["Gi"] = [rnum(r, 0.3, 2) for _ in range(n)]
        if r.random() < 0.5:
            c["Hi"] = [rnum(r, 1.0 if far else 0.3, 3) for _ in range(n)]
        if far and "Gi" in c:
            c["Hi"] = [3 for _ in range(n)]
    if text if text is not None else (r.random() < 0.3 and far):
        c = text_city(r, c)
    return c


def text_city(r, c):
    """the same kind of city, imported from text with arbitrary ids and line order"""
    g = build_city(c)
    n = c["n"]
    ids = r.sample(range(0, max(60, 4 * n)), 2 * n + 1)
    lines = []
    own = r.random() < 0.4      # every node its own width
    for i, nd in enumerate(g.get_nodes()):
        t = "CBD" if isinstance(nd, CBD) else ("P" if isinstance(nd, Periphery) else "SC")
        lines.append("%d N%d %r %r %s %d %r" % (ids[i], i, float(nd.x), float(nd.y), t, nd.zone_id,
                                                rnum(r, 0.1, 5) if own else float(c["p"])))
    r.shuffle(lines)
    return dict(kind="text", n=n, p=c["p"], text="*vertices %d\n" % len(lines) + "\n".join(lines) + "\n")


def build_city(c):
    if c["kind"] == "param":
        return Graph.build_from_parameters(c["n"], c["l"], c["g"], c["p"], c.get("etha"), c.get("etha_zone"),
                                           c.get("angles"), c.get("Gi"), c.get("Hi"))
    return Graph.build_from_content(c["text"])


def zone_ids(g):
    """(cbd id, [(periphery id, subcenter id)]) taken from the node list"""
    cbd = [n.id for n in g.get_nodes() if isinstance(n, CBD)]
    z = {}
    for n in g.get_nodes():
        if isinstance(n, Periphery):
            z.setdefault(n.zone_id, [None, None])[0] = n.id
        elif isinstance(n, Subcenter):
            z.setdefault(n.zone_id, [None, None])[1] = n.id
    return int(cbd[0]), [tuple(int(x) for x in z[k]) for k in sorted(z)]


def expected_links(cbd, zones):
    """the set of directed links a city must have"""
    s = []
    n = len(zones)
    for k, (p, sc) in enumerate(zones):
        s += [(p, sc), (sc, p), (sc, cbd), (cbd, sc)]
        if n > 2 or (n == 2 and k == 0):
            nx = zones[(k + 1) % n][1]
            s += [(sc, nx), (nx, sc)]
    return s


# ---------------------------------------------------------------- modes, passengers, networks

MODE_FIELDS = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
PAX_FIELDS = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]


def gen_mode(r, name, d=None):
    return [name, r.randint(0, 1), rnum(r, 0, 100), rnum(r, 0, 2), rnum(r, 0, 1000), rnum(r, 5, 60), rnum(r, 0, 5),
            rnum(r, 10, 200), rnum(r, 50, 2000), rnum(r, 0.1, 1), r.choice([0, 1, rnum(r, 0, 5)]),
            d if d is not None else r.choice([1, 1, 2, 3, 4]), rnum(r, 1, 60)]


def gen_modes(r, k=None):
    k = k or r.choice([1, 1, 2])
    if k == 1:
        return [gen_mode(r, "bus")]
    a, b = gen_mode(r, "bus"), gen_mode(r, "metro", 1)
    if r.random() < 0.3:
        # the two modes agree in many things
        a = ["bus"] + [y if r.random() < 0.7 else x for x, y in zip(a[1:], b[1:])]
    return [a, b] if r.random() < 0.7 else [b, a]


def gen_pax(r):
    return [rnum(r, 2, 6)] + [rnum(r, 0.5, 10) for _ in range(3)] + [rnum(r, 0, 30)] + [rnum(r, 0.5, 10) for _ in range(3)] + [rnum(r, 0, 30)]


def adjacency(cbd, zones):
    adj = {}
    for a, b in expected_links(cbd, zones):
        if b not in adj.setdefault(a, []):
            adj[a].append(b)
    return adj


def simple_path(r, adj, a, b):
    """random simple path from a to b"""
    stack = [(a, [a])]
    while stack:
        x, p = stack.pop()
        if x == b:
            return p
        nb = [y for y in adj[x] if y not in p]
        r.shuffle(nb)
        for y in nb:
            stack.append((y, p + [y]))
    return None


def overlapping(r, adj, ni):
    """a way back that traverses a link of the way out in the same sense"""
    for _ in range(6):
        if len(ni) < 3:
            return None
        k = r.randrange(len(ni) - 1)
        u, v = ni[k], ni[k + 1]
        if ni[-1] in (u, v) and ni[-1] == v or ni[0] == u:
            continue
        p, q = simple_path(r, adj, ni[-1], u), simple_path(r, adj, v, ni[0])
        if p and q and not set(p) & set(q):
            return p + q
    return None


def pick_stops(r, seq):
    if r.random() < 0.5:
        return list(seq)
    return [seq[0]] + [x for x in seq[1:-1] if r.random() < 0.5] + [seq[-1]]


def gen_custom(r, adj, mode, i):
    nodes = sorted(adj)
    for _ in range(20):
        a, b = r.sample(nodes, 2)
        ni = simple_path(r, adj, a, b)
        if ni is None:
            continue
        u = r.random()
        nr = ni[::-1] if u < 0.4 else simple_path(r, adj, b, a)
        if u > 0.75:
            nr = overlapping(r, adj, ni) or nr
        return dict(type="custom", id="C%d" % i, mode=mode, ni=ni, nr=nr, si=pick_stops(r, ni), sr=pick_stops(r, nr))
    return None


def gen_routes(r, city, nmodes, rich=True, cover=False):
    g = build_city(city)
    cbd, zones = zone_ids(g)
    n = len(zones)
    adj = adjacency(cbd, zones)
    fams = []
    for m in range(nmodes):
        opts = [dict(type="feeder", mode=m), dict(type="radial", mode=m), dict(type="radial", mode=m, short=True),
                dict(type="radial", mode=m, express=True)]
        if n >= 2:
            opts.append(dict(type="circular", mode=m))
            for j in range(1, n // 2 + 1):
                for sh in (False, True):
                    for ex in (False, True):
                        opts.append(dict(type="diametral", mode=m, jump=j, short=sh, express=ex))
                        opts.append(dict(type="tangencial", mode=m, jump=j, short=sh, express=ex))
        fams.append(opts)
    out = []
    for m in range(nmodes):
        for o in r.sample(fams[m], min(len(fams[m]), r.choice([0, 1, 1, 2]))):
            out.append(o)
    if n >= 2 and r.random() < 0.3:
        out.append(dict(type="circular", mode=r.randrange(nmodes)))
    if cover:
        out.append(dict(type="radial", mode=r.randrange(nmodes)))
    for i in range(r.choice([0, 1, 2, 3])):
        c = gen_custom(r, adj, r.randrange(nmodes), i)
        if c:
            out.append(c)
    if not out:
        out.append(dict(type="radial", mode=0))
    # no duplicated family
    seen, res = set(), []
    for o in out:
        k = repr(sorted((k, v) for k, v in o.items() if k not in ("ni", "nr", "si", "sr")))
        if k not in seen:
            seen.add(k)
            res.append(o)
    r.shuffle(res)
    return res


def seq(s):
    return ",".join(str(x) for x in s)


def family(net, o, mode):
    t = o["type"]
    kw = {k: o[k] for k in ("jump", "short", "express") if k in o}
    return {"feeder": net.get_feeder_routes, "radial": net.get_radial_routes, "circular": net.get_circular_routes,
            "diametral": net.get_diametral_routes, "tangencial": net.get_tangencial_routes}[t](mode, **kw)


class World:
    """real objects built from one descriptor"""

    def __init__(self, d):
        self.d = d
        self.city = build_city(d["city"])
        self.cbd, self.zones = zone_ids(self.city)
        if "modes" in d:
            self.modes = [TransportMode(*m) for m in d["modes"]]
            self.net = TransportNetwork(self.city)
            for o in d["routes"]:
                m = self.modes[o["mode"]]
                if o["type"] == "custom":
                    self.net.add_route(Route(o["id"], m, seq(o["ni"]), seq(o["nr"]), seq(o["si"]), seq(o["sr"])))
                else:
                    for rt in family(self.net, o, m):
                        self.net.add_route(rt)
            self.routes = list(self.net.get_routes())
        if "pax" in d:
            self.pax = Passenger(*d["pax"])
        if "demand" in d:
            self.demand = build_demand(self.city, d["demand"])
        if "f" in d:
            self.f = self.freq(d["f"])

    def freq(self, fl):
        from collections import defaultdict
        f = defaultdict(float)
        for i, rt in enumerate(self.routes):
            f[rt.id] = fl[i % len(fl)]
        return f


def build_demand(city, d):
    if d["kind"] == "param":
        return Demand.build_from_parameters(city, d["y"], d["a"], d["alpha"], d["beta"])
    dem = Demand(city)
    ids = [n.id for n in city.get_nodes()]
    for i, j, v in d["cells"]:
        dem.change_vij(int(ids[i % len(ids)]), int(ids[j % len(ids)]), v)
    return dem


def gen_demand(r, n):
    if r.random() < 0.4:
        al = rnum(r, 0, 0.9, 2)
        return dict(kind="param", y=rnum(r, 10, 20000), a=rnum(r, 0, 1, 2), alpha=al, beta=rnum(r, 0, max(0, 0.95 - al), 2))
    m = 2 * n + 1
    cells = []
    for _ in range(r.randint(1, 6)):
        i, j = r.sample(range(m), 2)
        cells.append([i, j, amount(r)])
    return dict(kind="cells", cells=cells)


def gen_world(r, nmax=4, zero_f=0.15, cover=True, nmodes=None, min_mode_d=None):
    city = gen_city(r, 1, nmax, plain=r.random() < 0.5, far=True)
    modes = gen_modes(r, nmodes)
    routes = gen_routes(r, city, len(modes), cover=cover)
    fl = [0 if r.random() < zero_f else rnum(r, 0.5, 60) for _ in range(r.randint(1, 40))]
    if r.random() < 0.25:
        # frequencies of very different sizes
        fl = [10 ** r.uniform(-2.5, 2.5) if x and r.random() < 0.6 else x for x in fl]
    return dict(city=city, modes=modes, routes=routes, pax=gen_pax(r), f=fl, demand=gen_demand(r, city["n"]))


def rng(prop, seed, i):
    return random.Random("%s/%s/%s" % (prop, seed, i))
