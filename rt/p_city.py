"""C01-C07: city and demand"""
import itertools
import math
import os
import tempfile

from lib import *


# ---------------------------------------------------------------- C01 topology
def city_cases(r, i):
    if i < 9:
        return dict(city=dict(kind="param", n=i, l=10, g=0.5, p=2))
    if i == 9:
        return dict(city=dict(kind="param", n=r.randint(128, 180), l=10, g=0.5, p=2))
    return dict(city=gen_city(r, 1, 12 if i % 4 == 0 else 6, text=False))


def c01(case):
    c = case["city"]
    g = build_city(c)
    n = c["n"]
    nodes = g.get_nodes()
    need(len(nodes) == 2 * n + 1, "%d nodes for %d zones", len(nodes), n)
    need([nd.id for nd in nodes] == list(range(2 * n + 1)), "node ids %s", [nd.id for nd in nodes])
    for nd in nodes:
        want = CBD if nd.id == 0 else (Periphery if nd.id % 2 else Subcenter)
        need(isinstance(nd, want), "node %s is a %s", nd.id, type(nd).__name__)
        need(nd.zone_id == (nd.id + 1) // 2, "node %s in zone %s", nd.id, nd.zone_id)
        need(nd.width == c["p"], "node %s width %s", nd.id, nd.width)
    zs = g.get_zones()
    need(len(zs) == n, "%d zones", len(zs))
    for k, z in enumerate(zs):
        need(z.id == k + 1 and z.periphery is nodes[2 * k + 1] and z.subcenter is nodes[2 * k + 2],
             "zone %s does not hold the nodes of the list", z.id)
    need(g.get_n() == n, "n is %s", g.get_n())
    need(g.get_cbd() is nodes[0], "CBD lookup")
    exp = expected_links(0, [(2 * k + 1, 2 * k + 2) for k in range(n)])
    check_links(g, exp)
    ids = [nd.id for nd in nodes] + [-1, 2 * n + 1]
    have = set(exp)
    pairs = [(a, b) for a in ids for b in ids] if n < 20 else exp[:40] + exp[-40:] + list(zip(ids, ids[5:]))[::3]
    for a, b in pairs:
        # the ids of a query are computed by the caller: equal numbers, not the same objects
        x = g.edge_exist(int(str(a)), int(str(b)))
        need(bool(x) == ((a, b) in have), "link query %s-%s says %s", a, b, x)


def check_links(g, exp):
    got = [(e.node1.id, e.node2.id) for e in g.get_edges()]
    need(len(got) == len(set(got)), "a link is present twice: %s", got)
    need(set(got) == set(exp), "links %s, expected %s", sorted(got), sorted(exp))
    need(sorted(e.id for e in g.get_edges()) == list(range(1, len(exp) + 1)), "link ids %s", [e.id for e in g.get_edges()])
    byid = {nd.id: nd for nd in g.get_nodes()}
    for e in g.get_edges():
        need(e.node1 is byid[e.node1.id] and e.node2 is byid[e.node2.id], "link %s uses a node outside the list", e.id)


# ---------------------------------------------------------------- C02 geometry
def polar(x, y):
    return math.degrees(math.atan2(y, x)) % 360


def same_angle(a, b, what, tol=1e-6):
    d = abs(a - b) % 360
    need(min(d, 360 - d) <= tol, "%s: angle %r, expected %r", what, a, b)


def c02_cases(r, i):
    c = gen_city(r, 1, 6, text=False)
    return dict(city=c, pts=[[r.choice([0, 0.0, 1, -1, 5, -5, rnum(r, -50, 50)]) for _ in range(2)] for _ in range(6)])


def c02(case):
    c = case["city"]
    g = build_city(c)
    n = c["n"]
    ang = c.get("angles") or [360 / n * k for k in range(n)]
    gi = c.get("Gi") or [1] * n
    hi = c.get("Hi") or [1] * n
    want = {}
    for k in range(n):
        want[2 * k + 1] = ((c["l"] + c["g"] * c["l"]) * hi[k], ang[k])
        want[2 * k + 2] = (c["l"] * gi[k], ang[k])
    want[0] = (0, 0)
    if c.get("etha") is not None:
        want[0] = (c["etha"] * want[2 * c["etha_zone"]][0], ang[c["etha_zone"] - 1])
    zn = [nd for z in g.get_zones() for nd in (z.periphery, z.subcenter)]
    for nd in list(g.get_nodes()) + zn:
        rad, a = want[nd.id]
        same(nd.radius, rad, "radius of node %s" % nd.id)
        if not (rad == 0 and nd.id == 0):
            same_angle(nd.angle, a, "node %s" % nd.id)
        same(nd.x, rad * math.cos(math.radians(a)), "x of node %s" % nd.id)
        same(nd.y, rad * math.sin(math.radians(a)), "y of node %s" % nd.id)
    need(len(g.get_nodes()) == 2 * n + 1 and len(zn) == 2 * n, "node count")
    check_links(g, expected_links(0, [(2 * k + 1, 2 * k + 2) for k in range(n)]))
    pos = {i: (rad * math.cos(math.radians(a)), rad * math.sin(math.radians(a))) for i, (rad, a) in want.items()}
    dist = g.get_edges_distance()
    pairs = set((a, b) for a in dist for b in dist[a])
    need(pairs == set(expected_links(0, [(2 * k + 1, 2 * k + 2) for k in range(n)])), "lengths for pairs %s", sorted(pairs))
    for a, b in pairs:
        same(dist[a][b], math.hypot(pos[a][0] - pos[b][0], pos[a][1] - pos[b][1]), "length %s-%s" % (a, b))
        need(dist[a][b] == dist[b][a], "length %s-%s differs from its opposite", a, b)
    for x, y in case["pts"]:
        a = Graph.get_angle(x, y)
        need(0 <= a <= 360, "angle of (%s,%s) is %s", x, y, a)
        if (x, y) != (0, 0):
            same_angle(a, polar(x, y), "point (%s,%s)" % (x, y), 1e-5)
    for k in range(n):
        x, y = Graph.get_xy(c["l"], ang[k])
        same(x, c["l"] * math.cos(math.radians(ang[k])), "x of polar")
        same(y, c["l"] * math.sin(math.radians(ang[k])), "y of polar")


# ---------------------------------------------------------------- C03 parameter validation
def c03_cases(r, i):
    n = r.choice([0, 1, 2, 3, -1, 2.0, 2.5, 4])
    nn = int(abs(n))
    bad = r.random() < 0.7

    def v(good, *bads):
        return r.choice(bads) if bad and r.random() < 0.25 else (good() if callable(good) else good)

    c = dict(n=n, l=v(10, 0, -1, -0.001, 0.0), g=v(0.5, 0, -1, -1e-9), p=v(2, 0, -2, -1e-9), etha=None, etha_zone=None,
             angles=None, Gi=None, Hi=None)
    if r.random() < 0.5:
        c["etha"] = v(0.5, 0, 1, 1.0001, -0.0001, None, 2)
        c["etha_zone"] = v(1, nn, nn + 1, 0, -1, None, 1.0, 1.5)
    for k, bads in (("angles", (-1, 360.0001, 361)), ("Gi", (-1, -1e-9)), ("Hi", (-1, -1e-9))):
        if r.random() < 0.4:
            c[k] = [v(lambda: r.choice([0, 1, 360 if k == "angles" else 2.5, 0.5]), *bads) for _ in range(v(nn, nn + 1, max(0, nn - 1)))]
    nodes = dict(radius=r.choice([0, 1, -1, -1e-9]), angle=r.choice([0, 360, 180, -1e-9, 360.001]), width=r.choice([0, 1, -1e-9]),
                 zone=r.choice([0, 1, 2, None, -1]), id=r.choice([1, None, 0]), name=r.choice(["a", None, ""]))
    zone = dict(id=r.choice([1, 2, 0, -1, None]), zp=r.choice([1, 2]), zs=r.choice([1, 2]), tp=r.choice("PSC"), ts=r.choice("PSC"))
    edge = dict(id=r.choice([1, None]), a=r.choice("PSC"), b=r.choice("PSC"))
    return dict(params=c, node=nodes, zone=zone, edge=edge)


def first_bad(c):
    n, l, g, p = c["n"], c["l"], c["g"], c["p"]
    if n < 0 or not isinstance(n, int):
        return exc.NIsNotValidNumberException
    for v, e in ((l, exc.LIsNotValidNumberException), (g, exc.GIsNotValidNumberException), (p, exc.PIsNotValidNumberException)):
        if v < 0:
            return e
    e, z = c["etha"], c["etha_zone"]
    if e is None and z is not None:
        return exc.EthaValueRequiredException
    if e is not None and z is None:
        return exc.EthaZoneValueRequiredException
    if e is not None:
        if not 0 <= e <= 1:
            return exc.EthaValueIsNotValidException
        if not (isinstance(z, int) and 1 <= z <= n):
            return exc.EthaZoneValueIsNotValidException
    for k, hi, el, ev in (("angles", 360, exc.AngleListLengthIsNotValidException, exc.AngleValueIsNotValidException),
                          ("Gi", math.inf, exc.GiListLengthIsNotValidException, exc.GiValueIsNotValidException),
                          ("Hi", math.inf, exc.HiListLengthIsNotValidException, exc.HiValueIsNotValidException)):
        if c[k] is not None:
            if len(c[k]) != n:
                return el
            if any(not 0 <= x <= hi for x in c[k]):
                return ev
    return None


def mk(t, zone, id=1, radius=1, angle=0, width=1, name="x"):
    cls = {"C": CBD, "P": Periphery, "S": Subcenter}[t]
    return cls(id, 1, 0, radius, angle, width, 0 if t == "C" else zone, name)


def c03(case):
    c = case["params"]
    e = raises(lambda: Graph.build_from_parameters(**c))
    want = first_bad(c)
    need((e is None) == (want is None) and (e is None or type(e) is want), "parameters %s: raised %r, expected %s", c, e,
         want.__name__ if want else "acceptance")
    a = case["node"]
    for cls, zone in ((Periphery, a["zone"]), (Subcenter, a["zone"]), (CBD, a["zone"])):
        e = raises(lambda: cls(a["id"], 1, 1, a["radius"], a["angle"], a["width"], zone, a["name"]))
        ok = a["radius"] >= 0 and 0 <= a["angle"] <= 360 and a["width"] >= 0 and zone is not None and a["id"] is not None \
            and a["name"] is not None and (cls is not CBD or zone == 0)
        need((e is None) == ok, "%s %s: raised %r", cls.__name__, a, e)
        need(e is None or isinstance(e, exc.SIDERMITException), "%s %s: raised %r", cls.__name__, a, e)
    from sidermit.city.graph import Zone, Edge
    z = case["zone"]
    p, s = mk(z["tp"], z["zp"]), mk(z["ts"], z["zs"])
    e = raises(lambda: Zone(z["id"], p, s))
    ok = z["id"] is not None and z["id"] > 0 and z["tp"] == "P" and z["ts"] == "S" and z["zp"] == z["id"] == z["zs"]
    need((e is None) == ok and (e is None or isinstance(e, exc.SIDERMITException)), "zone %s: raised %r", z, e)
    d = case["edge"]
    e = raises(lambda: Edge(d["id"], mk(d["a"], 1), mk(d["b"], 1)))
    if d["id"] is None or (d["a"] + d["b"]) in ("PP", "PC", "CP"):
        need(isinstance(e, exc.SIDERMITException), "link %s: raised %r", d, e)
    elif (d["a"] + d["b"]) in ("PS", "SP", "SS", "SC", "CS"):
        need(e is None, "link %s: raised %r", d, e)


# ---------------------------------------------------------------- C04 import / export
def c04_cases(r, i):
    if i % 3 == 0:
        return dict(kind="roundtrip", city=gen_city(r, 1, r.choice([6, 6, 6, 30]), far=True, text=r.random() < 0.4))
    c = gen_city(r, 1, r.choice([4, 4, 4, 25]), far=True, text=False)
    g = build_city(c)
    rows = []
    for nd in g.get_nodes():
        t = "CBD" if isinstance(nd, CBD) else ("P" if isinstance(nd, Periphery) else "SC")
        rows.append([nd.id, "N%d" % nd.id, nd.x, nd.y, t, nd.zone_id, c["p"]])
    if i % 3 == 1:
        for _ in range(r.choice([1, 1, 2])):
            if not rows:
                break
            k = r.randrange(len(rows))
            m = r.choice(["del", "dup", "id", "type", "zone", "two", "cbd"])
            if m == "del":
                rows.pop(k)
            elif m == "dup":
                rows.append(list(r.choice(rows)))
            elif m == "id":
                rows[k][0] = r.choice(rows)[0]
            elif m == "type":
                rows[k][4] = r.choice(["P", "SC", "CBD", "X"])
            elif m == "zone":
                rows[k][5] = r.choice([0, 1, 2, 3, c["n"] + 1, -1])
            elif m == "two":
                rows = rows[:-2]
            else:
                rows = [x for x in rows if x[4] != "CBD"] or rows
    else:
        ids = r.sample(range(0, 99), len(rows))
        for k, x in enumerate(rows):
            x[0] = ids[k]
            x[6] = rnum(r, 0.1, 5)
    if i % 15 == 4:
        rows = [[1, "N", 1.0, 2.0, r.choice(["P", "SC", "CBD"]), r.choice([0, 1]), 1]]
    r.shuffle(rows)
    good = i % 3 == 2 and i % 15 != 4
    if good and r.random() < 0.2:
        for x in rows:
            x[1] = r.choice(["plaza", "P", "CBD", "Ñuñoa-%s" % x[0], "n_1", "7", x[1]])
    sep = r.choice([" ", " ", " ", "\t", "  "])
    lines = [sep.join(str(v) for v in x) for x in rows]
    bad = not good and len(lines) > 2 and r.random() < 0.25
    if bad:
        # a line that is no node line
        k = r.randrange(len(lines))
        f = lines[k].split(sep)
        f = r.choice([f[:-1], f + ["1"], f[:1] + f[2:], ["1.5"] + f[1:], ["a"] + f[1:], f[:5] + ["x"] + f[6:], f[:4] + ["p"] + f[5:], []])
        lines[k] = sep.join(f)
    text = r.choice(["", "", "some words before\n\n"]) + r.choice(["*vertices", "*vertices", "*Vertices", "*VERTICES"]) + " %d\n" % len(rows) + \
        "\n".join(lines) + "\n" + r.choice(["", "", "\n\n", "*arcs\n1 2 3\n"])
    return dict(kind="text", rows=rows, text=text, good=good, bad=bad)


def check_imported(g, rows):
    nodes = g.get_nodes()
    need(len(rows) == len(nodes), "%d lines but %d nodes", len(rows), len(nodes))
    ids = [nd.id for nd in nodes]
    need(len(set(ids)) == len(ids), "duplicate node ids %s", ids)
    by = {nd.id: nd for nd in nodes}
    n = (len(rows) - 1) // 2
    need(sum(isinstance(nd, CBD) for nd in nodes) == 1, "city without exactly one CBD")
    for k in range(1, n + 1):
        for cls in (Periphery, Subcenter):
            need(sum(isinstance(nd, cls) and nd.zone_id == k for nd in nodes) == 1, "zone %d without exactly one %s", k, cls.__name__)
    for i, name, x, y, t, z, w in rows:
        need(int(i) in by, "node %s missing", i)
        nd = by[int(i)]
        need(isinstance(nd, {"CBD": CBD, "P": Periphery, "SC": Subcenter}[t]), "type of node %s", i)
        need(nd.name == name and nd.zone_id == int(z), "name or zone of node %s", i)
        need(nd.x == float(x) and nd.y == float(y) and nd.width == float(w), "coordinates or width of node %s", i)
        same(nd.radius, math.hypot(float(x), float(y)), "radius of node %s" % i)
        if (float(x), float(y)) != (0, 0):
            same_angle(nd.angle, polar(float(x), float(y)), "node %s" % i, 1e-5)
    zs = g.get_zones()
    need([z.id for z in zs] == list(range(1, n + 1)), "zones %s", [z.id for z in zs])
    for z in zs:
        need(z.periphery.zone_id == z.id and z.subcenter.zone_id == z.id and isinstance(z.periphery, Periphery)
             and isinstance(z.subcenter, Subcenter) and by[z.periphery.id] is z.periphery and by[z.subcenter.id] is z.subcenter,
             "zone %s holds other nodes", z.id)
    cbd, zones = zone_ids(g)
    check_links(g, expected_links(cbd, zones))
    need(g.get_n() == n, "n is %s", g.get_n())


def c04(case):
    if case["kind"] == "text":
        try:
            g = Graph.build_from_content(case["text"])
        except Exception as e:  # noqa: BLE001
            need(not case["good"], "well-formed city refused: %r", e)
            return
        need(not case.get("bad"), "text with a line that is no node line accepted")
        check_imported(g, case["rows"])
        return
    g = build_city(case["city"])
    text = g.export_graph()
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "g.txt")
        g.graph_to_pajek_file(f)
        h = Graph.build_from_content(text)
        h2 = Graph.build_from_file(f)
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    for q in (h, h2):
        rows = [[nd.id, nd.name, nd.x, nd.y, "CBD" if isinstance(nd, CBD) else ("P" if isinstance(nd, Periphery) else "SC"),
                 nd.zone_id, nd.width] for nd in g.get_nodes()]
        check_imported(q, rows)
        a, b = g.get_edges_distance(), q.get_edges_distance()
        for i in a:
            for j in a[i]:
                same(b[i][j], a[i][j], "length %s-%s" % (i, j))


# ---------------------------------------------------------------- C05 demand bookkeeping
def c05_cases(r, i):
    c = gen_city(r, 1, 3, far=True, text=r.random() < 0.4)
    ops = []
    for _ in range(r.randint(1, 14)):
        o, d = r.randrange(-1, 2 * c["n"] + 2), r.randrange(-1, 2 * c["n"] + 2)
        ops.append([o, d, r.choice([0, 1, 10, rnum(r, 0, 100), -1, -0.001])])
        if r.random() < 0.3:
            ops.append([ops[-1][0], ops[-1][1], rnum(r, 0, 50)])
    return dict(city=c, ops=ops)


def snap(dem):
    m = dem.get_matrix()
    return {(i, j): m[i][j] for i in list(m) for j in list(m[i])}


def c05(case):
    g = build_city(case["city"])
    ids = [int(n.id) for n in g.get_nodes()]
    dem = Demand(g)
    exp = {(i, j): 0 for i in ids for j in ids}
    need(snap(dem) == exp, "initial matrix %s", snap(dem))
    need(dem.get_total_trips() == 0, "initial total %s", dem.get_total_trips())
    for o, d, v in case["ops"]:
        oi = ids[o] if 0 <= o < len(ids) else 1000 + o
        di = ids[d] if 0 <= d < len(ids) else 1000 + d
        e = raises(lambda: dem.change_vij(oi, di, v))
        ok = v >= 0 and oi in ids and di in ids
        need((e is None) == ok, "change (%s,%s)=%s raised %r", oi, di, v, e)
        if ok:
            exp[oi, di] = v
        need(snap(dem) == exp, "matrix after change (%s,%s)=%s: %s, expected %s", oi, di, v, snap(dem), exp)
        same(dem.get_total_trips(), sum(exp.values()), "total trips")


# ---------------------------------------------------------------- C06 demand generator
def c06_cases(r, i):
    c = gen_city(r, 1, 5, far=True, text=r.random() < 0.3)
    if i < 6:
        c["n"] = i % 4 + 1 if c["kind"] == "param" else c["n"]
        for k in ("angles", "Gi", "Hi", "etha", "etha_zone"):
            c.pop(k, None) if c["kind"] == "param" else None
    al = r.choice([0, 1, 0.9, 0.3, 1 / 3, rnum(r, 0, 1, 2)])
    be = r.choice([0, 0.1, 0.5, rnum(r, 0, 0.99, 2), max(0, 1 - al), round(max(0, 1 - al), 6)])
    return dict(city=c, y=r.choice([0, 1, 1000, rnum(r, 0, 1e5), -1, -0.1] if r.random() < 0.2 else [1000, rnum(r, 1, 1e5)]),
                a=r.choice([0, 1, 0.5, rnum(r, 0, 1)] + ([1.01, -0.01] if r.random() < 0.2 else [])),
                alpha=al if r.random() < 0.95 else r.choice([1.1, -0.1]), beta=be if r.random() < 0.93 else r.choice([1, 1.0, -0.1]))


def c06(case):
    g = build_city(case["city"])
    y, a, al, be = case["y"], case["a"], case["alpha"], case["beta"]
    e = None
    try:
        dem = Demand.build_from_parameters(g, y, a, al, be)
    except Exception as x:  # noqa: BLE001
        e = x
    ok = y >= 0 and 0 <= a <= 1 and 0 <= al <= 1 and 0 <= be < 1 and al + be <= 1
    need((e is None) == ok, "Y=%r a=%r alpha=%r beta=%r: raised %r", y, a, al, be, e)
    if not ok:
        need(isinstance(e, exc.SIDERMITException), "raised %r", e)
        return
    cbd, zones = zone_ids(g)
    n = len(zones)
    m = dem.get_matrix()
    tol = dict(rel=1e-9)
    same(dem.get_total_trips(), y, "total trips", 1e-6)
    same(sum(m[i][j] for i in m for j in m[i]), y, "sum of the matrix", 1e-6)
    exp = {}
    for k, (p, sc) in enumerate(zones):
        yp, ys = a * y / n, (1 - a) * y / n
        if n == 1:
            exp[p, cbd], exp[p, sc], exp[sc, cbd] = al * yp, (1 - al) * yp, ys
        else:
            gm = max(0, 1 - al - be)
            exp[p, cbd], exp[p, sc] = al * yp, be * yp
            exp[sc, cbd] = ys * al / (1 - be)
            for k2, (p2, sc2) in enumerate(zones):
                if k2 != k:
                    exp[p, sc2] = gm * yp / (n - 1)
                    exp[sc, sc2] = ys * gm / (1 - be) / (n - 1)
    for i in [x.id for x in g.get_nodes()]:
        for j in [x.id for x in g.get_nodes()]:
            need(close(m[i][j], exp.get((i, j), 0), 1e-7, 1e-9 * max(1, y)), "trips %s-%s: %r, expected %r", i, j, m[i][j], exp.get((i, j), 0))


# ---------------------------------------------------------------- C07 demand files
def c07_cases(r, i):
    c = gen_city(r, 1, 3, far=True, text=r.random() < 0.4)
    m = 2 * c["n"] + 1
    mat = [[r.choice([0, rnum(r, 0, 100), r.randint(0, 9), 10 ** r.uniform(-8, 8)]) for _ in range(m)] for _ in range(m)]
    bad = None
    if r.random() < 0.5:
        bad = r.choice(["row", "col", "neg", "rowmore", "colmore"])
        k = r.randrange(m)
        if bad == "row":
            mat.pop()
        elif bad == "col":
            mat[k].pop()
        elif bad == "neg":
            mat[k][r.randrange(m)] = r.choice([-1, -0.01])
        elif bad == "rowmore":
            mat.append([0] * m)
        else:
            mat[k].append(0)
    lines = []
    for _ in range(r.randint(0, 8)):
        lines.append([r.randrange(m), r.randrange(m), r.choice([0, 1, rnum(r, 0, 99), 0.1, amount(r)])])
    return dict(city=c, matrix=mat, bad=bad, lines=lines, spoil=r.choice([None, None, "fields", "id", "neg", "unknown"]))


def c07(case):
    g = build_city(case["city"])
    ids = [int(n.id) for n in g.get_nodes()]
    mat = case["matrix"]
    e, dem = None, None
    try:
        dem = Demand.build_from_content(g, mat)
    except Exception as x:  # noqa: BLE001
        e = x
    need((e is None) == (case["bad"] is None), "matrix (%s) raised %r", case["bad"], e)
    d = tempfile.mkdtemp()
    try:
        if dem is not None:
            exp = {(ids[i], ids[j]): mat[i][j] for i in range(len(ids)) for j in range(len(ids))}
            need(snap(dem) == exp, "matrix taken over as %s, expected %s", snap(dem), exp)
            same(dem.get_total_trips(), sum(exp.values()), "total")
            f = os.path.join(d, "m.csv")
            dem.matrix_to_file(f)
            back = Demand.build_from_file(g, f)
            need(snap(back) == exp, "matrix read back as %s, expected %s", snap(back), exp)
            same(back.get_total_trips(), sum(exp.values()), "total read back")
        f = os.path.join(d, "l.csv")
        rows = [[ids[a], ids[b], v] for a, b, v in case["lines"]]
        sp = case["spoil"]
        txt = [",".join(repr(x) for x in q) for q in rows]
        if sp == "fields":
            txt.append("%d,%d" % (ids[0], ids[1]))
        if sp == "id":
            txt.append("x,%d,1" % ids[0])
        if sp == "neg":
            txt.append("%d,%d,-1" % (ids[0], ids[1]))
        if sp == "unknown":
            txt.append("%d,%d,1" % (ids[0], 5000))
        with open(f, "w") as fh:
            fh.write("origin,destination,vij\n" + "\n".join(txt) + ("\n" if txt else ""))
        e = None
        try:
            q = Demand.build_from_file(g, f)
        except Exception as x:  # noqa: BLE001
            e = x
        need((e is None) == (sp is None), "file (%s) raised %r", sp, e)
        if e is None:
            exp = {(i, j): 0 for i in ids for j in ids}
            for a, b, v in rows:
                exp[a, b] = v
            need(snap(q) == exp, "file taken over as %s, expected %s", snap(q), exp)
            same(q.get_total_trips(), sum(exp.values()), "total from file")
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


PROPS = {"C01": (city_cases, c01, 200), "C02": (c02_cases, c02, 400), "C03": (c03_cases, c03, 3000), "C04": (c04_cases, c04, 900),
         "C05": (c05_cases, c05, 400), "C06": (c06_cases, c06, 500), "C07": (c07_cases, c07, 250)}
