"""C08-C12: modes, passengers, routes, network registry, predefined families"""
import math

from lib import *

MODE_EXC = dict(name="NameIsNotValidExceptions", bya="ByaIsNotValidExceptions", co="CoIsNotValidExceptions", c1="C1IsNotValidExceptions",
                c2="C2IsNotValidExceptions", v="VIsNotValidExceptions", t="TIsNotValidExceptions", fmax="FmaxIsNotValidExceptions",
                kmax="KmaxIsNotValidExceptions", theta="ThetaIsNotValidExceptions", tat="TatIsNotValidExceptions",
                d="DIsNotValidExceptions", fini="FiniIsNotValidException")
PAX_EXC = dict((f, f.capitalize() + "IsNotValidExceptions") for f in PAX_FIELDS)


# ---------------------------------------------------------------- C08
def in_range(field, v):
    if v is None:
        return False
    if field == "name":
        return True
    if field == "bya":
        return v in (0, 1)
    if field == "theta":
        return 0 <= v <= 1
    if field in ("v", "va"):
        return v > 0
    return v >= 0


VALS = [None, 0, 1, -1, 1e-12, -1e-12, 0.5, 1.0000001, 2, 7, 0.0, 3.75]


def c08_cases(r, i):
    mode = gen_mode(r, "m")
    pax = gen_pax(r)
    if i % 2:
        for lst in (mode, pax):
            for k in range(1 if lst is mode else 0, len(lst)):
                if r.random() < 0.12:
                    lst[k] = r.choice([0, 1, -1e-12, -3] + ([None] if not (lst is mode and k in (7, 11, 12)) else []))
    ops = []
    for _ in range(r.randint(4, 30)):
        w = r.choice("mp")
        f = r.choice(MODE_FIELDS if w == "m" else PAX_FIELDS)
        ops.append([w, f, r.choice(VALS + ["x", ""]) if f == "name" else r.choice(VALS)])
    return dict(mode=mode, pax=pax, ops=ops)


def construct(cls, fields, vals, excs, scale=()):
    want = dict(zip(fields, vals))
    for f in scale:
        want[f] = want[f] * want["d"]
    bad = [f for f in fields if not in_range(f, want[f])]
    obj, e = None, None
    try:
        obj = cls(*vals)
    except Exception as x:  # noqa: BLE001
        e = x
    need((e is None) == (not bad), "%s(%s): raised %r", cls.__name__, vals, e)
    if bad:
        need(type(e).__name__ in [excs[f] for f in bad], "%s(%s): raised %r, bad fields %s", cls.__name__, vals, e, bad)
        return None
    for f in fields:
        need(getattr(obj, f) == want[f], "%s.%s is %r, given %r", cls.__name__, f, getattr(obj, f), want[f])
    return obj


def c08(case):
    m = construct(TransportMode, MODE_FIELDS, case["mode"], MODE_EXC, ("fmax", "fini"))
    p = construct(Passenger, PAX_FIELDS, case["pax"], PAX_EXC)
    m = m or TransportMode("a", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
    p = p or Passenger(1, 1, 1, 1, 1, 1, 1, 1, 1)
    # a second object must not share state
    m2, p2 = TransportMode("b", 0, 2, 2, 2, 2, 2, 2, 2, .5, 2, 2, 2), Passenger(2, 2, 2, 2, 2, 2, 2, 2, 2)
    snap2 = [[getattr(m2, f) for f in MODE_FIELDS], [getattr(p2, f) for f in PAX_FIELDS]]
    for w, f, v in case["ops"]:
        o, fields, excs = (m, MODE_FIELDS, MODE_EXC) if w == "m" else (p, PAX_FIELDS, PAX_EXC)
        before = {g: getattr(o, g) for g in fields}
        e = raises(lambda: setattr(o, f, v))
        ok = in_range(f, v)
        need((e is None) == ok, "assigning %s=%r raised %r", f, v, e)
        if not ok:
            need(type(e).__name__ == excs[f], "assigning %s=%r raised %r", f, v, e)
        else:
            before[f] = v
        for g in fields:
            need(getattr(o, g) == before[g], "after assigning %s=%r, %s is %r instead of %r", f, v, g, getattr(o, g), before[g])
    need(snap2 == [[getattr(m2, f) for f in MODE_FIELDS], [getattr(p2, f) for f in PAX_FIELDS]], "another object was changed")


# ---------------------------------------------------------------- C09
def c09_cases(r, i):
    ops = []
    for _ in range(r.randint(1, 14)):
        ops.append([r.choice(["add", "add", "rm", "get", "valid", "bad"]), r.choice(["bus", "metro", "a", "b", "c"]), r.choice([1, 1, 2, 4, 0])])
    return dict(default=r.random() < 0.5, ops=ops)


def c09(case):
    man = TransportModeManager(case["default"]) if case["default"] else TransportModeManager(add_default_mode=False)
    exp = list(man.get_modes())
    need([m.name for m in exp] == (["bus", "metro"] if case["default"] else []), "initial registry %s", [m.name for m in exp])
    for op, name, d in case["ops"]:
        cur = {m.name: m for m in exp}
        if op == "add":
            m = TransportMode(name, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, d, 1)
            e = raises(lambda: man.add_mode(m))
            need((e is None) == (name not in cur), "adding %s to %s raised %r", name, sorted(cur), e)
            if e is None:
                exp.append(m)
        elif op == "bad":
            e = raises(lambda: man.add_mode(name))
            need(e is not None, "adding something that is not a mode was accepted")
        elif op == "rm":
            e = raises(lambda: man.remove_mode(name))
            need((e is None) == (name in cur), "removing %s from %s raised %r", name, sorted(cur), e)
            exp = [m for m in exp if m.name != name]
        elif op == "get":
            got, e = None, None
            try:
                got = man.get_mode(name)
            except Exception as x:  # noqa: BLE001
                e = x
            need((e is None) == (name in cur), "looking up %s raised %r", name, e)
            need(e is not None or got is cur[name], "looking up %s returned another mode", name)
        ok = len(exp) == 1 or (len(exp) == 2 and any(m.d == 1 for m in exp))
        got, e = None, None
        try:
            got = man.is_valid_to_assignment_step()
        except Exception as x:  # noqa: BLE001
            e = x
        need((e is None and got is True) if ok else (e is not None), "set of modes with lines %s: returned %r raised %r", [m.d for m in exp], got, e)
        need(len(man.get_modes()) == len(exp) and all(a is b for a, b in zip(man.get_modes(), exp)), "registry after %s %s: %s, expected %s",
             op, name, [m.name for m in man.get_modes()], [m.name for m in exp])
        need(list(man.get_modes_names()) == [m.name for m in exp], "names %s, expected %s", man.get_modes_names(), [m.name for m in exp])
        for m in exp:
            need(man.get_mode(m.name) is m, "looking up %s returned another mode", m.name)


# ---------------------------------------------------------------- C10
def c10_cases(r, i):
    k = r.randint(1, 6)
    ids = r.sample(range(-3, 30), k)
    ni = list(ids)
    mid = r.sample([x for x in range(-3, 40) if x not in (ni[0], ni[-1])], r.randint(0, 4))
    nr = [ni[-1]] + (ni[1:-1][::-1] if r.random() < 0.6 else mid) + [ni[0]] if len(ni) > 1 else [ni[0]]
    si, sr = pick_stops(r, ni) if len(ni) > 1 else list(ni), pick_stops(r, nr) if len(nr) > 1 else list(nr)
    seqs = [ni, nr, si, sr]
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        q = r.choice(seqs)
        m = r.choice(["empty", "drop", "ins", "chg", "dup", "rev"])
        if m == "empty":
            del q[:]
        elif m == "drop" and q:
            q.pop(r.choice([0, -1, r.randrange(len(q))]))
        elif m == "ins":
            q.insert(r.randint(0, len(q)), r.choice(ids + [50]))
        elif m == "chg" and q:
            q[r.choice([0, -1, r.randrange(len(q))])] = r.choice(ids + [51])
        elif m == "dup" and q:
            q.append(r.choice(q))
        elif m == "rev":
            q.reverse()
    return dict(seqs=seqs, id=r.choice(["R1", "x", 0, "", None]) if r.random() < 0.3 else "R1", mode=r.random() > 0.07,
                none=r.choice([None] * 12 + [0, 1, 2, 3]), lst=[r.randint(-10**6, 10**6) for _ in range(r.randint(0, 6))])


def c10(case):
    ni, nr, si, sr = case["seqs"]
    txt = [seq(s) for s in case["seqs"]]
    if case["none"] is not None:
        txt[case["none"]] = None
        ni, nr, si, sr = [[] if k == case["none"] else s for k, s in enumerate(case["seqs"])]
    ok = case["id"] is not None and case["mode"] and all([ni, nr, si, sr])
    ok = ok and ni[0] == nr[-1] and nr[0] == ni[-1] and len(set(ni)) == len(ni) and len(set(nr)) == len(nr)
    ok = ok and set(si) <= set(ni) and set(sr) <= set(nr) and (si[0], si[-1], sr[0], sr[-1]) == (ni[0], ni[-1], nr[0], nr[-1])
    m = TransportMode("bus", 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
    rt, e = None, None
    try:
        rt = Route(case["id"], m if case["mode"] else "bus", *txt)
    except Exception as x:  # noqa: BLE001
        e = x
    need((e is None) == bool(ok), "route %s raised %r", case, e)
    need(e is None or isinstance(e, exc.SIDERMITException), "route raised %r", e)
    if ok:
        need(rt.id == case["id"] and rt.mode is m and rt._type == RouteType.CUSTOM, "id, mode or type of the route")
        got = [rt.nodes_sequence_i, rt.nodes_sequence_r, rt.stops_sequence_i, rt.stops_sequence_r]
        need(got == [ni, nr, si, sr], "sequences stored %s", got)
    for s in (case["lst"], ni):
        need(Route.sequences_to_list(Route.sequences_to_string(s)) == s, "text of %s reads back as %s", s, Route.sequences_to_list(Route.sequences_to_string(s)))
        need(Route.sequences_to_string(s) == seq(s), "text of %s is %r", s, Route.sequences_to_string(s))
        need(Route.sequences_to_list(seq(s)) == s, "list of %r is %s", seq(s), Route.sequences_to_list(seq(s)))


# ---------------------------------------------------------------- C11
def c11_cases(r, i):
    city = gen_city(r, 1, 4, plain=r.random() < 0.7, far=True)
    cbd, zones = zone_ids(build_city(city))
    adj = adjacency(cbd, zones)
    nodes = sorted(int(x) for x in adj)
    modes = [gen_mode(r, r.choice(["bus", "metro", "tram", "bus2"]) + ("" if r.random() < 0.6 else str(k)), r.choice([1, 1, 2, 3])) for k in range(4)]
    ops = []
    for _ in range(r.randint(2, 14)):
        t = r.choice(["route"] * 6 + ["rm", "rm", "mode", "rmmode", "get", "bad", "fam"])
        if t == "route":
            c = gen_custom(r, adj, r.randrange(4), r.randrange(4))
            if r.random() < 0.25 and len(nodes) >= 4:
                a, b, x, y = r.sample(nodes, 4)
                c = dict(type="custom", id="C%d" % r.randrange(4), mode=r.randrange(4), ni=[a, x, b], nr=[b, y, a], si=[a, b], sr=[b, a])
                q = simple_path(r, adj, a, b), simple_path(r, adj, b, a)
                k = r.choice(["ni", "nr", None])
                if k:
                    c[k] = q[0 if k == "ni" else 1]
            c = {k: ([int(x) for x in v] if isinstance(v, list) else v) for k, v in c.items()}
            ops.append(["route", c])
        elif t == "fam":
            ops.append(["fam", dict(type=r.choice(["feeder", "radial"]), mode=r.randrange(4))])
        elif t in ("rm", "get"):
            ops.append([t, "C%d" % r.randrange(4)])
        else:
            ops.append([t, r.randrange(4)])
    return dict(city=city, modes=modes, ops=ops)


def c11(case):
    g = build_city(case["city"])
    cbd, zones = zone_ids(g)
    links = set(expected_links(cbd, zones))
    modes = [TransportMode(*m) for m in case["modes"]]
    net = TransportNetwork(g)
    rts, ms = [], []

    def mode_ok(m):
        new = ms if m in ms else ms + [m]
        return len(set(x.name for x in new)) == len(new) and (len(new) == 1 or (len(new) == 2 and any(x.d == 1 for x in new)))

    def add(rt):
        ids = [x.id for x in rts]
        lk = all((s[k], s[k + 1]) in links for s in (rt.nodes_sequence_i, rt.nodes_sequence_r) for k in range(len(s) - 1))
        ok = lk and rt.id not in ids and (rt.mode in ms or mode_ok(rt.mode))
        e = raises(lambda: net.add_route(rt))
        need((e is None) == ok, "adding route %s %s/%s of %s to %s (%s) raised %r", rt.id, rt.nodes_sequence_i, rt.nodes_sequence_r,
             rt.mode.name, ids, [m.name for m in ms], e)
        if ok:
            if rt.mode not in ms:
                ms.append(rt.mode)
            rts.append(rt)

    for op, a in case["ops"]:
        if op == "route":
            add(Route(a["id"], modes[a["mode"]], seq(a["ni"]), seq(a["nr"]), seq(a["si"]), seq(a["sr"])))
        elif op == "fam":
            for rt in family(net, a, modes[a["mode"]]):
                add(rt)
                check_net(net, rts, ms, links)
        elif op == "rm":
            e = raises(lambda: net.remove_route(a))
            need((e is None) == (a in [x.id for x in rts]), "removing route %s raised %r", a, e)
            rts[:] = [x for x in rts if x.id != a]
        elif op == "get":
            got, e = None, None
            try:
                got = net.get_route(a)
            except Exception as x:  # noqa: BLE001
                e = x
            w = [x for x in rts if x.id == a]
            need((e is None) == bool(w) and (not w or got is w[0]), "looking up route %s returned %r raised %r", a, got, e)
        elif op == "mode":
            m = modes[a]
            ok = m in ms or mode_ok(m)
            e = raises(lambda: net.add_transport_mode(m))
            need((e is None) == ok, "adding mode %s(d=%s) to %s raised %r", m.name, m.d, [(x.name, x.d) for x in ms], e)
            if ok and m not in ms:
                ms.append(m)
        elif op == "rmmode":
            m = modes[a]
            net.remove_transport_mode(m)
            ms[:] = [x for x in ms if x is not m]
            rts[:] = [x for x in rts if x.mode is not m]
        elif op == "bad":
            need(raises(lambda: net.add_route("C1")) is not None, "something that is not a route was accepted")
            need(raises(lambda: net.add_transport_mode("bus")) is not None, "something that is not a mode was accepted")
        check_net(net, rts, ms, links)


def check_net(net, rts, ms, links):
    got = net.get_routes()
    need(len(got) == len(rts) and all(a is b for a, b in zip(got, rts)), "routes %s, expected %s", [x.id for x in got], [x.id for x in rts])
    gm = net.get_modes()
    need(len(gm) == len(ms) and all(a is b for a, b in zip(gm, ms)), "modes %s, expected %s", [x.name for x in gm], [x.name for x in ms])
    for x in rts:
        need(net.get_route(x.id) is x, "lookup of %s returns another route", x.id)


# ---------------------------------------------------------------- C12
def c12_cases(r, i):
    n = 1 + i % 12
    c = dict(kind="param", n=n, l=10, g=0.5, p=2)
    if i % 3 == 2:
        c = text_city(r, c)
    return dict(city=c, jumps=[0, -1, 1.0, 0.5, n // 2 + 1] + list(range(1, n // 2 + 1)), name="m%d" % i)


def c12(case):
    g = build_city(case["city"])
    cbd, zones = zone_ids(g)
    n = len(zones)
    P, S = [z[0] for z in zones], [z[1] for z in zones]
    links = set(expected_links(cbd, zones))
    net = TransportNetwork(g)
    m = TransportMode(case["name"], 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)

    def fam(what, rts, exp):
        need(len(rts) == len(exp), "%s: %d routes, expected %d", what, len(rts), len(exp))
        need(len(set(x.id for x in rts)) == len(rts), "%s: ids %s", what, [x.id for x in rts])
        for x, (ni, nr, si, sr) in zip(rts, exp):
            got = [x.nodes_sequence_i, x.nodes_sequence_r, x.stops_sequence_i, x.stops_sequence_r]
            need(got == [ni, nr, si, sr], "%s route %s: %s, expected %s", what, x.id, got, [ni, nr, si, sr])
            need(x.mode is m, "%s route %s: mode", what, x.id)
            for s in (ni, nr):
                need(all((s[k], s[k + 1]) in links for k in range(len(s) - 1)), "%s route %s uses a missing link", what, x.id)
            need(x._type == (RouteType.CIRCULAR if what == "circular" else RouteType.PREDEFINED), "%s route %s: type", what, x.id)
        for x in rts:
            net.add_route(x)
        allids = [x.id for x in net.get_routes()]
        need(len(set(allids)) == len(allids), "route ids clash between families: %s", allids)

    def both(ni, express):
        si = [ni[0], ni[-1]] if express else ni
        return ni, ni[::-1], si, si[::-1]

    fam("feeder", net.get_feeder_routes(m), [both([P[k], S[k]], False) for k in range(n)])
    fam("radial", net.get_radial_routes(m), [both([P[k], S[k], cbd], False) for k in range(n)])
    fam("radial express", net.get_radial_routes(m, express=True), [both([P[k], S[k], cbd], True) for k in range(n)])
    fam("radial short", net.get_radial_routes(m, short=True), [both([S[k], cbd], False) for k in range(n)])
    rs = net.get_radial_routes(m, short=True, express=True)
    need([x.nodes_sequence_i for x in rs] == [[S[k], cbd] for k in range(n)] and [x.stops_sequence_i for x in rs] == [[S[k], cbd] for k in range(n)],
         "radial short express")
    if n < 2:
        need(raises(lambda: net.get_circular_routes(m)) is not None, "circular routes in a city with one zone")
    else:
        a, b = S + [S[0]], S[::-1] + [S[-1]]
        fam("circular", net.get_circular_routes(m), [(a, [], a, []), ([], b, [], b)])
    for fn in (net.get_feeder_routes, net.get_radial_routes, net.get_diametral_routes, net.get_tangencial_routes, net.get_circular_routes):
        need(raises(lambda: fn("bus")) is not None, "something that is not a mode was accepted")
    for j in case["jumps"]:
        ok = isinstance(j, int) and 1 <= j <= n / 2
        for sh in (False, True):
            for ex in (False, True):
                for what, fn in (("diametral", net.get_diametral_routes), ("tangencial", net.get_tangencial_routes)):
                    if not ok:
                        need(raises(lambda: fn(m, j, sh, ex)) is not None, "%s jump %s accepted with %d zones", what, j, n)
                        continue
                    exp = []
                    for k in range(n // 2 if 2 * j == n else n):
                        k2 = (k + j) % n
                        mid = [cbd] if what == "diametral" else [S[(k + q) % n] for q in range(1, j)]
                        ni = [S[k]] + mid + [S[k2]]
                        exp.append(both(ni if sh else [P[k]] + ni + [P[k2]], ex))
                    fam("%s jump=%d short=%s express=%s" % (what, j, sh, ex), fn(m, j, sh, ex), exp)
        if ok and j == 1:
            need([x.id for x in net.get_diametral_routes(m)] == [x.id for x in net.get_diametral_routes(m, 1, False, False)], "default options")


PROPS = {"C08": (c08_cases, c08, 1500), "C09": (c09_cases, c09, 800), "C10": (c10_cases, c10, 3000), "C11": (c11_cases, c11, 400),
         "C12": (c12_cases, c12, 36)}
