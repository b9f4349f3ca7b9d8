"""C24-C27: optimiser bookkeeping, selection of the optimum, reports"""
import math
from collections import defaultdict
from types import SimpleNamespace

from lib import *
import oracle as orc
from oracle import key
from sidermit.optimization.preoptimization import Assignment
from sidermit.optimization import optimizer as omod
from sidermit.optimization.optimizer import Optimizer


def opt_cases(r, i):
    w = gen_world(r, 3, zero_f=0)
    w["xs"] = [[0 if r.random() < 0.15 else rnum(r, 0.5, 60) for _ in range(40)] for _ in range(2)]
    w["given"] = r.random() < 0.5
    return w


def usable_vec(fl, routes, xs):
    """xs as one frequency per route, with zeros only where every boarding choice keeps another line"""
    f = {rt.id: xs[k % len(xs)] for k, rt in enumerate(routes)}
    if not fl.usable(f):
        f = {rt.id: xs[k % len(xs)] or 1.5 for k, rt in enumerate(routes)}
    return [f[rt.id] for rt in routes]


def full(case, f=None):
    w = World(case)
    try:
        return w, orc.Full(w, f if f is not None else w.f)
    except exc.SIDERMITException:
        return w, None


def objective(w, fl, f):
    ch = orc.all_chains(fl.hyp, fl.suc, fl.vij, fl.asg, f)
    z, v, ld = orc.loads(ch, f)
    k = orc.vehicle_sizes(w.routes, ld)
    b = orc.built(w.city, w.routes, w.net.get_modes(), f)
    co = orc.operators(w.city, w.routes, z, v, f, k)
    ci = sum(m.c2 * b[m] for m in b)
    res = orc.resources(ch, fl.asg, fl.eg, w.pax.va, f, z, v)
    return dict(z=z, v=v, ld=ld, k=k, co=co, ci=ci, cu=orc.users(res, w.pax), res=res, ch=ch)


def c24(case):
    w = World(case)
    f0 = w.f if case["given"] else {rt.id: rt.mode.fini for rt in w.routes}
    try:
        fl = orc.Full(w, f0)
    except exc.SIDERMITException:
        return
    opt = Optimizer(w.city, w.demand, w.pax, w.net, w.f if case["given"] else None)
    n = len(w.routes)
    need(opt.len_var == n and len(opt.f_opt) == n, "%d variables for %d routes", opt.len_var, n)
    for k, rt in enumerate(w.routes):
        need(opt.lines_position[k] == rt.id, "position %d stands for %s, the route is %s", k, opt.lines_position[k], rt.id)
        need(opt.f[rt.id] == f0[rt.id], "starting frequency of %s: %r, expected %r", rt.id, opt.f[rt.id], f0[rt.id])
        need(opt.f_opt[k] == rt.mode.fini, "starting value at %d: %r", k, opt.f_opt[k])
    need(set(opt.f) == set(rt.id for rt in w.routes), "starting frequencies of %s", sorted(map(str, opt.f)))
    m = n + len(w.city.get_edges()) * len(w.net.get_modes())
    need(opt.len_constrains == m, "%d constraints, expected %d", opt.len_constrains, m)
    vec = [usable_vec(fl, w.routes, xs) for xs in case["xs"]]
    vals = []
    # the same vector again, and one very close to it (as a numerical gradient asks for)
    eps = 10 ** -(2 + case["xs"][1][0] % 4)
    vec.insert(1, [v + eps * (1 + j % 3) if v > 0 else v for j, v in enumerate(vec[0])])
    for x in vec + [vec[0]]:
        f = opt.fopt_to_f(x)
        need(dict(f) == {rt.id: x[k] for k, rt in enumerate(w.routes)}, "vector %s becomes %s", x, dict(f))
        val = opt.VRC(x)
        o = objective(w, fl, {rt.id: x[k] for k, rt in enumerate(w.routes)})
        same(val, o["co"] + o["ci"] + o["cu"], "objective", 1e-9)
        vals.append(val)
        need(len(opt.get_constrains(x)) == m, "number of constraints changed")
    need(vals[0] == vals[3], "evaluating the objective changed a later evaluation: %r, %r", vals[0], vals[3])
    # what the numerical optimiser is given
    seen = {}
    real = omod.minimize

    def fake(fun, x0, **kw):
        seen.update(kw, fun=fun, x0=x0)
        return SimpleNamespace(success=True, status=1, message="", x=list(x0), constr_violation=0.0, fun=0.0)
    omod.minimize = fake
    try:
        opt.internal_optimization()
    finally:
        omod.minimize = real
    need(list(seen["x0"]) == list(opt.f_opt), "the optimiser starts at %s", seen["x0"])
    same(seen["fun"](vec[1]), vals[1], "function minimised", 1e-12)
    need(list(seen["bounds"].lb) == [0] * n and all(x == math.inf for x in seen["bounds"].ub) and len(seen["bounds"].ub) == n, "bounds of the variables")
    nc = seen["constraints"]
    need(list(nc.ub) == [0] * m and list(nc.lb) == [-math.inf] * m, "bounds of the constraints")
    need(list(nc.fun(vec[1])) == list(opt.get_constrains(vec[1])), "constraint function")


# ---------------------------------------------------------------- C25
def iterate(r, n):
    x = [r.choice([0, rnum(r, 0, 0.1), 1 / 24, 1 / 24 - 1e-9, 0.04, rnum(r, 0.05, 60)]) for _ in range(n)]
    if r.random() < 0.15:
        x[r.randrange(n)] = r.choice([-1e-9, -0.05, -5])
    return [x, True, r.choice([1, 2, 1, 2, 0, 3, 4, -1]), "m", r.choice([0, 0, 0.0005, -0.0005, 0.001, 0.0010001, 0.05, -0.01, 3]),
            r.choice([rnum(r, -5, 5), r.randint(0, 3), rnum(r, 100, 1e6)])]


def c25_cases(r, i):
    n = r.randint(1, 5)
    its = [iterate(r, n) for _ in range(r.randint(0, 7))]
    if r.random() < 0.3 and its:
        its[r.randrange(len(its))][0] = [1.0] * n
    d = dict(its=its, tol=r.choice([0.01, 1, 5]), max=r.choice([None, 0, 1, 2, 4]))
    if i % 8 == 0:
        w = gen_world(r, 2, zero_f=0, nmodes=1)
        d["world"] = w
    return d


def valid(it):
    x, s, st, msg, cv, fun = it
    return st not in (0, 3, -1) and abs(cv) < 0.001 and all(q >= 0 for q in x)


def c25(case):
    its = [tuple(x) for x in case["its"]]
    ok = [x for x in its if valid(x)]
    got = Optimizer.get_better_result(list(its))
    need((got is None) == (not ok), "chosen %r among %s", got, its)
    if ok:
        need(any(tuple(got) == x for x in ok) and got[5] == min(x[5] for x in ok), "chosen %r among %s", got, its)
    e = raises(lambda: Optimizer.status_optimization(got))
    need((e is None) == (got is not None), "status of %r raised %r", got, e)
    if got is not None:
        need(Optimizer.status_optimization(got) is True, "status of a valid result")
    if "world" not in case:
        return
    w, fl = full(case["world"])
    if fl is None:
        return
    n = len(w.routes)
    seqn = [(x[0] * n)[:n] for x in case["its"]] or [[1.0] * n]
    rest = [tuple(x[1:]) for x in case["its"]] or [(True, 1, "", 0, 5)]
    done, used = [], []

    def fake(self):
        k = min(len(done), len(seqn) - 1)
        x = seqn[k]
        used.append(dict(self.f))
        done.append((list(x),) + rest[k])
        s, st, msg, cv, fun = rest[k]
        return SimpleNamespace(x=x, success=s, status=st, message=msg, constr_violation=cv, fun=fun)
    real = Optimizer.internal_optimization
    Optimizer.internal_optimization = fake
    res, e = None, None
    try:
        res = Optimizer.external_optimization(w.city, w.demand, w.pax, w.net, w.f, case["tol"], case["max"])
    except exc.SIDERMITException as x:
        e = x
    finally:
        Optimizer.internal_optimization = real
    if e is not None and isinstance(e, exc.TransportNetworkException):
        return          # an iterate whose frequencies disconnect a pair
    ok = [x for x in done if valid(x)]
    need((res is None) == (not ok) and (e is not None) == (not ok), "result %r raised %r after iterates %s", res, e, done)
    for k in range(1, len(used)):
        need(used[k] == {rt.id: done[k - 1][0][j] for j, rt in enumerate(w.routes)}, "iterate %d starts from %s", k, used[k])
    if ok:
        best = min(x[5] for x in ok)
        need(res[5] == best, "objective of the result is %r, the best is %r", res[5], best)
        cand = [[0 if q < 1 / 24 else q for q in x[0]] for x in ok if x[5] == best]
        need(list(res[0]) in cand, "frequencies %s, expected %s", list(res[0]), cand)
        need(any(tuple(res[1:]) == x[1:] for x in ok if x[5] == best), "other fields of the result %r", res)


# ---------------------------------------------------------------- C26, C27
def report(case):
    """(world, optimiser with an optimum, expected quantities) or None"""
    w, fl = full(case)
    if fl is None:
        return None
    for xs in (case["xs"][0], [x or 2.5 for x in case["xs"][0]]):
        f = {rt.id: xs[k % len(xs)] for k, rt in enumerate(w.routes)}
        fd = defaultdict(float)
        fd.update(f)
        try:
            fl2 = orc.Full(w, fd)
        except exc.SIDERMITException:
            continue
        opt = Optimizer(w.city, w.demand, w.pax, w.net, w.f)
        opt.better_res = ([f[rt.id] for rt in w.routes], True, 1, "", 0.0, 1.0)
        return w, opt, f, objective(w, fl2, f)
    return None


def no_optimum(case):
    w, fl = full(case)
    if fl is None:
        return
    opt = Optimizer(w.city, w.demand, w.pax, w.net, w.f)
    for fn in (opt.get_overall_results, opt.get_network_results):
        need(isinstance(raises(fn), exc.NoOptimalSolutionFoundException), "results without an optimum")


def c26(case):
    no_optimum(case) if case["given"] else None
    q = report(case)
    if q is None:
        return
    w, opt, f, o = q
    got = opt.get_overall_results()
    y = w.demand.get_total_trips()
    ta, te, tv, tr = o["res"]
    for k, x in (("operators_cost", o["co"] / y), ("infrastructure_cost", o["ci"] / y), ("users_cost", o["cu"] / y), ("VRC", (o["co"] + o["ci"] + o["cu"]) / y),
                 ("access_time", ta / y * 60), ("waiting_time", te / y * 60), ("travel_time_on_board", tv / y * 60), ("transfers", tr / y)):
        need(close(got[k], x, 1e-7, 1e-9), "%s: %r, expected %r", k, got[k], x)
    for m in w.net.get_modes():
        rs = [rt for rt in w.routes if rt.mode is m and f[rt.id] > 0]
        fleet = sum(f[rt.id] * orc.cycle_time(w.city, rt, o["z"], o["v"]) for rt in rs)
        need(close(got["vehicles_mode"].get(m, 0), fleet, 1e-7, 1e-9), "fleet of %s: %r, expected %r", m.name, got["vehicles_mode"].get(m, 0), fleet)
        need(got["lines_mode"].get(m, 0) == sum(rt.mode.d for rt in rs), "lines of %s: %r", m.name, got["lines_mode"].get(m, 0))
        size = sum(o["k"][rt.id] for rt in rs) / len(rs) if rs else 0
        need(close(got["vehicle_capacity_mode"].get(m, 0), size, 1e-7, 1e-9), "mean size of %s: %r, expected %r", m.name,
             got["vehicle_capacity_mode"].get(m, 0), size)
    need(isinstance(opt.string_overall_results(), str), "text of the results")


def section_loads(rt, d, ns, ss, o):
    """load of every section of the node sequence, per vehicle"""
    ld = {k[2].city_node.graph_node.id: x for k, x in o["ld"].items() if k[:2] == (rt.id, d)}
    cur, out = 0.0, []
    for n in ns[:-1]:
        if n in ss:
            cur = ld.get(n, 0)
        out.append(cur)
    return out


def c27(case):
    no_optimum(case) if case["given"] else None
    q = report(case)
    if q is None:
        return
    w, opt, f, o = q
    got = opt.get_network_results()
    need([x[0] for x in got] == [rt.id for rt in w.routes], "entries %s", [x[0] for x in got])
    for row, rt in zip(got, w.routes):
        rid, F, fl, k, b, tc, co, lmin, ti, tr = row
        size = o["k"][rt.id]
        cyc = orc.cycle_time(w.city, rt, o["z"], o["v"])
        boarded = sum(x for kk, x in o["z"].items() if kk[0] == rt.id)
        exp_min, secs = [], {}
        for d, ns, ss in orc.dirs(rt):
            s = section_loads(rt, d, ns, ss, o)
            if f[rt.id] <= 0:
                s = [0] * len(s)
            secs[d] = [(a, c, x / size if size > 0 else 0) for a, c, x in zip(ns, ns[1:], s)]
            exp_min += [x[2] for x in secs[d]]
        if f[rt.id] > 0:
            exp = (f[rt.id], f[rt.id] / rt.mode.d, size, f[rt.id] * cyc, cyc * 60,
                   (rt.mode.co + rt.mode.c1 * size) * cyc / boarded if boarded > 0 else 0, min(exp_min))
        else:
            exp = (0, 0, 0, 0, 0, 0, 0)
        for what, a, c in zip(("frequency", "frequency per line", "vehicle size", "fleet", "cycle time", "cost per passenger", "minimum load"),
                              (F, fl, k, b, tc, co, lmin), exp):
            need(close(a, c, 1e-6, 1e-7), "%s of %s: %r, expected %r", what, rid, a, c)
        for d, t in (("I", ti), ("R", tr)):
            e = secs.get(d, [])
            need([(int(x[0]), int(x[1])) for x in t] == [(int(x[0]), int(x[1])) for x in e], "sections of %s %s: %s", rid, d, t)
            for x, y in zip(t, e):
                need(close(x[2], y[2], 1e-6, 1e-7), "load of %s %s on %s-%s: %r, expected %r", rid, d, x[0], x[1], x[2], y[2])
                need(-1e-7 <= x[2] <= 1 + 1e-7, "load of %s %s is %r", rid, d, x[2])
        if f[rt.id] > 0 and size > 0:
            need(close(max(x[2] for x in list(ti) + list(tr)), 1, 1e-6), "no section of %s is full", rid)
    need(isinstance(opt.string_network_results(), str), "text of the results")


PROPS = {"C24": (opt_cases, c24, 60), "C25": (c25_cases, c25, 800), "C26": (opt_cases, c26, 60), "C27": (opt_cases, c27, 100)}
