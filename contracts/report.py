"""The route report (C27)."""
NET3 = ("map", ["U", "U", "StopNode"], "Real", 0)


def rep_last_iteration(self, res):
    """the last iteration's network, flows, sizes and loads; entries that reading them creates are not kept"""
    return (opaque("Optimizer", "final"), frozen(opaque(("map", ("U", "U", "StopNode"), "Real", 0), "z")),
            frozen(opaque(("map", ("U", "U", "StopNode"), "Real", 0), "v")), opaque(("map", ("U",), "Real", 0), "k"),
            frozen(opaque(("map", ("U", "U", "StopNode"), "Real", 0), "loads")))


def rep_cycle(z, v, routes, line_travel_time):
    return opaque(("map", ("U",), "Real", 0), "cycle time")


def rows(q, load):
    return [(q[i], q[i + 1], load[i]) for i in range(len(q) - 1)]


def still(q):
    return [(q[i], q[i + 1], 0) for i in range(len(q) - 1)]


def spec_report_still(self):
    """routes without frequency"""
    if self.better_res is None:
        raise NoOptimalSolutionFoundException()
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    return [(r.id, 0, 0, 0, 0, 0, 0, 0, still(r.nodes_sequence_i), still(r.nodes_sequence_r)) for r in last.network_obj.get_routes()]


def nothing_runs(self):
    if self.better_res is None:
        return True
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    f = spec_fopt_to_f(self, self.better_res[0])
    return positions(self, self.better_res[0]) and all(peek(f, r.id) <= 0 for r in last.network_obj.get_routes())


REP = {OP + "last_iteration": "rep_last_iteration", OP + "fopt_to_f": "spec_fopt_to_f", OC + "lines_travel_time": "abs_travel",
       OC + "get_cycle_time": "rep_cycle", GR + "Graph.get_edges_distance": "abs_distance"}
contract(OP + "get_network_results", "spec_report_still", ["C27"], frame="values", requires="nothing_runs", modular=REP,
         name="get_network_results (no frequency)",
         args=[("self", ("obj", "Optimizer", {"better_res": ("alt", None, ONE_RES)}))])


def at_node(m, node):
    """the passengers of the first stop at the node"""
    for s in m:
        if s.city_node.graph_node.id == node:
            return m[s]
    return 0


def spec_circular(r, f, z, k, loads, cycle):
    b = cycle * f
    if len(r.nodes_sequence_i) > 0:
        q, d = r.nodes_sequence_i, "I"
    else:
        q, d = r.nodes_sequence_r, "R"
    load = [at_node(loads[r.id][d], n) for n in q]
    boarded = sum(at_node(z[r.id][d], q[i]) for i in range(len(q) - 1))
    co = 0 if boarded == 0 else (r.mode.co + r.mode.c1 * k) * f * cycle / (boarded * f)
    most = max(load)
    if most == 0:
        most = 1
    table = [(q[i], q[i + 1], abs(load[i] / most)) for i in range(len(q) - 1)]
    return (r.id, f, f / r.mode.d, k, b, cycle * 60, co, abs(min(load) / most),
            table if d == "I" else [], [] if d == "I" else table)


def spec_report_circular(self):
    if self.better_res is None:
        raise NoOptimalSolutionFoundException()
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    rs = last.network_obj.get_routes()
    f = spec_fopt_to_f(self, self.better_res[0])
    cycle = rep_cycle(z, v, rs, abs_travel(rs, abs_distance(last.graph_obj)))
    return [spec_circular(r, f[r.id], z, k[r.id], loads, cycle[r.id]) for r in rs]


def all_circular(self):
    if self.better_res is None:
        return True
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    f = spec_fopt_to_f(self, self.better_res[0])
    return positions(self, self.better_res[0]) and all(peek(f, r.id) > 0 and r._type == RouteType.CIRCULAR and r.mode.d >= 1 and
                                                       len(r.nodes_sequence_i) + len(r.nodes_sequence_r) >= 3
                                                       for r in last.network_obj.get_routes())


contract(OP + "get_network_results", "spec_report_circular", ["C27"], frame="values", requires="all_circular", modular=REP,
         name="get_network_results (circular)",
         args=[("self", ("obj", "Optimizer", {"better_res": ("alt", None, ONE_RES)}))])


def change_at(z, v, node):
    """boarding less alighting passengers of the first stop at the node"""
    for s in list(z) + list(v):
        if s.city_node.graph_node.id == node:
            return z[s] - v[s]
    return 0


def boarding_at(z, v, node):
    for s in list(z) + list(v):
        if s.city_node.graph_node.id == node:
            return z[s]
    return 0


def on_board(z, v, q, capacity):
    """the running total of boarding less alighting passengers along the nodes"""
    out, total = [], 0
    for n in q:
        total += change_at(z, v, n)
        out.append(total / capacity)
    return out


def spec_two_way(r, f, z, v, k, cycle):
    b = cycle * f
    capacity = k if k > 0 else 1
    qi, qr = r.nodes_sequence_i, r.nodes_sequence_r
    zi, vi, zr, vr = z[r.id]["I"], v[r.id]["I"], z[r.id]["R"], v[r.id]["R"]
    ci, cr = on_board(zi, vi, qi, capacity), on_board(zr, vr, qr, capacity)
    boarded = sum(boarding_at(zi, vi, n) for n in qi) + sum(boarding_at(zr, vr, n) for n in qr)
    co = 0 if boarded == 0 else (r.mode.co + r.mode.c1 * k) * f * cycle / (boarded * f)
    low = float("inf")
    for i in range(len(qi) - 1):
        if low > ci[i]:
            low = ci[i]
    for i in range(len(qr) - 1):
        if low > cr[i]:
            low = cr[i]
    return (r.id, f, f / r.mode.d, k, b, cycle * 60, co, abs(low),
            [(qi[i], qi[i + 1], abs(ci[i])) for i in range(len(qi) - 1)],
            [(qr[i], qr[i + 1], abs(cr[i])) for i in range(len(qr) - 1)])


def spec_report_two_way(self):
    if self.better_res is None:
        raise NoOptimalSolutionFoundException()
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    rs = last.network_obj.get_routes()
    f = spec_fopt_to_f(self, self.better_res[0])
    cycle = rep_cycle(z, v, rs, abs_travel(rs, abs_distance(last.graph_obj)))
    return [spec_two_way(r, f[r.id], z, v, k[r.id], cycle[r.id]) for r in rs]


def all_two_way(self):
    if self.better_res is None:
        return True
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    f = spec_fopt_to_f(self, self.better_res[0])
    return positions(self, self.better_res[0]) and all(peek(f, r.id) > 0 and r._type != RouteType.CIRCULAR and r.mode.d >= 1
                                                       for r in last.network_obj.get_routes())


contract(OP + "get_network_results", "spec_report_two_way", ["C27"], frame="values", requires="all_two_way", modular=REP,
         name="get_network_results (two ways)",
         args=[("self", ("obj", "Optimizer", {"better_res": ("alt", None, ONE_RES)}))])


def spec_report(self):
    if self.better_res is None:
        raise NoOptimalSolutionFoundException()
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    rs = last.network_obj.get_routes()
    f = spec_fopt_to_f(self, self.better_res[0])
    cycle = rep_cycle(z, v, rs, abs_travel(rs, abs_distance(last.graph_obj)))
    out = []
    for r in rs:
        if f[r.id] > 0:
            if r._type == RouteType.CIRCULAR:
                out.append(spec_circular(r, f[r.id], z, k[r.id], loads, cycle[r.id]))
            else:
                out.append(spec_two_way(r, f[r.id], z, v, k[r.id], cycle[r.id]))
        else:
            out.append((r.id, 0, 0, 0, 0, 0, 0, 0, still(r.nodes_sequence_i), still(r.nodes_sequence_r)))
    return out


def reportable(self):
    if self.better_res is None:
        return True
    last, z, v, k, loads = rep_last_iteration(self, self.better_res)
    return positions(self, self.better_res[0]) and all(r.mode.d >= 1 and implies(r._type == RouteType.CIRCULAR,
                                                                                 len(r.nodes_sequence_i) + len(r.nodes_sequence_r) >= 3)
                                                       for r in last.network_obj.get_routes())


contract(OP + "get_network_results", "spec_report", ["C27"], frame="values", requires="reportable", modular=REP,
         name="get_network_results (all)",
         args=[("self", ("obj", "Optimizer", {"better_res": ("alt", None, ONE_RES)}))])
