"""Vehicle size, constraints, operators and infrastructure costs (C19, C20, C21, C22)."""
OC = "sidermit.optimization.operators_cost.OperatorsCost."
IC = "sidermit.optimization.infrastructure_cost.InfrastructureCost."
CN = "sidermit.optimization.constrains.Constrains."
AS = "sidermit.optimization.preoptimization.assignment.Assignment."

SCHEMA["Route"] = {"id": "U", "mode": "TransportMode", "nodes_sequence_i": ("list", "Int"), "nodes_sequence_r": ("list", "Int"),
                   "stops_sequence_i": ("list", "Int"), "stops_sequence_r": ("list", "Int"), "_type": "U"}
SCHEMA["TransportNetwork"] = {"_TransportNetwork__graph_obj": "Graph", "_TransportNetwork__routes": ("list", "Route"),
                              "_TransportNetwork__routes_id": ("list", "U"), "_TransportNetwork__modes": ("list", "TransportMode")}

ROUTES = ("routes", ("list", "Route"))
F1 = ("map", ["U"], "Real", 0)                       # route id -> number
F3 = ("map", ["U", "U", "StopNode"], "Real", 0)      # route id, direction, stop -> number
DIST = ("map", ["Int", "Int"], "Real", 0)            # node, node -> length


def one_each(routes):
    """route ids are unique"""
    return all(i == j or routes[i].id != routes[j].id for i in range(len(routes)) for j in range(len(routes)))


# ---------------------------------------------------------------- C19: vehicle size
def spec_most_loaded(loaded_section_route):
    out = defaultdict(float)
    for r in loaded_section_route:
        loads = [loaded_section_route[r][d][s] for d in loaded_section_route[r] for s in loaded_section_route[r][d]]
        out[r] = max([0] + loads)
    return out


contract(AS + "most_loaded_section", "spec_most_loaded", ["C19", "C27"], frame="values", args=[("loaded_section_route", F3)])


def size_is_largest(loaded_section_route, size):
    """no section carries more than the size, which is 0 or the load of one of the sections, for exactly the routes of the table"""
    rs = [r for r in loaded_section_route]
    covered = all(size[r] >= loaded_section_route[r][d][s] for r in rs for d in loaded_section_route[r]
                  for s in loaded_section_route[r][d])
    reached = all(size[r] == 0 or any(loaded_section_route[r][d][s] == size[r] for d in loaded_section_route[r]
                                      for s in loaded_section_route[r][d]) for r in rs)
    return covered, reached, all(size[r] >= 0 for r in rs), all(r in loaded_section_route for r in size), all(r in size for r in rs)


contract(AS + "most_loaded_section", None, "C19", name="most_loaded_section (largest load)", ensures="size_is_largest",
         args=[("loaded_section_route", F3)])


# ---------------------------------------------------------------- C21: operators cost
def spec_travel_time(routes, edge_distance):
    out = defaultdict(float)
    for r in routes:
        gi, gr = r.nodes_sequence_i, r.nodes_sequence_r
        length = sum(edge_distance[gi[i]][gi[i + 1]] for i in range(len(gi) - 1)) + \
            sum(edge_distance[gr[i]][gr[i + 1]] for i in range(len(gr) - 1))
        out[r.id] = length / r.mode.v
    return out


def speeds(routes, edge_distance):
    return one_each(routes) and all(r.mode.v > 0 and len(r.nodes_sequence_i) >= 1 and len(r.nodes_sequence_r) >= 1 for r in routes)


contract(OC + "lines_travel_time", "spec_travel_time", "C21", requires="speeds", frame="values",
         args=[ROUTES, ("edge_distance", DIST)])


def stop_time(board, alight, bya):
    """time units spent at the stops of one direction"""
    if bya == 0:
        return sum(board[s] for s in board) + sum(alight[s] for s in alight)
    return sum(max(board[s], peek(alight, s)) for s in board) + \
        sum(max(peek(board, s), alight[s]) for s in alight if s not in board)


def spec_cycle_time(z, v, routes, line_travel_time):
    out = defaultdict(float)
    for r in routes:
        per_pax = r.mode.t / 3600
        out[r.id] = line_travel_time[r.id] + per_pax * (stop_time(z[r.id]["I"], v[r.id]["I"], r.mode.bya) +
                                                        stop_time(z[r.id]["R"], v[r.id]["R"], r.mode.bya))
    return out


def rules(z, v, routes, line_travel_time):
    return one_each(routes) and all(r.mode.bya == 0 or r.mode.bya == 1 for r in routes)


contract(OC + "get_cycle_time", "spec_cycle_time", ["C21", "C27"], requires="rules", frame="values",
         args=[("z", F3), ("v", F3), ROUTES, ("line_travel_time", F1)])


def spec_operators_cost(routes, cycle_time, f, k):
    return sum((r.mode.co + r.mode.c1 * k[r.id]) * f[r.id] * cycle_time[r.id] for r in routes if f[r.id] != 0)


contract(OC + "get_operators_cost", "spec_operators_cost", ["C21", "C24"], frame="values",
         args=[ROUTES, ("cycle_time", F1), ("f", F1), ("k", F1)])


# ---------------------------------------------------------------- C20: constraints
def spec_size_constraints(routes, most_loaded_section):
    return [most_loaded_section[r.id] - r.mode.kmax for r in routes]


contract(CN + "most_loaded_section_constrains", "spec_size_constraints", ["C20", "C24"], frame="values",
         args=[ROUTES, ("most_loaded_section", F1)])


def spec_stop_capacity(graph_obj, routes, list_mode, f):
    out = []
    for e in graph_obj.get_edges():
        a, b = e.node1.id, e.node2.id
        for m in list_mode:
            flow = 0
            for r in routes:
                if r.mode == m and f[r.id] != 0:
                    gi, gr = r.nodes_sequence_i, r.nodes_sequence_r
                    uses = sum(1 for i in range(len(gi) - 1) if gi[i] == a and gi[i + 1] == b) + \
                        sum(1 for i in range(len(gr) - 1) if gr[i] == a and gr[i + 1] == b)
                    flow += uses * (f[r.id] / m.d)
            out.append(flow - m.fmax / m.d)
    return out


def lines_exist(graph_obj, routes, list_mode, f):
    return all(m.d >= 1 for m in list_mode) and all(len(r.nodes_sequence_i) >= 1 and len(r.nodes_sequence_r) >= 1 for r in routes)


contract(CN + "fmax_constrains", "spec_stop_capacity", ["C20", "C24"], requires="lines_exist", frame="values",
         args=[("graph_obj", "Graph"), ROUTES, ("list_mode", ("list", "TransportMode")), ("f", F1)])


# ---------------------------------------------------------------- C22: infrastructure
def uses(r, e):
    gi, gr = r.nodes_sequence_i, r.nodes_sequence_r
    a, b = e.node1.id, e.node2.id
    return any(gi[i] == a and gi[i + 1] == b for i in range(len(gi) - 1)) or \
        any(gr[i] == a and gr[i + 1] == b for i in range(len(gr) - 1))


def used(e, routes, mode, f):
    return any(r.mode == mode and peek(f, r.id) != 0 and uses(r, e) for r in routes)


def same_street(e, e2):
    return (e.node1.id == e2.node1.id and e.node2.id == e2.node2.id) or (e.node1.id == e2.node2.id and e.node2.id == e2.node1.id)


def charged(edges, k, routes, mode, f):
    """street k is used and no earlier used link is the same street"""
    return used(edges[k], routes, mode, f) and not any(same_street(edges[j], edges[k]) and used(edges[j], routes, mode, f)
                                                       for j in range(k))


def inv_streets(edges, routes, mode, f, k):
    e = edges[k]
    return [(e.node1.id, e.node2.id), (e.node2.id, e.node1.id)] if charged(edges, k, routes, mode, f) else []


def spec_mode_distance(graph_obj, network_obj, f):
    edges = graph_obj.get_edges()
    dist = graph_obj.get_edges_distance()
    routes = network_obj.get_routes()
    out = defaultdict(float)
    for m in network_obj.get_modes():
        for k in range(len(edges)):
            if charged(edges, k, routes, m, f):
                out[m] += dist[edges[k].node1.id][edges[k].node2.id] * m.d
    return out


contract(IC + "get_mode_network_distance", "spec_mode_distance", ["C22"], frame="values", requires="nodes_of_routes",
         modular={"sidermit.city.graph.Graph.get_edges_distance": "abs_distance"},
         invariants={(IC + "get_mode_network_distance", "edge_list"): "inv_streets"},
         args=[("graph_obj", "Graph"), ("network_obj", "TransportNetwork"), ("f", F1)])


def nodes_of_routes(graph_obj, network_obj, f):
    return all(len(r.nodes_sequence_i) >= 1 and len(r.nodes_sequence_r) >= 1 for r in network_obj.get_routes())


def abs_distance(self):
    d = defaultdict(lambda: defaultdict(float))
    for e in self.get_edges():
        d[e.node1.id][e.node2.id] = uf("dist", e.node1.id, e.node2.id)
    return d


def abs_mode_distance(graph_obj, network_obj, f):
    """any total length for each mode that has one"""
    out = defaultdict(float)
    for m in network_obj.get_modes():
        if uf("built", m) > 0:
            out[m] = uf("length", m)
    return out


def spec_infrastructure_cost(graph_obj, network_obj, f):
    return sum(m.c2 * uf("length", m) for m in network_obj.get_modes() if uf("built", m) > 0)


def modes_differ(graph_obj, network_obj, f):
    ms = network_obj.get_modes()
    return all(i == j or ms[i] != ms[j] for i in range(len(ms)) for j in range(len(ms)))


contract(IC + "get_infrastruture_cost", "spec_infrastructure_cost", ["C22"], requires="modes_differ", frame="values",
         modular={IC + "get_mode_network_distance": "abs_mode_distance"},
         args=[("graph_obj", "Graph"), ("network_obj", "TransportNetwork"), ("f", F1)])
