"""The optimiser: vector of frequencies, objective, choice of the result (C24, C25, C26)."""
OP = "sidermit.optimization.optimizer.Optimizer."
GAB = "sidermit.optimization.preoptimization.assignment.Assignment.get_alighting_and_boarding"
UC = "sidermit.optimization.users_cost.UsersCost."

SCHEMA["Optimizer"] = {"graph_obj": "Graph", "demand_obj": "U", "passenger_obj": "Passenger", "network_obj": "TransportNetwork",
                       "f_opt": ("list", "Real"), "lines_position": ("map", ["Int"], "U"), "extended_graph_obj": "U",
                       "hyperpaths": "U", "labels": "U", "successors": "U", "frequency": "U", "Vij": "U", "assignment": "U",
                       "len_constrains": "Int", "len_var": "Int", "total_trips": "Real"}
OPT = ("self", ("obj", "Optimizer"))
FOPT = ("fopt", ("list", "Real"))


# ---------------------------------------------------------------- C24: positions of the vector
def spec_f0(self, f):
    rs = self.network_obj.get_routes()
    fini, fopt, pos = defaultdict(float), [], defaultdict(None)
    for i in range(len(rs)):
        fini[rs[i].id] = rs[i].mode.fini if f is None else f[rs[i].id]
        fopt.append(rs[i].mode.fini)
        pos[i] = rs[i].id
    return fini, fopt, pos


contract(OP + "f0", "spec_f0", ["C24"], frame="values", args=[OPT, ("f", None)], requires="routes_differ", name="f0 (no frequencies)")
contract(OP + "f0", "spec_f0", ["C24"], frame="values", args=[OPT, ("f", F1)], requires="routes_differ", name="f0 (frequencies given)")


def routes_differ(self, f):
    return one_each(self.network_obj.get_routes())


def spec_fopt_to_f(self, fopt):
    out = defaultdict(float)
    for i in range(len(fopt)):
        out[self.lines_position[i]] = fopt[i]
    return out


contract(OP + "fopt_to_f", "spec_fopt_to_f", ["C24", "C25"], args=[OPT, FOPT], requires="positions")


def positions(self, fopt):
    rs = self.network_obj.get_routes()
    return one_each(rs) and len(fopt) == len(rs) and all(i in self.lines_position and self.lines_position[i] == rs[i].id for i in range(len(rs)))


def client_round_trip(opt, f):
    """the frequencies of the routes -> vector positions -> frequencies of the routes"""
    fini, fopt, opt.lines_position = opt.f0(f)
    back = opt.fopt_to_f([fini[r.id] for r in opt.network_obj.get_routes()])
    return fini, back


def same_for_every_route(opt, f, res):
    fini, back = res
    rs = opt.network_obj.get_routes()
    return all(fini[rs[i].id] == back[rs[i].id] for i in range(len(rs)))


contract("client_round_trip", None, ["C24"], lemma=True, args=[("opt", ("obj", "Optimizer")), ("f", F1)],
         requires="routes_differ2", ensures="same_for_every_route")


def routes_differ2(opt, f):
    return one_each(opt.network_obj.get_routes())


contract(OP + "get_k", "spec_most_loaded", ["C24"], frame="values", args=[("loaded_section_route", F3)])


# the pieces of the objective, as unknown functions of what they are given; of the frequencies they are given the one
# of an arbitrary route, so that equal results for every such function mean equal frequencies
def abs_flows(Vij, hyperpaths, successors, assignment, f):
    x = peek(f, opaque("U", "some route"))
    return (opaque("U", "boarding", Vij, hyperpaths, successors, assignment, x),
            opaque("U", "alighting", Vij, hyperpaths, successors, assignment, x),
            opaque("U", "loads", Vij, hyperpaths, successors, assignment, x))


def abs_get_k(loaded_section_route):
    return opaque("U", "sizes", loaded_section_route)


def abs_operators(self, z, v, f, k):
    return uf("CO", z, v, peek(f, opaque("U", "some route")), k)


def abs_infrastructure(self, f):
    return uf("CI", peek(f, opaque("U", "some route")))


def abs_users(self, hyperpaths, Vij, assignment, successors, extended_graph, f, z, v):
    return uf("CU", hyperpaths, Vij, assignment, successors, extended_graph, peek(f, opaque("U", "some route")), z, v)


def spec_vrc(self, fopt):
    f = spec_fopt_to_f(self, fopt)
    z, v, loads = abs_flows(self.Vij, self.hyperpaths, self.successors, self.assignment, f)
    return abs_operators(self, z, v, f, abs_get_k(loads)) + abs_infrastructure(self, f) + \
        abs_users(self, self.hyperpaths, self.Vij, self.assignment, self.successors, self.extended_graph_obj, f, z, v)


contract(OP + "VRC", "spec_vrc", ["C24"], args=[OPT, FOPT], requires="positions",
         modular={GAB: "abs_flows", OP + "get_k": "abs_get_k", OP + "operators_cost": "abs_operators",
                  OP + "infrastructure_cost": "abs_infrastructure", OP + "user_cost": "abs_users"})


def abs_most_loaded(loaded_section_route):
    return opaque(("map", ("U",), "Real", 0), "most loaded", loaded_section_route)


def spec_get_constrains(self, fopt):
    f = spec_fopt_to_f(self, fopt)
    z, v, loads = abs_flows(self.Vij, self.hyperpaths, self.successors, self.assignment, f)
    rs = self.network_obj.get_routes()
    return spec_size_constraints(rs, abs_most_loaded(loads)) + abs_fmax(self.graph_obj, rs, self.network_obj.get_modes(), f)


def abs_fmax(graph_obj, routes, list_mode, f):
    return opaque(("list", "Real"), "link flows", graph_obj, peek(f, opaque("U", "some route")))


contract(OP + "get_constrains", "spec_get_constrains", ["C24", "C20"], args=[OPT, FOPT], requires="positions", frame="values",
         modular={GAB: "abs_flows", AS + "most_loaded_section": "abs_most_loaded", CN + "fmax_constrains": "abs_fmax"})


def same_number_of_constraints(self, fopt, res):
    """one per route, then one per link and mode"""
    edges, modes = self.graph_obj.get_edges(), self.network_obj.get_modes()
    return len(res) == len(self.network_obj.get_routes()) + len(edges) * len(modes)


def abs_travel(routes, edge_distance):
    return opaque(("map", ("U",), "Real", 0), "travel time", peek(edge_distance, opaque("Int", "some node"), opaque("Int", "other node")))


def abs_cycle(z, v, routes, line_travel_time):
    rid = opaque("U", "some route")
    return opaque(("map", ("U",), "Real", 0), "cycle time", peek(z, rid, opaque("U", "dir"), opaque("StopNode", "stop")),
                  peek(v, rid, opaque("U", "dir"), opaque("StopNode", "stop")), peek(line_travel_time, rid))


def spec_operators(self, z, v, f, k):
    rs = self.network_obj.get_routes()
    return spec_operators_cost(rs, abs_cycle(z, v, rs, abs_travel(rs, abs_distance(self.graph_obj))), f, k)


contract(OP + "operators_cost", "spec_operators", ["C24", "C26"], frame="values",
         modular={OC + "lines_travel_time": "abs_travel", OC + "get_cycle_time": "abs_cycle", GR + "Graph.get_edges_distance": "abs_distance"},
         args=[OPT, ("z", F3), ("v", F3), ("f", F1), ("k", F1)])


def spec_distance(prev_f, new_f):
    return sum(abs(prev_f[i] - new_f[i]) for i in range(len(prev_f)))


def same_length(prev_f, new_f):
    return len(prev_f) == len(new_f)


contract(OP + "f_distance", "spec_distance", ["C25"], requires="same_length",
         args=[("prev_f", ("list", "Real")), ("new_f", ("list", "Real"))])


# ---------------------------------------------------------------- C25: the chosen iterate
RES = ("list", ("tuple", ("list", "Real"), "U", "Int", "U", "Real", "Real"))


def usable(r):
    """converged, feasible, no negative frequency"""
    x, success, status, message, violation, fun = r
    return status != 0 and status != 3 and status != -1 and abs(violation) < 0.001 and not any(f < 0 for f in x)


def least_usable(list_res, res):
    """none exactly when no iterate is usable; else a usable iterate with the least objective"""
    n = len(list_res)
    some = any(usable(list_res[i]) for i in range(n))
    if res is None:
        return not some
    return some and usable(res) and all(not usable(list_res[i]) or res[5] <= list_res[i][5] for i in range(n))


def finite(list_res):
    return all(list_res[i][5] < float("inf") for i in range(len(list_res)))


contract(OP + "get_better_result", None, ["C25"], requires="finite", ensures="least_usable", args=[("list_res", RES)])


def spec_status(better_res):
    if better_res is None:
        raise NoOptimalSolutionFoundException()
    fopt, success, status, message, violation, fun = better_res
    if any(f < -0.1 for f in fopt):
        raise NegativeFrequencyException()
    if abs(violation) > 0.1:
        raise ConstraintViolationException()
    if status == 0 or status == 3:
        raise NoOptimalSolutionFoundException()
    return True


ONE_RES = ("tuple", ("list", "Real"), "U", "Int", "U", "Real", "Real")
contract(OP + "status_optimization", "spec_status", ["C25"], args=[("better_res", ("alt", None, ONE_RES))])

SCHEMA["OptimizeResult"] = {"x": ("list", "Real"), "success": "U", "status": "Int", "message": "U", "constr_violation": "Real",
                            "fun": "Real"}


def abs_optimizer(self, graph_obj, demand_obj, passenger_obj, network_obj, f=None):
    self.f_opt = opaque(("list", "Real"), "start")


def abs_internal(self):
    return opaque("OptimizeResult", "solver result")


def abs_fopt_to_f(self, fopt):
    return opaque(("map", ("U",), "Real", 0), "frequencies of")


def abs_better(list_res):
    """by its contract: one of the usable results with the least objective, or none"""
    return opaque(("opt", ("tuple", ("list", "Real"), "U", "Int", "U", "Real", "Real")), "best of", len(list_res))


def abs_tolerance(self, prev_f, new_f, tol=0.01):
    return uf("far", tol) > 0


def spec_external(graph_obj, demand_obj, passenger_obj, network_obj, f, tolerance, number_of_iteration):
    """the best usable iterate, small frequencies set to 0, or an error"""
    history = opaque(("list", ("tuple", ("list", "Real"), "U", "Int", "U", "Real", "Real")), "external_optimization!list_res")
    best = abs_better(history)
    if best is None:
        raise NoOptimalSolutionFoundException()
    fopt, success, status, message, violation, fun = best
    fopt = [0 if x < 1 / 24 else x for x in fopt]
    if abs(violation) > 0.1:
        raise ConstraintViolationException()
    if status == 0 or status == 3:
        raise NoOptimalSolutionFoundException()
    return fopt, success, status, message, violation, fun


contract(OP + "external_optimization", "spec_external", ["C25"], frame="values",
         modular={OP + "__init__": "abs_optimizer", OP + "internal_optimization": "abs_internal", OP + "fopt_to_f": "abs_fopt_to_f",
                  OP + "get_better_result": "abs_better", OP + "external_optimization_tolerance": "abs_tolerance"},
         whiles={(OP + "external_optimization", 0): ("inv_history", dict(
             list_res=RES, pre_f=("list", "Real"), new_f=("list", "Real"), opt_obj=("obj", "Optimizer"), iteration="Int"))},
         args=[("graph_obj", "Graph"), ("demand_obj", "Demand"), ("passenger_obj", "Passenger"), ("network_obj", "TransportNetwork"),
               ("f", ("alt", None, F1)), ("tolerance", "Real"), ("number_of_iteration", ("alt", None, "Int"))])


def inv_history(list_res, iteration):
    """every internal optimisation so far is on the list"""
    return len(list_res) == iteration + 1 and iteration >= 1


def abs_external(graph_obj, demand_obj, passenger_obj, network_obj, f, tolerance, number_of_iteration=None):
    """by its contract: a result or an error"""
    if uf("no result", graph_obj, demand_obj, passenger_obj, network_obj, tolerance) > 0:
        raise NoOptimalSolutionFoundException()
    return opaque("U", "result", graph_obj, demand_obj, passenger_obj, network_obj, tolerance)


def spec_network_optimization(graph_obj, demand_obj, passenger_obj, network_obj, f, tolerance, max_number_of_iteration):
    opt = Optimizer(graph_obj, demand_obj, passenger_obj, network_obj, f)
    opt.better_res = abs_external(graph_obj, demand_obj, passenger_obj, network_obj, f, tolerance, max_number_of_iteration)
    return opt


contract(OP + "network_optimization", "spec_network_optimization", ["C25"], frame="values",
         modular={OP + "__init__": "abs_optimizer", OP + "external_optimization": "abs_external"},
         args=[("graph_obj", "Graph"), ("demand_obj", "Demand"), ("passenger_obj", "Passenger"), ("network_obj", "TransportNetwork"),
               ("f", ("alt", None, F1)), ("tolerance", "Real"), ("max_number_of_iteration", ("alt", None, "Int"))])


# ---------------------------------------------------------------- C26: overall results
def spec_infrastructure(self, f):
    return uf("infrastructure", self.graph_obj, self.network_obj, peek(f, opaque("U", "some route")))


def abs_get_infrastructure(graph_obj, network_obj, f):
    return uf("infrastructure", graph_obj, network_obj, peek(f, opaque("U", "some route")))


contract(OP + "infrastructure_cost", "spec_infrastructure", ["C24", "C26"], args=[OPT, ("f", F1)], frame="values",
         modular={IC + "get_infrastruture_cost": "abs_get_infrastructure"})


def abs_get_users(self, hyperpaths, Vij, assignment, successors, extended_graph, f, passenger_obj, z, v):
    return uf("users", hyperpaths, Vij, assignment, successors, extended_graph, peek(f, opaque("U", "some route")), passenger_obj, z, v)


def spec_users(self, hyperpaths, Vij, assignment, successors, extended_graph, f, z, v):
    return abs_get_users(None, hyperpaths, Vij, assignment, successors, extended_graph, f, self.passenger_obj, z, v)


contract(OP + "user_cost", "spec_users", ["C24", "C26"], frame="values", modular={UC + "get_users_cost": "abs_get_users"},
         args=[OPT] + [(x, "U") for x in ("hyperpaths", "Vij", "assignment", "successors", "extended_graph")] +
         [("f", F1), ("z", "U"), ("v", "U")])


def abs_resources(hyperpaths, Vij, assignment, successors, extended_graph, vp, f, z, v):
    x = peek(f, opaque("U", "some route"))
    return (uf("access", hyperpaths, Vij, assignment, successors, extended_graph, vp, x, z, v),
            uf("waiting", hyperpaths, Vij, assignment, successors, extended_graph, vp, x, z, v),
            uf("in vehicle", hyperpaths, Vij, assignment, successors, extended_graph, vp, x, z, v),
            uf("transfers", hyperpaths, Vij, assignment, successors, extended_graph, vp, x, z, v))


def spec_get_users(self, hyperpaths, Vij, assignment, successors, extended_graph, f, passenger_obj, z, v):
    """the resources at their social values, a transfer worth spt minutes in a vehicle"""
    ta, te, tv, t = abs_resources(hyperpaths, Vij, assignment, successors, extended_graph, passenger_obj.va, f, z, v)
    return passenger_obj.spa * ta + passenger_obj.spw * te + passenger_obj.spv * (tv + t * passenger_obj.spt / 60)


contract(UC + "get_users_cost", "spec_get_users", ["C23", "C24", "C26"], frame="values",
         modular={UC + "resources_consumer": "abs_resources"},
         args=[("self", ("new", "UsersCost"))] + [(x, "U") for x in ("hyperpaths", "Vij", "assignment", "successors", "extended_graph")] +
         [("f", F1), ("passenger_obj", "Passenger"), ("z", "U"), ("v", "U")])


def abs_last_iteration(self, res):
    return (opaque("Optimizer", "final"), opaque("U", "z"), opaque("U", "v"), opaque(("map", ("U",), "Real", 0), "k"), opaque("U", "loads"))


def abs_overall_cycle(z, v, routes, line_travel_time):
    return opaque(("map", ("U",), "Real", 0), "cycle time", z, v, peek(line_travel_time, opaque("U", "some route")))


def spec_overall(self):
    if self.better_res is None:
        raise NoOptimalSolutionFoundException()
    fopt = self.better_res[0]
    f = spec_fopt_to_f(self, fopt)
    last, z, v, k, loads = abs_last_iteration(self, self.better_res)
    co, ci = abs_operators(self, z, v, f, peek(k, opaque("U", "some route"))), abs_infrastructure(self, f)
    cu = abs_users(self, last.hyperpaths, last.Vij, last.assignment, last.successors, last.extended_graph_obj, f, z, v)
    ta, te, tv, t = abs_resources(last.hyperpaths, last.Vij, last.assignment, last.successors, last.extended_graph_obj,
                                  last.passenger_obj.va, f, z, v)
    cycle = abs_overall_cycle(z, v, None, abs_travel(None, abs_distance(last.graph_obj)))
    fleet, lines, size = defaultdict(float), defaultdict(int), defaultdict(float)
    rs = self.network_obj.get_routes()
    for r in rs:
        if f[r.id] > 0:
            fleet[r.mode] += f[r.id] * cycle[r.id]
            lines[r.mode] += r.mode.d
    for m in lines:
        size[m] = sum(k[r.id] for r in rs if f[r.id] > 0 and r.mode == m) / sum(1 for r in rs if f[r.id] > 0 and r.mode == m)
    n = self.total_trips
    out = defaultdict(None)
    out["VRC"] = (co + ci + cu) / n
    out["operators_cost"] = co / n
    out["infrastructure_cost"] = ci / n
    out["users_cost"] = cu / n
    out["travel_time_on_board"] = 60 * tv / n
    out["waiting_time"] = 60 * te / n
    out["access_time"] = 60 * ta / n
    out["transfers"] = t / n
    out["vehicles_mode"] = fleet
    out["vehicle_capacity_mode"] = size
    out["lines_mode"] = lines
    return out


def abs_operators_k(self, z, v, f, k):
    return abs_operators(self, z, v, f, peek(k, opaque("U", "some route")))


contract(OP + "get_overall_results", "spec_overall", ["C26"], frame="values", requires="has_trips",
         modular={OP + "last_iteration": "abs_last_iteration", OP + "operators_cost": "abs_operators_k",
                  OP + "infrastructure_cost": "abs_infrastructure", OP + "user_cost": "abs_users", OP + "fopt_to_f": "spec_fopt_to_f",
                  UC + "resources_consumer": "abs_resources", OC + "lines_travel_time": "abs_travel",
                  OC + "get_cycle_time": "abs_overall_cycle", GR + "Graph.get_edges_distance": "abs_distance"},
         args=[("self", ("obj", "Optimizer", {"better_res": ("alt", None, ONE_RES)}))])


def has_trips(self):
    if self.better_res is None:
        return self.total_trips > 0
    return self.total_trips > 0 and positions(self, self.better_res[0])


def abs_new_optimizer(self, graph_obj, demand_obj, passenger_obj, network_obj, f=None):
    x = 0 if f is None else peek(f, opaque("U", "some route"))
    self.Vij = opaque("U", "trips of", graph_obj, demand_obj, passenger_obj, network_obj, x)
    self.hyperpaths = opaque("U", "hyperpaths of", graph_obj, demand_obj, passenger_obj, network_obj, x)
    self.successors = opaque("U", "successors of", graph_obj, demand_obj, passenger_obj, network_obj, x)
    self.assignment = opaque("U", "assignment of", graph_obj, demand_obj, passenger_obj, network_obj, x)


def spec_last_iteration(self, res):
    """everything is computed again for exactly the frequencies of the result"""
    f = spec_fopt_to_f(self, res[0])
    last = Optimizer(self.graph_obj, self.demand_obj, self.passenger_obj, self.network_obj, f)
    z, v, loads = abs_flows(last.Vij, last.hyperpaths, last.successors, last.assignment, f)
    return last, z, v, abs_get_k(loads), loads


def positions_res(self, res):
    return positions(self, res[0])


contract(OP + "last_iteration", "spec_last_iteration", ["C26", "C27"], frame="values", requires="positions_res",
         modular={OP + "__init__": "abs_new_optimizer", GAB: "abs_flows", OP + "get_k": "abs_get_k", OP + "fopt_to_f": "spec_fopt_to_f"},
         args=[OPT, ("res", ONE_RES)])


def abs_graph_init(self, graph_obj, routes, tp, frequency):
    self.token = opaque("U", "extended graph of", graph_obj, tp, peek(frequency, opaque("U", "some route")))


def abs_hyperpath_init(self, extended_graph_obj, passenger_obj):
    self.token = opaque("U", "hyperpath over", extended_graph_obj.token, passenger_obj)


def abs_all_hyperpaths(self, OD_matrix):
    x = peek(OD_matrix, opaque("Int", "some origin"), opaque("Int", "some destination"))
    return (opaque("U", "hp", self.token, x), opaque("U", "lb", self.token, x), opaque("U", "su", self.token, x),
            opaque("U", "fr", self.token, x), opaque("U", "vij", self.token, x))


def abs_matrix(self):
    return opaque(("map", ("Int", "Int"), "Real", 0), "matrix of", self)


def abs_total(self):
    return uf("trips of", self)


def abs_assignment(hyperpaths, labels, p, vp, spa, spv):
    return opaque("U", "shares", hyperpaths, labels, p, vp, spa, spv)


def abs_constraints(self, fopt):
    return opaque(("list", "Real"), "constraints", self.Vij, self.hyperpaths, self.successors, self.assignment)


def spec_optimizer(self, graph_obj, demand_obj, passenger_obj, network_obj, f):
    self.graph_obj, self.demand_obj, self.passenger_obj, self.network_obj = graph_obj, demand_obj, passenger_obj, network_obj
    self.p = graph_obj.get_parameters()[3]
    self.total_trips = abs_total(demand_obj)
    self.vp, self.pa, self.pv, self.TP = passenger_obj.va, passenger_obj.pa, passenger_obj.pv, passenger_obj.pt
    self.f, self.f_opt, self.lines_position = spec_f0(self, f)
    self.extended_graph_obj = ExtendedGraph(graph_obj, network_obj.get_routes(), self.TP, self.f)
    self.hyperpath_obj = Hyperpath(self.extended_graph_obj, passenger_obj)
    self.hyperpaths, self.labels, self.successors, self.frequency, self.Vij = abs_all_hyperpaths(self.hyperpath_obj, abs_matrix(demand_obj))
    self.assignment = abs_assignment(self.hyperpaths, self.labels, self.p, self.vp, self.pa, self.pv)
    self.len_constrains = len(abs_constraints(self, self.f_opt))
    self.len_var = len(network_obj.get_routes())
    self.better_res = None


def routes_differ4(self, graph_obj, demand_obj, passenger_obj, network_obj, f):
    return one_each(network_obj.get_routes())


contract(OP + "__init__", "spec_optimizer", ["C24", "C26"], requires="routes_differ4", frame="values",
         modular={"sidermit.optimization.preoptimization.extended_graph.ExtendedGraph.__init__": "abs_graph_init",
                  "sidermit.optimization.preoptimization.hyper_path.Hyperpath.__init__": "abs_hyperpath_init",
                  "sidermit.optimization.preoptimization.hyper_path.Hyperpath.get_all_hyperpaths": "abs_all_hyperpaths",
                  "sidermit.city.demand.Demand.get_matrix": "abs_matrix", "sidermit.city.demand.Demand.get_total_trips": "abs_total",
                  AS + "get_assignment": "abs_assignment", OP + "get_constrains": "abs_constraints"},
         args=[("self", ("new", "Optimizer")), ("graph_obj", "Graph"), ("demand_obj", "Demand"), ("passenger_obj", "Passenger"),
               ("network_obj", "TransportNetwork"), ("f", ("alt", None, F1))])
