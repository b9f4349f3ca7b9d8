"""Extended graph, assignment of trips to stops, flows (C13, C17, C18, C27)."""
ASG = "sidermit.optimization.preoptimization.assignment.Assignment."
SCHEMA["CityNode"] = {"id": "Int", "graph_node": "Node"}
SCHEMA["StopNode"] = {"id": "Int", "mode": "TransportMode", "city_node": "CityNode"}

HP = ("map", ["CityNode", "CityNode", "StopNode"], "U", None)
LAB = ("map", ["CityNode", "CityNode", "StopNode"], "Real", 0)


# ---------------------------------------------------------------- C17
def inv_stop1(hyperpaths, origin, destination, k):
    """the first stop of a mode with one line"""
    stops = list(hyperpaths[origin][destination])
    ones = [s for s in stops[:k] if s.mode.d == 1]
    return ones[0] if ones else None


def inv_stop2(hyperpaths, origin, destination, k):
    """the last of the other stops"""
    stops = list(hyperpaths[origin][destination])
    rest = [stops[i] for i in range(k) if stops[i].mode.d != 1 or any(stops[j].mode.d == 1 for j in range(i))]
    return rest[-1] if rest else None


def inv_position(zona_stop_2, k):
    """before line k of the second mode: where the line before it is"""
    return 0 if k == 0 else zona_stop_2 / 2 + (k - 1) * zona_stop_2


def shares(l1, l2, lines, p, vp, ratio):
    """does the central stop get trips of the zone, does the stop of the mode with that many lines, the percentage of the first"""
    if l1 <= l2:
        d = vp * (l2 - l1) / ratio
        farther = [x for x in [inv_position(p / lines, i + 1) for i in range(int(lines / 2))] if x > d]
        if d >= p / 2 or not farther:
            return True, False, 100
        return True, True, (d + farther[0]) / p * 100
    if lines % 2 == 1:
        return False, True, 0
    d = vp * (l1 - l2) / ratio
    x = inv_position(p / lines, 1)
    if d >= x:
        return False, True, 0
    return True, True, (x - d) / p * 100


def positive_parameters(l1, l2, lines, p, vp, ratio):
    return p > 0 and vp > 0 and ratio > 0 and lines >= 1


def all_of_it(l1, l2, lines, p, vp, ratio, res):
    """between 0 and 100, and what one of them does not get goes to the other"""
    first, second, a = res
    return 0 <= a <= 100 and (first or a == 0) and (second or a == 100)


contract("shares", None, ["C17"], lemma=True, requires="positive_parameters", ensures="all_of_it",
         args=[("l1", "Real"), ("l2", "Real"), ("lines", "Int"), ("p", "Real"), ("vp", "Real"), ("ratio", "Real")])


def spec_get_assignment(hyperpaths, labels, p, vp, spa, spv):
    out = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for o in hyperpaths:
        for t in hyperpaths[o]:
            n = len(hyperpaths[o][t])
            s1, s2 = inv_stop1(hyperpaths, o, t, n), inv_stop2(hyperpaths, o, t, n)
            if s1 is None and s2 is None:
                continue
            if s1 is None:
                out[o][t][s2] = 100
                continue
            if s2 is None:
                out[o][t][s1] = 100
                continue
            first, second, a = shares(labels[o][t][s1], labels[o][t][s2], s2.mode.d, p, vp, spa / spv)
            if first:
                out[o][t][s1] = a
            if second:
                out[o][t][s2] = 100 - a
    return out


def assignable(hyperpaths, labels, p, vp, spa, spv):
    return p > 0 and vp > 0 and spa > 0 and spv > 0 and \
        all(s.mode.d >= 1 for o in hyperpaths for t in hyperpaths[o] for s in hyperpaths[o][t])


contract(ASG + "get_assignment", "spec_get_assignment", ["C17"], frame="values", requires="assignable",
         invariants={(ASG + "get_assignment", "stop1"): "inv_stop1", (ASG + "get_assignment", "stop2"): "inv_stop2",
                     (ASG + "get_assignment", "position"): "inv_position"},
         args=[("hyperpaths", HP), ("labels", LAB), ("p", "Real"), ("vp", "Real"), ("spa", "Real"), ("spv", "Real")])


# ---------------------------------------------------------------- C13: extended graph
EG = "sidermit.optimization.preoptimization.extended_graph.ExtendedGraph."
SCHEMA["RouteNode"] = {"id": "Int", "route": "Route", "direction": "U", "stop_node": "StopNode", "prev_route_node": ("opt", "RouteNode")}
SCHEMA["ExtendedEdge"] = {"id": "Int", "nodei": "U", "nodej": "U", "t": "Real", "f": "Real", "type": "U"}
TREE = ("map", ["CityNode", "StopNode"], ("list", "RouteNode"), None)
MODES_AT = ("map", ["CityNode", "TransportMode"], ("list", "U"), None)
FREQ = ("map", ["U"], "Real", 0)


def spec_city_nodes(graph_obj):
    """one for each node of the city, in order"""
    ns = graph_obj.get_nodes()
    return [made("CityNode", id=i, graph_node=ns[i]) for i in range(len(ns))]


contract(EG + "build_city_nodes", "spec_city_nodes", ["C13"], args=[("graph_obj", "Graph")])


def spec_stop_nodes(tree_graph):
    """one for each mode at each city node"""
    out = []
    for c in tree_graph:
        for m in tree_graph[c]:
            out.append(made("StopNode", id=len(out), mode=m, city_node=c))
    return out


contract(EG + "build_stop_nodes", "spec_stop_nodes", ["C13"], args=[("tree_graph", MODES_AT)])


def spec_access(extended_graph_nodes):
    """one each way between a stop and its city node, with the access time of the mode in hours"""
    out = []
    for c in extended_graph_nodes:
        for s in extended_graph_nodes[c]:
            out.append(made("ExtendedEdge", id=len(out), nodei=c, nodej=s, t=s.mode.tat / 60, f=float('inf'), type=ExtendedEdgesType.ACCESS))
            out.append(made("ExtendedEdge", id=len(out), nodei=s, nodej=c, t=s.mode.tat / 60, f=float('inf'), type=ExtendedEdgesType.ACCESS))
    return out


contract(EG + "build_access_edges", "spec_access", ["C13"], args=[("extended_graph_nodes", TREE)])


def ends(r):
    """first and last city node of the direction of a route node"""
    q = r.route.nodes_sequence_i if r.direction == "I" else r.route.nodes_sequence_r
    return q[0], q[-1]


def spec_boarding(extended_graph_nodes, frequency_routes):
    """at every stop of a circular route and at all but the last of the others"""
    out = []
    for c in extended_graph_nodes:
        for s in extended_graph_nodes[c]:
            for r in extended_graph_nodes[c][s]:
                if r.route._type == RouteType.CIRCULAR or r.stop_node.city_node.graph_node.id != ends(r)[1]:
                    out.append(made("ExtendedEdge", id=len(out), nodei=s, nodej=r, t=0, f=frequency_routes[r.route.id] / r.route.mode.d,
                                    type=ExtendedEdgesType.BOARDING))
    return out


def lines_and_nodes(extended_graph_nodes):
    g = extended_graph_nodes
    return all(r.route.mode.d >= 1 and len(r.route.nodes_sequence_i) >= 1 and len(r.route.nodes_sequence_r) >= 1
               for c in g for s in g[c] for r in g[c][s])


def boardable(extended_graph_nodes, frequency_routes):
    return lines_and_nodes(extended_graph_nodes)


contract(EG + "build_boarding_edges", "spec_boarding", ["C13"], requires="boardable", frame="values",
         args=[("extended_graph_nodes", TREE), ("frequency_routes", FREQ)])


def spec_alighting(extended_graph_nodes, sPTP):
    """at every stop of a circular route and at all but the first of the others, with the transfer penalty in hours"""
    out = []
    for c in extended_graph_nodes:
        for s in extended_graph_nodes[c]:
            for r in extended_graph_nodes[c][s]:
                if r.route._type == RouteType.CIRCULAR or r.stop_node.city_node.graph_node.id != ends(r)[0]:
                    out.append(made("ExtendedEdge", id=len(out), nodei=r, nodej=s, t=sPTP / 60, f=float('inf'),
                                    type=ExtendedEdgesType.ALIGHTING))
    return out


def alightable(extended_graph_nodes, sPTP):
    return lines_and_nodes(extended_graph_nodes)


contract(EG + "build_alighting_edges", "spec_alighting", ["C13"], requires="alightable",
         args=[("extended_graph_nodes", TREE), ("sPTP", "Real")])


def spec_tree(route_nodes):
    """route nodes by city node and stop"""
    out = defaultdict(lambda: defaultdict(list))
    for r in route_nodes:
        out[r.stop_node.city_node][r.stop_node].append(r)
    return out


contract(EG + "build_extended_graph_nodes", "spec_tree", ["C13"], args=[("route_nodes", ("list", "RouteNode"))])


def abs_city_nodes(graph_obj):
    return opaque(("list", "CityNode"), "city nodes", graph_obj)


def abs_tree_graph(routes, city_nodes):
    return opaque("U", "tree", len(routes), city_nodes[opaque("Int", "some place")])


def abs_stop_nodes(tree_graph):
    return opaque("U", "stops", tree_graph)


def abs_route_nodes(routes, stop_nodes):
    return opaque("U", "route nodes", len(routes), stop_nodes)


def abs_nodes(route_nodes):
    return opaque("U", "nodes", route_nodes)


def abs_access(extended_graph_nodes):
    return opaque(("list", "ExtendedEdge"), "access links", extended_graph_nodes)


def abs_boarding(extended_graph_nodes, frequency_routes):
    return opaque(("list", "ExtendedEdge"), "boarding links", extended_graph_nodes, peek(frequency_routes, opaque("U", "some route")))


def abs_alighting(extended_graph_nodes, sPTP):
    return opaque(("list", "ExtendedEdge"), "alighting links", extended_graph_nodes, sPTP)


def abs_route_edges(extended_graph_nodes, city_nodes):
    return opaque(("list", "ExtendedEdge"), "route links", extended_graph_nodes, city_nodes[opaque("Int", "some place")])


def spec_extended(self, graph_obj, routes, TP, frequency_routes):
    """the nodes, and all links of the four kinds; without frequencies those the modes start with"""
    f = frequency_routes
    if f is None:
        f = defaultdict(float)
        for r in routes:
            f[r.id] = r.mode.fini
    cs = abs_city_nodes(graph_obj)
    nodes = abs_nodes(abs_route_nodes(routes, abs_stop_nodes(abs_tree_graph(routes, cs))))
    self._ExtendedGraph__extended_graph_nodes = nodes
    self._ExtendedGraph__extended_graph_edges = abs_access(nodes) + abs_boarding(nodes, f) + abs_alighting(nodes, TP) + \
        abs_route_edges(nodes, cs)


def has_city(self, graph_obj, routes, TP, frequency_routes):
    return 0 <= opaque("Int", "some place") < len(abs_city_nodes(graph_obj))


BUILDERS = {EG + "build_city_nodes": "abs_city_nodes", EG + "build_tree_graph": "abs_tree_graph", EG + "build_stop_nodes": "abs_stop_nodes",
            EG + "build_route_nodes": "abs_route_nodes", EG + "build_extended_graph_nodes": "abs_nodes",
            EG + "build_access_edges": "abs_access", EG + "build_boarding_edges": "abs_boarding",
            EG + "build_alighting_edges": "abs_alighting", EG + "build_route_edges": "abs_route_edges"}
for _f, _n in ((FREQ, "frequencies given"), (None, "first frequencies")):
    contract(EG + "__init__", "spec_extended", ["C13"], name="ExtendedGraph.__init__ (%s)" % _n, modular=BUILDERS, frame="values",
             requires="has_city", args=[("self", ("new", "ExtendedGraph")), ("graph_obj", "Graph"), ("routes", ("list", "Route")),
                                        ("TP", "Real"), ("frequency_routes", _f)])
