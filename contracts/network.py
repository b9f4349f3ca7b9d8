"""Routes and networks (C10, C11, C12)."""
NW = "sidermit.publictransportsystem.network."
RT = NW + "Route."


# ---------------------------------------------------------------- C10: sequences as text
def client_text(seq):
    return Route.sequences_to_list(Route.sequences_to_string(seq))


def spec_text(seq):
    return [x for x in seq]


contract("client_text", "spec_text", ["C10"], lemma=True, args=[("seq", ("list", "Int"))])


def spec_parse(sequence):
    """exactly the integers of the comma-separated text, none for the empty text or None"""
    if sequence is None or sequence == "":
        return []
    return [int(x) for x in sequence.split(",")]


contract(RT + "sequences_to_list", "spec_parse", ["C10", "C12"], args=[("sequence", ("alt", None, "U"))])


def spec_stops(nodes_list, stops_list):
    if len(stops_list) == 0:
        raise StopSequenceIsNotValidException()
    if not all(any(s == n for n in nodes_list) for s in stops_list):
        raise StopsSequencesException()
    if nodes_list[0] != stops_list[0]:
        raise FirstStopIsNotValidException()
    if nodes_list[-1] != stops_list[-1]:
        raise LastStopIsNotValidException()
    return True


def spec_direction(nodes_list_i, nodes_list_r):
    if len(nodes_list_i) == 0 or len(nodes_list_r) == 0:
        raise NodeSequencesIsNotValidException()
    if nodes_list_i[0] != nodes_list_r[-1] or nodes_list_r[0] != nodes_list_i[-1]:
        raise NotCycleException()
    return True


def spec_no_repeat(sequence):
    """no node twice"""
    if any(sequence[p] == sequence[q] for q in range(len(sequence)) for p in range(q)):
        raise NodeSequencesIsNotValidException()
    return True


INTS = ("list", "Int")
contract(RT + "stops_validator", "spec_stops", ["C10"], args=[("nodes_list", INTS), ("stops_list", INTS)])
contract(RT + "direction_validator", "spec_direction", ["C10"], args=[("nodes_list_i", INTS), ("nodes_list_r", INTS)])
contract(RT + "sequences_validator", "spec_no_repeat", ["C10"], args=[("sequence", INTS)])


def abs_parse(sequence):
    """the integers written in the text (spec_parse)"""
    return opaque(("list", "Int"), "written", sequence)


def spec_route(self, route_id, mode_obj, nodes_sequence_i, nodes_sequence_r, stops_sequence_i, stops_sequence_r, _type):
    """a route with the sequences written, refused when it is custom and not valid"""
    texts = [nodes_sequence_i, nodes_sequence_r, stops_sequence_i, stops_sequence_r]
    self.id = None
    self.mode = None
    self.nodes_sequence_i = None
    self.nodes_sequence_r = None
    self.stops_sequence_i = None
    self.stops_sequence_r = None
    self._type = _type
    if _type == RouteType.CUSTOM:
        if any(t is None or t == "" for t in texts[:2]):
            raise NodeSequencesIsNotValidException()
        if any(t is None or t == "" for t in texts[2:]):
            raise StopSequenceIsNotValidException()
    if route_id is None:
        raise RouteIdIsNotValidException()
    if _type == RouteType.CUSTOM and not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    ni = abs_parse(nodes_sequence_i)
    nr = abs_parse(nodes_sequence_r)
    si = abs_parse(stops_sequence_i)
    sr = abs_parse(stops_sequence_r)
    if _type == RouteType.CUSTOM:
        spec_direction(ni, nr)
        spec_stops(ni, si)
        spec_stops(nr, sr)
        spec_no_repeat(ni)
        spec_no_repeat(nr)
    self.id = route_id
    self.mode = mode_obj
    self.nodes_sequence_i = ni
    self.nodes_sequence_r = nr
    self.stops_sequence_i = si
    self.stops_sequence_r = sr


def known_type(self, route_id, mode_obj, nodes_sequence_i, nodes_sequence_r, stops_sequence_i, stops_sequence_r, _type):
    return _type == RouteType.CUSTOM or _type == RouteType.PREDEFINED or _type == RouteType.CIRCULAR


TXT = ("alt", None, "U")
contract(RT + "__init__", "spec_route", ["C10"], requires="known_type", 
         modular={RT + "sequences_to_list": "abs_parse", RT + "sequences_validator": "spec_no_repeat", RT + "stops_validator": "spec_stops",
                  RT + "direction_validator": "spec_direction"},
         args=[("self", ("new", "Route")), ("route_id", ("alt", None, "U")), ("mode_obj", ("alt", None, "Int", "TransportMode")),
               ("nodes_sequence_i", TXT), ("nodes_sequence_r", TXT), ("stops_sequence_i", TXT), ("stops_sequence_r", TXT), ("_type", "U")])


# ---------------------------------------------------------------- C11: the registry of routes and modes
TN = NW + "TransportNetwork."
MODES = [("items",), ("items", "TransportMode"), ("items", "TransportMode", "TransportMode")]
NETS = [("obj", "TransportNetwork", dict({"_TransportNetwork__modes": m}, **(
    {"_TransportNetwork__routes": ("items",), "_TransportNetwork__routes_id": ("items",)} if len(m) == 1 else {}))) for m in MODES]


def registry(self):
    """the i-th id is the id of the i-th route, no id twice, every route uses a listed mode and only links of the city; the modes are
    at most two, distinct, with different names, one of them with a single line per street when they are two"""
    routes, ids, modes = self._TransportNetwork__routes, self._TransportNetwork__routes_id, self._TransportNetwork__modes
    listed = len(routes) == len(ids) and all(ids[i] == routes[i].id for i in range(len(routes)))
    once = all(i == j or routes[i].id != routes[j].id for i in range(len(routes)) for j in range(len(routes)))
    used = all(any(r.mode == m for m in modes) for r in routes)
    pair = len(modes) <= 2 and (len(modes) < 2 or (modes[0] != modes[1] and modes[0]._name != modes[1]._name and
                                                   (modes[0]._d == 1 or modes[1]._d == 1)))
    return listed and once and used and pair


def registry1(self, x):
    return registry(self)


def registry_after(self, res):
    return registry(self)


def registry_after1(self, x, res):
    return registry(self)


def listed_ids(self, x):
    routes, ids = self._TransportNetwork__routes, self._TransportNetwork__routes_id
    return len(routes) == len(ids) and all(ids[i] == routes[i].id for i in range(len(routes)))


def on_links(graph, nodes):
    """every consecutive pair is a link of the city"""
    return all(any(e.node1.id == nodes[p] and e.node2.id == nodes[p + 1] for e in graph._Graph__edges)
               for p in range(len(nodes) - 1))


def spec_net(self, graph_obj):
    self._TransportNetwork__graph_obj = graph_obj
    self._TransportNetwork__routes = []
    self._TransportNetwork__routes_id = []
    self._TransportNetwork__modes = []


contract(TN + "__init__", "spec_net", ["C11"], args=[("self", ("new", "TransportNetwork")), ("graph_obj", "Graph")])


def spec_edges(self, node_list):
    if not on_links(self._TransportNetwork__graph_obj, node_list):
        raise NodeSequencesIsNotValidException()
    return True


contract(TN + "__edges_validator", "spec_edges", ["C11", "C12"], args=[("self", "TransportNetwork"), ("node_list", ("list", "Int"))])


def spec_get_route(self, route_id):
    if all(r.id != route_id for r in self._TransportNetwork__routes):
        raise RouteIdNotFoundException()
    for r in self._TransportNetwork__routes:
        if r.id == route_id:
            return r


contract(TN + "get_route", "spec_get_route", ["C11"], requires="listed_ids", args=[("self", "TransportNetwork"), ("route_id", "U")])


def spec_add_transport_mode(self, mode):
    modes = self._TransportNetwork__modes
    if not isinstance(mode, TransportMode):
        raise ModeIsNotValidException()
    if any(m == mode for m in modes):
        return
    if any(m._name == mode._name for m in modes):
        raise AddModeExceptions()
    if len(modes) >= 2 or (len(modes) == 1 and modes[0]._d != 1 and mode._d != 1):
        raise TransportNetworkException()
    modes.append(mode)


def spec_add_route(self, route_obj):
    if not isinstance(route_obj, Route):
        raise RouteIsNotvalidException()
    g = self._TransportNetwork__graph_obj
    if not on_links(g, route_obj.nodes_sequence_i) or not on_links(g, route_obj.nodes_sequence_r):
        raise NodeSequencesIsNotValidException()
    if any(r.id == route_obj.id for r in self._TransportNetwork__routes):
        raise RouteIdDuplicatedException()
    spec_add_transport_mode(self, route_obj.mode)
    self._TransportNetwork__routes.append(route_obj)
    self._TransportNetwork__routes_id.append(route_obj.id)


def spec_remove_route(self, route_id):
    """exactly the route with the id goes"""
    routes, ids = self._TransportNetwork__routes, self._TransportNetwork__routes_id
    if all(r.id != route_id for r in routes):
        raise RouteIdNotFoundException()
    ids[:] = [r.id for r in routes if r.id != route_id]
    routes[:] = [r for r in routes if r.id != route_id]


def spec_remove_transport_mode(self, mode):
    """exactly the mode and the routes that use it go"""
    self._TransportNetwork__modes = [m for m in self._TransportNetwork__modes if m != mode]
    routes, ids = self._TransportNetwork__routes, self._TransportNetwork__routes_id
    ids[:] = [r.id for r in routes if r.mode != mode]
    routes[:] = [r for r in routes if r.mode != mode]


def inv_routes(self, mode, k):
    """after k routes: those of them that use the mode are gone"""
    routes = self._TransportNetwork__routes
    return [routes[i] for i in range(len(routes)) if i >= k or routes[i].mode != mode]


def inv_ids(self, mode, k):
    return [r.id for r in inv_routes(self, mode, k)]


for _n in range(3):
    contract(TN + "add_transport_mode", "spec_add_transport_mode", ["C11"], name="add_transport_mode (%d modes)" % _n, requires="registry1",
             ensures="registry_after1", args=[("self", NETS[_n]), ("mode", ("alt", None, "Int", "TransportMode"))])
    contract(TN + "add_route", "spec_add_route", ["C11"], name="add_route (%d modes)" % _n, requires="registry1",
             ensures="registry_after1", modular={TN + "add_transport_mode": "spec_add_transport_mode"},
             args=[("self", NETS[_n]), ("route_obj", ("alt", None, "Int", "Route"))])
    contract(TN + "remove_route", "spec_remove_route", ["C11"], name="remove_route (%d modes)" % _n, requires="registry1",
             ensures="registry_after1" if _n else (), args=[("self", NETS[_n]), ("route_id", "U")])
    contract(TN + "remove_transport_mode", "spec_remove_transport_mode", ["C11"], name="remove_transport_mode (%d modes)" % _n,
             requires="registry1", ensures="registry_after1", modular={TN + "remove_route": "spec_remove_route"},
             invariants={(TN + "remove_transport_mode", "self._TransportNetwork__routes"): "inv_routes",
                         (TN + "remove_transport_mode", "self._TransportNetwork__routes_id"): "inv_ids"},
             args=[("self", NETS[_n]), ("mode", "TransportMode")])


# ---------------------------------------------------------------- C12: predefined route families
NET = ("self", "TransportNetwork")


def made_route(route_id, mode, ni, nr, si, sr, kind):
    return made("Route", id=route_id, mode=mode, nodes_sequence_i=ni, nodes_sequence_r=nr, stops_sequence_i=si,
                stops_sequence_r=sr, _type=kind)


def there_and_back(route_id, mode, nodes, stops):
    """one direction, and the other the reverse of it"""
    return made_route(route_id, mode, nodes, nodes[::-1], stops, stops[::-1], RouteType.PREDEFINED)


def city(self, *rest):
    """(C01) zones are in the order of their ids 1..n and there is a CBD"""
    g = self._TransportNetwork__graph_obj
    return all(g._Graph__zones[i].id == i + 1 for i in range(len(g._Graph__zones))) and \
        any(isinstance(n, CBD) for n in g._Graph__nodes)


def city1(self, mode_obj):
    return city(self)


def city3(self, mode_obj, short, express):
    return city(self)


def city4(self, mode_obj, jump, short, express):
    return city(self)


def spec_feeder(self, mode_obj):
    if not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    out = []
    for z in self._TransportNetwork__graph_obj._Graph__zones:
        way = [z.periphery.id, z.subcenter.id]
        out.append(there_and_back("F_{}_{}".format(mode_obj._name, z.id), mode_obj, way, way))
    return out


contract(TN + "get_feeder_routes", "spec_feeder", ["C12"], requires="city1",
         args=[NET, ("mode_obj", ("alt", None, "Int", "TransportMode"))])


def spec_radial(self, mode_obj, short, express):
    if not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    g = self._TransportNetwork__graph_obj
    cbd = g.get_cbd().id
    out = []
    for z in g._Graph__zones:
        p, sc = z.periphery.id, z.subcenter.id
        if short:
            r = there_and_back("RS_{}_{}".format(mode_obj._name, z.id), mode_obj, [sc, cbd], [sc, cbd])
        elif express:
            r = there_and_back("RE_{}_{}".format(mode_obj._name, z.id), mode_obj, [p, sc, cbd], [p, cbd])
        else:
            r = there_and_back("R_{}_{}".format(mode_obj._name, z.id), mode_obj, [p, sc, cbd], [p, sc, cbd])
        out.append(r)
    return out


contract(TN + "get_radial_routes", "spec_radial", ["C12"], requires="city3",
         args=[NET, ("mode_obj", ("alt", None, "Int", "TransportMode")), ("short", "Bool"), ("express", "Bool")])


def jump_ok(jump, n):
    """an integer in 1..n/2"""
    return isinstance(jump, int) and jump >= 1 and 2 * jump <= n


def served(jump, n):
    """one route per zone, but only the first half of the zones when the jump is exactly half of them"""
    return jump if 2 * jump == n else n


def spec_diametral(self, mode_obj, jump, short, express):
    if not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    g = self._TransportNetwork__graph_obj
    cbd = g.get_cbd().id
    zones = g._Graph__zones
    n = len(zones)
    if not jump_ok(jump, n):
        raise JumpIsNotValidException()
    out = []
    for i in range(served(jump, n)):
        a = zones[i]
        b = zones[i + jump] if i + jump < n else zones[i + jump - n]
        inner = [a.subcenter.id, cbd, b.subcenter.id]
        whole = [a.periphery.id] + inner + [b.periphery.id]
        if short and express:
            r = there_and_back("DSE{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, inner, [a.subcenter.id, b.subcenter.id])
        elif short:
            r = there_and_back("DS{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, inner, inner)
        elif express:
            r = there_and_back("DE{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, whole, [a.periphery.id, b.periphery.id])
        else:
            r = there_and_back("D{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, whole, whole)
        out.append(r)
    return out


contract(TN + "get_diametral_routes", "spec_diametral", ["C12"], requires="city4",
         args=[NET, ("mode_obj", ("alt", None, "Int", "TransportMode")), ("jump", "Int"), ("short", "Bool"), ("express", "Bool")])


def spec_circular(self, mode_obj):
    g = self._TransportNetwork__graph_obj
    zones = g._Graph__zones
    if len(zones) <= 1:
        raise CircularRouteIsNotValidException()
    if not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    ring = [z.subcenter.id for z in zones]
    there = ring + ring[:1]
    back = [zones[len(zones) - 1 - i].subcenter.id for i in range(len(zones))] + ring[-1:]
    return [made_route("CIR_I_{}".format(mode_obj._name), mode_obj, there, [], there, [], RouteType.CIRCULAR),
            made_route("CIR_R_{}".format(mode_obj._name), mode_obj, [], back, [], back, RouteType.CIRCULAR)]


contract(TN + "get_circular_routes", "spec_circular", ["C12"], requires="city1",
         args=[NET, ("mode_obj", ("alt", None, "Int", "TransportMode"))])


def spec_tangential(self, mode_obj, jump, short, express):
    if not isinstance(mode_obj, TransportMode):
        raise ModeIsNotValidException()
    zones = self._TransportNetwork__graph_obj._Graph__zones
    n = len(zones)
    if not jump_ok(jump, n):
        raise JumpIsNotValidException()
    out = []
    for i in range(served(jump, n)):
        a = zones[i]
        b = zones[i + jump] if i + jump < n else zones[i + jump - n]
        inner = [(zones[i + t] if i + t < n else zones[i + t - n]).subcenter.id for t in range(jump + 1)]
        back = [(zones[i + jump - t] if i + jump - t < n else zones[i + jump - t - n]).subcenter.id for t in range(jump + 1)]
        whole = [a.periphery.id] + inner + [b.periphery.id]
        wback = [b.periphery.id] + back + [a.periphery.id]
        sc, p = [a.subcenter.id, b.subcenter.id], [a.periphery.id, b.periphery.id]
        if short and express:
            r = made_route("TSE{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, inner, back, sc, sc[::-1], RouteType.PREDEFINED)
        elif short:
            r = made_route("TS{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, inner, back, inner, back, RouteType.PREDEFINED)
        elif express:
            r = made_route("TE{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, whole, wback, p, p[::-1], RouteType.PREDEFINED)
        else:
            r = made_route("T{}_{}_{}".format(jump, mode_obj._name, a.id), mode_obj, whole, wback, whole, wback, RouteType.PREDEFINED)
        out.append(r)
    return out


contract(TN + "get_tangencial_routes", "spec_tangential", ["C12"], requires="city4",
         args=[NET, ("mode_obj", ("alt", None, "Int", "TransportMode")), ("jump", "Int"), ("short", "Bool"), ("express", "Bool")])


# what the families have in common, from the specifications the functions were just proved to meet
def link(a, b):
    """any relation that holds for the documented links of a city"""
    return opaque("Bool", "link", a, b)


def linked(self, *rest):
    """(C01) periphery-subcenter and subcenter-CBD in every zone, and subcenters around the ring, both ways"""
    g = self._TransportNetwork__graph_obj
    zones = g._Graph__zones
    n = len(zones)
    cbd = g.get_cbd().id
    return city(self) and all(link(z.periphery.id, z.subcenter.id) and link(z.subcenter.id, z.periphery.id) and
                              link(z.subcenter.id, cbd) and link(cbd, z.subcenter.id) for z in zones) and \
        (n < 2 or all(link(zones[i].subcenter.id, zones[i + 1].subcenter.id) and
                      link(zones[i + 1].subcenter.id, zones[i].subcenter.id) for i in range(n - 1)) and
         link(zones[n - 1].subcenter.id, zones[0].subcenter.id) and link(zones[0].subcenter.id, zones[n - 1].subcenter.id))


def linked1(self, mode):
    return linked(self)


def linked3(self, mode, short, express):
    return linked(self)


def linked4(self, mode, jump, short, express):
    return linked(self)


def along(nodes):
    return all(link(nodes[p], nodes[p + 1]) for p in range(len(nodes) - 1))


def ways_ok(routes):
    return all(along(r.nodes_sequence_i) for r in routes), all(along(r.nodes_sequence_r) for r in routes)


def ways1(self, mode, routes):
    return ways_ok(routes)


def ways3(self, mode, short, express, routes):
    return ways_ok(routes)


def ways4(self, mode, jump, short, express, routes):
    return ways_ok(routes)


MODE_ = ("mode", "TransportMode")
OPTS = [("short", "Bool"), ("express", "Bool")]
contract("spec_feeder", None, ["C12"], lemma=True, name="feeder routes use links", requires="linked1", ensures="ways1", raises=False,
         args=[NET, MODE_])
contract("spec_circular", None, ["C12"], lemma=True, name="circular routes use links", requires="linked1", ensures="ways1", raises=False,
         args=[NET, MODE_])
contract("spec_radial", None, ["C12"], lemma=True, name="radial routes use links", requires="linked3", ensures="ways3", raises=False,
         args=[NET, MODE_] + OPTS)
contract("spec_diametral", None, ["C12"], lemma=True, name="diametral routes use links", requires="linked4", ensures="ways4", raises=False,
         args=[NET, MODE_, ("jump", "Int")] + OPTS)
contract("spec_tangential", None, ["C12"], lemma=True, name="tangential routes use links", requires="linked4", ensures="ways4", raises=False,
         args=[NET, MODE_, ("jump", "Int")] + OPTS)


def other_ids(routes):
    return all(i == j or routes[i].id != routes[j].id for i in range(len(routes)) for j in range(len(routes)))


def ids1(self, mode, routes):
    return other_ids(routes)


def ids3(self, mode, short, express, routes):
    return other_ids(routes)


def ids4(self, mode, jump, short, express, routes):
    return other_ids(routes)


def other_pairs(self, routes):
    """no two routes between the same two zones"""
    zones = self._TransportNetwork__graph_obj._Graph__zones
    ends = [(r.nodes_sequence_i[0], r.nodes_sequence_i[-1]) for r in routes]
    return all(i == j or not (ends[i][0] == ends[j][0] and ends[i][1] == ends[j][1] or ends[i][0] == ends[j][1] and ends[i][1] == ends[j][0])
               for i in range(len(ends)) for j in range(len(ends)))


def pairs4(self, mode, jump, short, express, routes):
    return other_pairs(self, routes)


def apart(self, mode, jump, short, express):
    """(C01) subcenters, and peripheries, have different ids"""
    zones = self._TransportNetwork__graph_obj._Graph__zones
    return city(self) and all(i == j or (zones[i].subcenter.id != zones[j].subcenter.id and zones[i].periphery.id != zones[j].periphery.id)
                              for i in range(len(zones)) for j in range(len(zones)))


contract("spec_feeder", None, ["C12"], lemma=True, name="feeder ids differ", requires="city1", ensures="ids1", raises=False,
         args=[NET, MODE_])
contract("spec_circular", None, ["C12"], lemma=True, name="circular ids differ", requires="city1", ensures="ids1", raises=False,
         args=[NET, MODE_])
contract("spec_radial", None, ["C12"], lemma=True, name="radial ids differ", requires="city3", ensures="ids3", raises=False,
         args=[NET, MODE_] + OPTS)
contract("spec_diametral", None, ["C12"], lemma=True, name="diametral ids and pairs differ", requires="apart", ensures=["ids4", "pairs4"],
         raises=False, args=[NET, MODE_, ("jump", "Int")] + OPTS)
contract("spec_tangential", None, ["C12"], lemma=True, name="tangential ids and pairs differ", requires="apart", ensures=["ids4", "pairs4"],
         raises=False, args=[NET, MODE_, ("jump", "Int")] + OPTS)
