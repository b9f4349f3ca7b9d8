"""Cities: nodes, zones, links, parameters (C01, C02, C03)."""
GR = "sidermit.city.graph."
NUM = ("alt", "Int", "Real")
OPT = ("alt", None, "Int", "Real")
IDT = ("alt", None, "Int")

SCHEMA["Node"] = {"id": "Int", "x": "Real", "y": "Real", "radius": "Real", "angle": "Real", "width": "Real", "name": "U", "zone_id": "Int"}
SCHEMA["Zone"] = {"id": "Int", "periphery": "Periphery", "subcenter": "Subcenter"}
SCHEMA["Edge"] = {"id": "Int", "node1": "Node", "node2": "Node"}
SCHEMA["Graph"] = {"_Graph__nodes_id": ("list", "Int"), "_Graph__edges_id": ("list", "Int"), "_Graph__cbd_exist": "Bool",
                   "_Graph__zones": ("list", "Zone"), "_Graph__nodes": ("list", "Node"), "_Graph__edges": ("list", "Edge"),
                   "_Graph__n": "Int", "_Graph__l": "Real", "_Graph__g": "Real", "_Graph__p": "Real",
                   "_Graph__etha": ("opt", "Real"), "_Graph__etha_zone": ("opt", "Int"),
                   "_Graph__angles": ("opt", ("list", "Real")), "_Graph__Gi": ("opt", ("list", "Real")),
                   "_Graph__Hi": ("opt", ("list", "Real"))}


# ---------------------------------------------------------------- C03: parts of a city are in range or refused
def spec_node_init(self, node_id, x, y, radius, angle, width, zone_id, name):
    if name is None:
        raise NameIsNotDefinedException()
    if node_id is None:
        raise NodeIdIsNotValidException()
    if zone_id is None:
        raise ZoneIdIsNotValidException()
    if radius < 0:
        raise NodeRadiusIsNotValidException()
    if not 0 <= angle <= 360:
        raise NodeAngleIsNotValidException()
    if width < 0:
        raise NodeWidthIsNotValidException()
    self.id = node_id
    self.name = name
    self.zone_id = zone_id
    self.x = x
    self.y = y
    self.radius = radius
    self.angle = angle
    self.width = width


def spec_cbd_init(self, node_id, x, y, radius, angle, width, zone_id, name):
    if zone_id != 0:
        raise ZoneIdIsNotValidException()
    spec_node_init(self, node_id, x, y, radius, angle, width, zone_id, name)


NODE_ARGS = [("node_id", IDT), ("x", NUM), ("y", NUM), ("radius", NUM), ("angle", NUM), ("width", NUM), ("zone_id", IDT),
             ("name", ("alt", None, "U"))]
for _c in ("Node", "Periphery", "Subcenter"):
    contract(GR + _c + ".__init__", "spec_node_init", ["C03"], frame=True, args=[("self", ("new", _c))] + NODE_ARGS)
contract(GR + "CBD.__init__", "spec_cbd_init", ["C03"], args=[("self", ("new", "CBD"))] + NODE_ARGS)


def spec_zone_init(self, zone_id, node_periphery, node_subcenter):
    if zone_id is None or zone_id <= 0:
        raise ZoneIdIsNotValidException()
    if not isinstance(node_periphery, Periphery):
        raise PeripheryNodeTypeIsNotValidException()
    if not isinstance(node_subcenter, Subcenter):
        raise SubcenterNodeTypeIsNotValidException()
    if node_periphery.zone_id != zone_id or node_subcenter.zone_id != zone_id:
        raise ZoneIdIsNotValidException()
    self.id = zone_id
    self.periphery = node_periphery
    self.subcenter = node_subcenter


contract(GR + "Zone.__init__", "spec_zone_init", "C03",
         args=[("self", ("new", "Zone")), ("zone_id", IDT), ("node_periphery", ("alt", None, "Int", "Node")),
               ("node_subcenter", ("alt", None, "Int", "Node"))])


def spec_edge_init(self, edge_id, node1, node2):
    if edge_id is None:
        raise EdgeIdIsNotValidException()
    bad1 = isinstance(node1, Periphery) and (isinstance(node2, Periphery) or isinstance(node2, CBD))
    bad2 = isinstance(node1, CBD) and isinstance(node2, Periphery)
    if bad1 or bad2:
        raise EdgeIsNotAvailableException()
    self.id = edge_id
    self.node1 = node1
    self.node2 = node2


contract(GR + "Edge.__init__", "spec_edge_init", "C03",
         args=[("self", ("new", "Edge")), ("edge_id", IDT), ("node1", "Node"), ("node2", "Node")])


def spec_parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    """the documented error of the first offending parameter, in the documented order"""
    if n < 0 or not isinstance(n, int):
        raise NIsNotValidNumberException()
    if l < 0:
        raise LIsNotValidNumberException()
    if g < 0:
        raise GIsNotValidNumberException()
    if p < 0:
        raise PIsNotValidNumberException()
    if etha is None and etha_zone is not None:
        raise EthaValueRequiredException()
    if etha is not None and etha_zone is None:
        raise EthaZoneValueRequiredException()
    if etha is not None:
        if not 0 <= etha <= 1:
            raise EthaValueIsNotValidException()
        if not isinstance(etha_zone, int) or not 1 <= etha_zone <= n:
            raise EthaZoneValueIsNotValidException()
    if angles is not None:
        if len(angles) != n:
            raise AngleListLengthIsNotValidException()
        if any(not 0 <= x <= 360 for x in angles):
            raise AngleValueIsNotValidException()
    if Gi is not None:
        if len(Gi) != n:
            raise GiListLengthIsNotValidException()
        if any(x < 0 for x in Gi):
            raise GiValueIsNotValidException()
    if Hi is not None:
        if len(Hi) != n:
            raise HiListLengthIsNotValidException()
        if any(x < 0 for x in Hi):
            raise HiValueIsNotValidException()
    return True


PARAMS = [("n", NUM), ("l", NUM), ("g", NUM), ("p", NUM), ("etha", OPT), ("etha_zone", OPT), ("angles", ("opt", ("list", "Real"))),
          ("Gi", ("opt", ("list", "Real"))), ("Hi", ("opt", ("list", "Real")))]
contract(GR + "Graph.parameters_validator", "spec_parameters_validator", "C03", args=PARAMS)


# ---------------------------------------------------------------- C01: nodes, zones and links of a city
def spec_edge_exist(self, id_i, id_j):
    return any(e.node1.id == id_i and e.node2.id == id_j for e in self.get_edges())


contract(GR + "Graph.edge_exist", "spec_edge_exist", ["C01"], args=[("self", "Graph"), ("id_i", "Int"), ("id_j", "Int")])


def both_ways(first, a, b):
    return [made("Edge", id=first, node1=a, node2=b), made("Edge", id=first + 1, node1=b, node2=a)]


def links(zones, cbd):
    """periphery - subcenter and subcenter - CBD of every zone, subcenter - subcenter of consecutive zones around the ring, once each way,
    numbered from 1"""
    n = len(zones)
    if n == 0:
        return []
    if n == 1:
        return both_ways(1, zones[0].periphery, zones[0].subcenter) + both_ways(3, zones[0].subcenter, cbd)
    if n == 2:
        return both_ways(1, zones[0].periphery, zones[0].subcenter) + both_ways(3, zones[0].subcenter, cbd) + \
            both_ways(5, zones[0].subcenter, zones[1].subcenter) + \
            both_ways(7, zones[1].periphery, zones[1].subcenter) + both_ways(9, zones[1].subcenter, cbd)
    out = []
    for i in range(n):
        out += both_ways(6 * i + 1, zones[i].periphery, zones[i].subcenter) + both_ways(6 * i + 3, zones[i].subcenter, cbd) + \
            both_ways(6 * i + 5, zones[i].subcenter, zones[0 if i == n - 1 else i + 1].subcenter)
    return out


def link_ids(n):
    """1, 2, ..., number of links"""
    if n == 0:
        return []
    if n == 1:
        return [1, 2, 3, 4]
    if n == 2:
        return [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
    out = []
    for i in range(n):
        out += [6 * i + 1, 6 * i + 2, 6 * i + 3, 6 * i + 4, 6 * i + 5, 6 * i + 6]
    return out


def spec_build_edges(self):
    out = links(self._Graph__zones, self._Graph__nodes[0]) if self._Graph__nodes else []
    self._Graph__edges = out
    self._Graph__edges_id = link_ids(len(self._Graph__zones)) if self._Graph__nodes else []


def has_cbd(self):
    return len(self._Graph__nodes) > 0 and isinstance(self._Graph__nodes[0], CBD)


GRAPH = ("self", ("obj", "Graph"))
contract(GR + "Graph.__build_edges", "spec_build_edges", ["C01"], args=[GRAPH], requires="has_cbd")


def spec_add_nodes(self, node_periphery, node_subcenter):
    p, s = node_periphery.id, node_subcenter.id
    if p in self._Graph__nodes_id or s in self._Graph__nodes_id or p == s:
        raise NodeIdDuplicatedException()
    self._Graph__nodes += [node_periphery, node_subcenter]
    self._Graph__nodes_id += [p, s]


contract(GR + "Graph.__add_nodes", "spec_add_nodes", ["C01"],
         args=[GRAPH, ("node_periphery", "Periphery"), ("node_subcenter", "Subcenter")])


def spec_add_zone(self, node_periphery, node_subcenter, zone_id):
    if len(self._Graph__nodes) == 0:
        raise CBDDoesNotExistException()
    z = len(self._Graph__zones) + 1 if zone_id is None else zone_id
    if z <= 0 or node_periphery.zone_id != z or node_subcenter.zone_id != z:
        raise ZoneIdIsNotValidException()
    self._Graph__zones += [made("Zone", id=z, periphery=node_periphery, subcenter=node_subcenter)]
    spec_add_nodes(self, node_periphery, node_subcenter)
    spec_build_edges(self)


def first_is_cbd(self, node_periphery, node_subcenter, zone_id):
    return len(self._Graph__nodes) == 0 or isinstance(self._Graph__nodes[0], CBD)


contract(GR + "Graph.__add_zone", "spec_add_zone", ["C01"], requires="first_is_cbd",
         modular={GR + "Graph.__add_nodes": "spec_add_nodes", GR + "Graph.__build_edges": "spec_build_edges"},
         args=[GRAPH, ("node_periphery", "Periphery"), ("node_subcenter", "Subcenter"), ("zone_id", ("opt", "Int"))])


def spec_get_xy(radius, angle):
    return radius * math.cos(math.radians(angle)), radius * math.sin(math.radians(angle))


contract(GR + "Graph.get_xy", "spec_get_xy", ["C02"], args=[("radius", "Real"), ("angle", "Real")])


def symmetric_city(n, l, g, p):
    """zone z of 1..n in the direction 360 (z - 1) / n: periphery at l + g l, subcenter at l"""
    nodes = [made("CBD", id=0, x=0, y=0, radius=0, angle=0, width=p, zone_id=0, name="CBD")]
    zones = []
    for z in range(n):
        a = 360 / n * z
        px, py = spec_get_xy(l + g * l, a)
        sx, sy = spec_get_xy(l, a)
        per = made("Periphery", id=2 * z + 1, x=px, y=py, radius=l + g * l, angle=a, width=p, zone_id=z + 1, name="P_{}".format(z + 1))
        sub = made("Subcenter", id=2 * z + 2, x=sx, y=sy, radius=l, angle=a, width=p, zone_id=z + 1, name="SC_{}".format(z + 1))
        nodes.append(per)
        nodes.append(sub)
        zones.append(made("Zone", id=z + 1, periphery=per, subcenter=sub))
    return nodes, zones


def spec_build_symmetric(n, l, g, p, etha, etha_zone, angles, Gi, Hi):
    spec_parameters_validator(n, l, g, p, etha, etha_zone, angles, Gi, Hi)
    nodes, zones = symmetric_city(n, l, g, p)
    es = links(zones, nodes[0])
    return made("Graph", _Graph__nodes_id=[x.id for x in nodes], _Graph__edges_id=link_ids(n), _Graph__cbd_exist=True,
                _Graph__zones=zones, _Graph__nodes=nodes, _Graph__edges=es, _Graph__n=n, _Graph__l=l, _Graph__g=g, _Graph__p=p,
                _Graph__etha=etha, _Graph__etha_zone=etha_zone, _Graph__angles=angles, _Graph__Gi=Gi, _Graph__Hi=Hi)


contract(GR + "Graph.build_from_parameters", "spec_build_symmetric", ["C01", "C02"], name="build_from_parameters (symmetric)",
         modular={GR + "Graph.__add_zone": "spec_add_zone"},
         args=[("n", "Int"), ("l", "Real"), ("g", "Real"), ("p", "Real"), ("etha", None), ("etha_zone", None), ("angles", None),
               ("Gi", None), ("Hi", None)])


# ---------------------------------------------------------------- C02: asymmetric cities
def in_order(self):
    """the nodes are the CBD and the periphery and subcenter of each zone, all different"""
    zs, ns = self._Graph__zones, self._Graph__nodes
    n = len(zs)
    return len(ns) == 2 * n + 1 and isinstance(ns[0], CBD) and all(not isinstance(ns[i], CBD) for i in range(1, len(ns))) and \
        all(ns[2 * i + 1] == zs[i].periphery and ns[2 * i + 2] == zs[i].subcenter for i in range(n)) and \
        all(ns[i] != ns[j] for i in range(len(ns)) for j in range(i))


def put(node, radius, angle):
    node.x, node.y = spec_get_xy(radius, angle)


def spec_angles_asymmetry(self, angles):
    zs = self._Graph__zones
    for i in range(len(zs)):
        put(zs[i].periphery, zs[i].periphery.radius, angles[i])
        put(zs[i].subcenter, zs[i].subcenter.radius, angles[i])
        zs[i].periphery.angle = angles[i]
        zs[i].subcenter.angle = angles[i]
    spec_build_edges(self)


def angles_fit(self, angles):
    return in_order(self) and len(angles) == len(self._Graph__zones)


contract(GR + "Graph.__angles_asymmetry", "spec_angles_asymmetry", ["C02"], requires="angles_fit",
         modular={GR + "Graph.__build_edges": "spec_build_edges", GR + "Graph.get_xy": "spec_get_xy"},
         args=[GRAPH, ("angles", ("list", "Real"))])


def spec_gi_asymmetry(self, Gi):
    zs = self._Graph__zones
    for i in range(len(zs)):
        s = zs[i].subcenter
        r = Gi[i] * s.radius
        put(s, r, s.angle)
        s.radius = r
    spec_build_edges(self)


def gi_fit(self, Gi):
    return in_order(self) and len(Gi) == len(self._Graph__zones)


contract(GR + "Graph.__Gi_asymmetry", "spec_gi_asymmetry", ["C02"], requires="gi_fit",
         modular={GR + "Graph.__build_edges": "spec_build_edges", GR + "Graph.get_xy": "spec_get_xy"},
         args=[GRAPH, ("Gi", ("list", "Real"))])


def spec_hi_asymmetry(self, Hi):
    zs = self._Graph__zones
    for i in range(len(zs)):
        p = zs[i].periphery
        r = Hi[i] * p.radius
        put(p, r, p.angle)
        p.radius = r
    spec_build_edges(self)


def hi_fit(self, Hi):
    return in_order(self) and len(Hi) == len(self._Graph__zones)


contract(GR + "Graph.__Hi_asymmetry", "spec_hi_asymmetry", ["C02"], requires="hi_fit",
         modular={GR + "Graph.__build_edges": "spec_build_edges", GR + "Graph.get_xy": "spec_get_xy"},
         args=[GRAPH, ("Hi", ("list", "Real"))])


def spec_etha_asymmetry(self, etha, etha_zone):
    cbd, s = self._Graph__nodes[0], self._Graph__zones[etha_zone - 1].subcenter
    put(cbd, etha * s.radius, s.angle)
    cbd.radius = etha * s.radius
    cbd.angle = s.angle
    spec_build_edges(self)


def etha_fit(self, etha, etha_zone):
    return in_order(self) and 1 <= etha_zone <= len(self._Graph__zones)


contract(GR + "Graph.__etha_asymmetry", "spec_etha_asymmetry", ["C02"], requires="etha_fit",
         modular={GR + "Graph.__build_edges": "spec_build_edges", GR + "Graph.get_xy": "spec_get_xy"},
         args=[GRAPH, ("etha", "Real"), ("etha_zone", "Int")])


def spec_edges_distance(self):
    out = defaultdict(lambda: defaultdict(float))
    for e in self.get_edges():
        a, b = e.node1, e.node2
        out[a.id][b.id] = ((a.x - b.x) ** 2 + (a.y - b.y) ** 2) ** 0.5
    return out


contract(GR + "Graph.get_edges_distance", "spec_edges_distance", ["C02"], args=[("self", "Graph")])
