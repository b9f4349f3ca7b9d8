"""Demand (C05, C06, C07)."""
DM = "sidermit.city.demand.Demand."
SCHEMA["Demand"] = {"_Demand__graph_obj": "Graph", "_Demand__n": "Int", "_Demand__matrix": ("map", ["Int", "Int"], "Real", 0),
                    "total_trips": "Real"}
DEM = ("self", ("obj", "Demand"))


def spec_demand(self, graph_obj):
    """a zero cell for every ordered pair of nodes"""
    self._Demand__graph_obj = graph_obj
    self._Demand__n = graph_obj.get_n()
    m = defaultdict(lambda: defaultdict(float))
    ids = [n.id for n in graph_obj.get_nodes()]
    for o in ids:
        for d in ids:
            m[o][d] = 0
    self._Demand__matrix = m
    self.total_trips = 0


contract(DM + "__init__", "spec_demand", ["C05", "C06", "C07"], args=[("self", ("new", "Demand")), ("graph_obj", "Graph")])


def spec_change(self, origin_node_id, destination_node_id, vij):
    """one cell and the total, or an error and nothing"""
    m = self._Demand__matrix
    if vij < 0:
        raise TripsValueIsNotValidException()
    if not (origin_node_id in m and len([d for d in m[origin_node_id]]) > 0):
        raise OriginIdDoesNotFoundException()
    if destination_node_id not in m[origin_node_id]:
        raise DestinationIdDoesNotFoundException()
    self.total_trips += vij - m[origin_node_id][destination_node_id]
    m[origin_node_id][destination_node_id] = vij


contract(DM + "change_vij", "spec_change", ["C05", "C06", "C07"],
         args=[DEM, ("origin_node_id", "Int"), ("destination_node_id", "Int"), ("vij", "Real")])


def books(self):
    m = self._Demand__matrix
    return self.total_trips == sum(m[o][d] for o in m for d in m[o]) and all(m[o][d] >= 0 for o in m for d in m[o])


def books_before(self, origin_node_id, destination_node_id, vij):
    return books(self)


def books_after(self, origin_node_id, destination_node_id, vij, res):
    m = self._Demand__matrix
    return self.total_trips == sum(m[o][d] for o in m for d in m[o]), all(m[o][d] >= 0 for o in m for d in m[o])


contract(DM + "change_vij", None, ["C05"], name="change_vij (total and signs)", requires="books_before", ensures="books_after",
         raises=False, args=[DEM, ("origin_node_id", "Int"), ("destination_node_id", "Int"), ("vij", "Real")])


def client_new(graph):
    return Demand(graph)


def books_of_new(graph, res):
    return books(res)


def ids_once(graph):
    """node ids are unique (C01)"""
    nodes = graph._Graph__nodes
    return all(i == j or nodes[i].id != nodes[j].id for i in range(len(nodes)) for j in range(len(nodes)))


contract("client_new", None, ["C05"], lemma=True, requires="ids_once", ensures="books_of_new", args=[("graph", "Graph")])


# ---------------------------------------------------------------- C06: generated demand
NUMB = ("alt", "Int", "Real")


def spec_demand_parameters(y, a, alpha, beta):
    """accepted exactly in the documented ranges"""
    if y < 0:
        raise YOutOfRangeException()
    if not 0 <= a <= 1:
        raise AOutOfRangeException()
    if not 0 <= alpha <= 1:
        raise AlphaOutOfRangeException()
    if not 0 <= beta < 1:
        raise BetaOutOfRangeException()
    if alpha + beta > 1:
        raise AlphaBetaOutOfRangeException()
    return True


contract(DM + "parameters_validator", "spec_demand_parameters", ["C06"],
         args=[("y", NUMB), ("a", NUMB), ("alpha", NUMB), ("beta", NUMB)])


def abs_set(self, origin_node_id, destination_node_id, vij):
    """what change_vij does for cells there are (spec_change), the total left out: see change_vij (total and signs)"""
    if vij < 0:
        raise TripsValueIsNotValidException()
    self._Demand__matrix[origin_node_id][destination_node_id] = vij


def client_cell(graph, y, a, alpha, beta, i, j):
    nodes = graph.get_nodes()
    d = Demand.build_from_parameters(graph, y, a, alpha, beta)
    return d.get_matrix()[nodes[i].id][nodes[j].id]


def city_given(graph, y, a, alpha, beta, i, j):
    nodes = graph.get_nodes()
    return (graph.get_n() >= 1 and 0 <= i < len(nodes) and 0 <= j < len(nodes)
            and all(implies(p < q, nodes[p].id != nodes[q].id) for p in range(len(nodes)) for q in range(len(nodes)))
            and all(isinstance(x, CBD) or isinstance(x, Periphery) or isinstance(x, Subcenter) for x in nodes))


def spec_cell(graph, y, a, alpha, beta, i, j):
    spec_demand_parameters(y, a, alpha, beta)
    nodes = graph.get_nodes()
    n = graph.get_n()
    o = nodes[i]
    d = nodes[j]
    p = a * y / n
    s = (1 - a) * y / n
    if isinstance(o, CBD) or isinstance(d, Periphery):
        return 0
    if isinstance(o, Periphery):
        if isinstance(d, CBD):
            return alpha * p
        if o.zone_id == d.zone_id:
            return (beta if n > 1 else 1 - alpha) * p
        return (1 - alpha - beta) * p / (n - 1) if n > 1 else 0
    if isinstance(d, CBD):
        return alpha / (1 - beta) * s if n > 1 else s
    if o.zone_id == d.zone_id:
        return 0
    return (1 - alpha - beta) / (1 - beta) * s / (n - 1) if n > 1 else 0


contract("client_cell", "spec_cell", ["C06"], lemma=True, requires="city_given", modular={DM + "change_vij": "abs_set"},
         args=[("graph", "Graph"), ("y", "Real"), ("a", "Real"), ("alpha", "Real"), ("beta", "Real"), ("i", "Int"), ("j", "Int")])


def row(n, z, own, other):
    """what one node sends to the n subcenters"""
    return sum(own if w == z else other for w in range(n))


def zone_given(n, z, own, other):
    return 0 <= z < n


def row_total(n, z, own, other, res):
    return res == own + (n - 1) * other


contract("row", None, ["C06"], lemma=True, requires="zone_given", ensures="row_total",
         args=[("n", "Int"), ("z", "Int"), ("own", "Real"), ("other", "Real")])


def abs_row(n, z, own, other):
    return own + (n - 1) * other


def from_zone(n, z, y, a, alpha, beta):
    """the cells of one zone that are not zero: what its periphery and its subcenter send (cells as in spec_cell)"""
    p = a * y / n
    s = (1 - a) * y / n
    if n > 1:
        return (alpha * p + row(n, z, beta * p, (1 - alpha - beta) * p / (n - 1))
                + alpha / (1 - beta) * s + row(n, z, 0, (1 - alpha - beta) / (1 - beta) * s / (n - 1)))
    return alpha * p + row(n, z, (1 - alpha) * p, 0) + s + row(n, z, 0, 0)


def split_given(n, z, y, a, alpha, beta):
    return n >= 1 and 0 <= z < n and 0 <= beta < 1 and 0 <= alpha and alpha + beta <= 1


def zone_trips(n, z, y, a, alpha, beta, res):
    return res == y / n


contract("from_zone", None, ["C06"], lemma=True, requires="split_given", ensures="zone_trips", raises=True,
         modular={"contracts.demand.row": "abs_row"},
         args=[("n", "Int"), ("z", "Int"), ("y", "Real"), ("a", "Real"), ("alpha", "Real"), ("beta", "Real")])


# ---------------------------------------------------------------- C07: demand from a list of lists
def client_content(graph, matrix, i, j):
    nodes = graph.get_nodes()
    return Demand.build_from_content(graph, matrix).get_matrix()[nodes[i].id][nodes[j].id]


def content_given(graph, matrix, i, j):
    nodes = graph.get_nodes()
    return (0 <= i < len(nodes) and 0 <= j < len(nodes)
            and all(implies(p < q, nodes[p].id != nodes[q].id) for p in range(len(nodes)) for q in range(len(nodes))))


def spec_content(graph, matrix, i, j):
    """every cell in the order of the node list, or an error"""
    n = len(graph.get_nodes())
    if len(matrix) != n:
        raise DemandMatrixIsNotValidException()
    for row in matrix:
        if len(row) != n:
            raise DemandMatrixIsNotValidException()
        if any(v < 0 for v in row):
            raise VijIsNotValidException()
    return matrix[i][j]


contract("client_content", "spec_content", ["C07"], lemma=True, requires="content_given", modular={DM + "change_vij": "abs_set"},
         args=[("graph", "Graph"), ("matrix", ("list", ("list", "Real"))), ("i", "Int"), ("j", "Int")])
