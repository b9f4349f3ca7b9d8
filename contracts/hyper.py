"""Results of the route choice, per pair (C16). Which networks are accepted (network_validator) stays bounded."""
HY = "sidermit.optimization.preoptimization.hyper_path.Hyperpath."
SCHEMA["ExtendedGraph"] = {"_ExtendedGraph__extended_graph_nodes": ("map", ["CityNode", "StopNode"], ("list", "RouteNode"), None),
                           "_ExtendedGraph__extended_graph_edges": ("list", "ExtendedEdge")}
SCHEMA["Hyperpath"] = {"extended_graph_obj": "ExtendedGraph", "passenger_obj": "Passenger"}
HYP = ("self", ("obj", "Hyperpath"))
OD = ("map", ["Int", "Int"], "Real", 0)


def city_node_of(nodes, i):
    found = [c for c in nodes if c.graph_node.id == i]
    return found[-1] if found else None


def abs_valid(self, OD_matrix):
    return uf("valid", 0) > 0


def abs_paths(self, origin, destination):
    return (opaque(("map", ("StopNode",), ("list", "U"), None), "paths", origin, destination),
            opaque(("map", ("U",), "Real", 0), "labels", origin, destination),
            opaque(("map", ("U",), ("list", "ExtendedEdge"), None), "successors", origin, destination),
            opaque(("map", ("U",), "Real", 0), "frequencies", origin, destination))


def the_trips(self, OD_matrix):
    """for exactly the pairs with trips: the trips and the paths found for the pair"""
    if not abs_valid(self, OD_matrix):
        raise TransportNetworkIsNotValidException()
    nodes = self.extended_graph_obj._ExtendedGraph__extended_graph_nodes
    paths = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    trips = defaultdict(lambda: defaultdict(list))
    for o in OD_matrix:
        for d in OD_matrix[o]:
            if OD_matrix[o][d] != 0:
                origin, destination = city_node_of(nodes, o), city_node_of(nodes, d)
                p = abs_paths(self, origin, destination)[0]
                for s in p:
                    for x in p[s]:
                        paths[origin][destination][s].append(x)
                trips[origin][destination] = OD_matrix[o][d]
    return paths, trips


def client_trips(self, OD_matrix):
    paths, labels, links, freqs, trips = self.get_all_hyperpaths(OD_matrix)
    return paths, trips


AGREED = {HY + "network_validator": "abs_valid", HY + "get_hyperpath_OD": "abs_paths"}
contract("client_trips", "the_trips", ["C16"], lemma=True, args=[HYP, ("OD_matrix", OD)], frame="values", modular=AGREED)


def the_labels(self, OD_matrix):
    """for exactly the pairs with trips: the labels found for the pair, of every node"""
    if not abs_valid(self, OD_matrix):
        raise TransportNetworkIsNotValidException()
    nodes = self.extended_graph_obj._ExtendedGraph__extended_graph_nodes
    labels = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for o in OD_matrix:
        for d in OD_matrix[o]:
            if OD_matrix[o][d] != 0:
                origin, destination = city_node_of(nodes, o), city_node_of(nodes, d)
                label = abs_paths(self, origin, destination)[1]
                for c in nodes:
                    labels[origin][destination][c] = label[c]
                    for s in nodes[c]:
                        labels[origin][destination][s] = label[s]
                        for r in nodes[c][s]:
                            labels[origin][destination][r] = label[r]
    return labels


def client_labels(self, OD_matrix):
    return self.get_all_hyperpaths(OD_matrix)[1]


contract("client_labels", "the_labels", ["C16"], lemma=True, args=[HYP, ("OD_matrix", OD)], frame="values", modular=AGREED)


def the_frequencies(self, OD_matrix):
    """for exactly the pairs with trips: the frequencies found for the pair, of every node"""
    if not abs_valid(self, OD_matrix):
        raise TransportNetworkIsNotValidException()
    nodes = self.extended_graph_obj._ExtendedGraph__extended_graph_nodes
    freqs = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for o in OD_matrix:
        for d in OD_matrix[o]:
            if OD_matrix[o][d] != 0:
                origin, destination = city_node_of(nodes, o), city_node_of(nodes, d)
                freq = abs_paths(self, origin, destination)[3]
                for c in nodes:
                    freqs[origin][destination][c] = freq[c]
                    for s in nodes[c]:
                        freqs[origin][destination][s] = freq[s]
                        for r in nodes[c][s]:
                            freqs[origin][destination][r] = freq[r]
    return freqs


def client_frequencies(self, OD_matrix):
    return self.get_all_hyperpaths(OD_matrix)[3]


contract("client_frequencies", "the_frequencies", ["C16"], lemma=True, args=[HYP, ("OD_matrix", OD)], frame="values", modular=AGREED)


def the_links(self, OD_matrix):
    """for exactly the pairs with trips: the chosen links of every node, in order"""
    if not abs_valid(self, OD_matrix):
        raise TransportNetworkIsNotValidException()
    nodes = self.extended_graph_obj._ExtendedGraph__extended_graph_nodes
    links = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    for o in OD_matrix:
        for d in OD_matrix[o]:
            if OD_matrix[o][d] != 0:
                origin, destination = city_node_of(nodes, o), city_node_of(nodes, d)
                link = abs_paths(self, origin, destination)[2]
                for c in nodes:
                    for e in link[c]:
                        links[origin][destination][c].append(e)
                    for s in nodes[c]:
                        for e in link[s]:
                            links[origin][destination][s].append(e)
                        for r in nodes[c][s]:
                            for e in link[r]:
                                links[origin][destination][r].append(e)
    return links


def client_links(self, OD_matrix):
    return self.get_all_hyperpaths(OD_matrix)[2]


contract("client_links", "the_links", ["C16"], lemma=True, args=[HYP, ("OD_matrix", OD)], frame="values", modular=AGREED)
