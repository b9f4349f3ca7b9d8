COMMON = '''
import sys
from collections import defaultdict
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import *
from sidermit.optimization.preoptimization import *
from sidermit.optimization import *
from sidermit.exceptions import *
'''
FLOW = COMMON + '''
def mode(name, d=1, bya=0, v=20, t=3.6, tat=0, theta=0.5, fmax=100, kmax=100, fini=10, co=10, c1=1, c2=5):
    return TransportMode(name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini)

def run(graph, net, demand, f=None):
    pax = Passenger.get_default_passenger()
    ext = ExtendedGraph(graph, net.get_routes(), pax.pt, f)
    hyp = Hyperpath(ext, pax)
    hp, lab, suc, fr, vij = hyp.get_all_hyperpaths(demand.get_matrix())
    asg = Assignment.get_assignment(hp, lab, graph.get_nodes()[0].width, pax.va, pax.pa, pax.pv)
    return ext, hp, lab, suc, fr, vij, asg, pax

def table():
    return defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
'''
G='city/graph.py'; D='city/demand.py'; N='publictransportsystem/network.py'; M='publictransportsystem/mode.py'
P='optimization/preoptimization/'; O='optimization/'
SPECS=[
dict(id='b02', prop='C02', edits=[(G,'''                self.__nodes[node].radius = r_cbd
                self.__nodes[node].angle = ang
''','''                self.__nodes[node].radius = r_cbd
''')], needs='an eccentric CBD towards a zone that is not at 0 degrees', breaks='the recorded angle of the CBD does not agree with its coordinates',
demo=COMMON+'''
g = Graph.build_from_parameters(n=4, etha=0.5, etha_zone=2)
assert abs(g.get_nodes()[0].angle - 90) < 1e-9
'''),
dict(id='b04', prop='C04', edits=[(G,'''                width = float(df_file.iloc[i]["width"])
''','''                width = width or float(df_file.iloc[i]["width"])
''')], needs='a city file whose nodes have different widths', breaks='every node gets the width of the first one',
demo=COMMON+'''
t = "*vertices 3\\n0 CBD 0 0 CBD 0 2\\n1 P1 20 0 P 1 3\\n2 SC1 10 0 SC 1 4\\n"
g = Graph.build_from_content(t)
assert [n.width for n in g.get_nodes()] == [2, 3, 4], [n.width for n in g.get_nodes()]
'''),
dict(id='b07', prop='C07', edits=[(D,'df_matrix.to_csv(file_path, sep=",", index=False)','df_matrix.to_csv(file_path, sep=",", index=False, float_format="%.6f")')],
 needs='a cell value with more than six decimals, exported and read back', breaks='writing the matrix and reading it back rounds the values',
 demo=COMMON+'''
import tempfile, os
g = Graph.build_from_parameters(n=2)
d = Demand(g)
d.change_vij(1, 2, 1 / 3)
with tempfile.TemporaryDirectory() as t:
    d.matrix_to_file(os.path.join(t, 'm.csv'))
    e = Demand.build_from_file(g, os.path.join(t, 'm.csv'))
assert e.get_matrix()[1][2] == d.get_matrix()[1][2] and e.get_total_trips() == d.get_total_trips()
'''),
dict(id='b08', prop='C08', edits=[(M,'''        if new_value is None or comp_function(new_value, 0):
            raise exception_instance
        self.__setattr__(property_name, new_value)
''','''        self.__setattr__(property_name, new_value)
        if new_value is None or comp_function(new_value, 0):
            raise exception_instance
''')], needs='an out-of-range assignment that is refused, followed by reading the attribute', breaks='the refused value is kept',
demo=COMMON+'''
b = TransportMode.get_default_modes()[0]
for a in ('v', 'co', 'kmax', 'tat'):
    old = getattr(b, a)
    try:
        setattr(b, a, -1)
    except Exception:
        pass
    assert getattr(b, a) == old, a
'''),
dict(id='b11', prop='C11', edits=[(N,'''            if route_id not in self.__routes_id:
                self.add_transport_mode(route_obj.mode)
                self.__routes''','''            self.add_transport_mode(route_obj.mode)
            if route_id not in self.__routes_id:
                self.__routes''')], needs='a refused route: duplicate id, with a mode that is not in the network yet', breaks='the refused operation registers the mode',
demo=COMMON+'''
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
bus, metro = TransportMode.get_default_modes()
net.add_route(Route('r', bus, '1,2', '2,1', '1,2', '2,1'))
try:
    net.add_route(Route('r', metro, '2,0', '0,2', '2,0', '0,2'))
except Exception:
    pass
assert net.get_modes() == [bus]
'''),
dict(id='b12', prop='C12', edits=[(N,'zone4 = zones[list_zones_id[len(list_zones_id) - 1 - i] - 1]','zone4 = zones[list_zones_id[i] - 1]',1)],
 needs='short express tangential routes with a jump of at least 3', breaks='the return direction visits the middle subcenters in the wrong order',
 demo=COMMON+'''
net = TransportNetwork(Graph.build_from_parameters(n=8))
for short in (False, True):
    for express in (False, True):
        for jump in (1, 2, 3, 4):
            for r in net.get_tangencial_routes(TransportMode.get_default_modes()[0], jump, short, express):
                assert r.nodes_sequence_r == r.nodes_sequence_i[::-1], (r.id, r.nodes_sequence_i, r.nodes_sequence_r)
'''),
dict(id='b13', prop='C13', edits=[(P+'extended_graph.py','''                    route = route_node.route
                    direction = route_node.direction

                    if direction == "I":
                        node_sequence = route.nodes_sequence_i
                    else:
                        node_sequence = route.nodes_sequence_r
                    # if not be last''','''                    route = route_node.route
                    direction = route_node.direction
                    if frequency_routes[route.id] == 0:
                        continue

                    if direction == "I":
                        node_sequence = route.nodes_sequence_i
                    else:
                        node_sequence = route.nodes_sequence_r
                    # if not be last''')], needs='a route whose frequency is zero', breaks='its stops have no boarding links',
demo=FLOW+'''
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
m = mode('m')
for r in net.get_radial_routes(m):
    net.add_route(r)
f = defaultdict(float)
f['R_m_1'] = 5
ext = ExtendedGraph(g, net.get_routes(), 16, f)
b = [e for e in ext.get_extended_graph_edges() if e.type == ExtendedEdgesType.BOARDING]
assert len(b) == 8, len(b)
'''),
dict(id='b16', prop='C16', edits=[(P+'hyper_path.py','if vij != 0:','if vij >= 1:',0)], needs='a pair with less than one trip that no route connects', breaks='a network that cannot carry the pair is accepted',
demo=FLOW+'''
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
net.add_route(net.get_feeder_routes(mode('m'))[0])
d = Demand(g)
d.change_vij(1, 2, 5)
d.change_vij(3, 4, 0.5)
try:
    run(g, net, d)
except TransportNetworkException:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='b17', prop='C17', edits=[(P+'assignment.py','if stop2.mode.d % 2 == 1:','if stop2.mode.d == 1:')], needs='a mode with an odd number of lines (3 or more) whose stop is better than the central stop', breaks='the other stop does not get everything',
demo=FLOW+'''
class N: pass
o, d = N(), N()
a, b = N(), N()
a.mode, b.mode = mode('a', 1), mode('b', 3)
hp = {o: {d: {a: [1], b: [1]}}}
lab = {o: {d: {a: 0.51, b: 0.5}}}
r = Assignment.get_assignment(hp, lab, 2, 4, 8, 4)
assert r[o][d][b] == 100 and r[o][d][a] == 0, dict(r[o][d])
'''),
dict(id='b18', prop='C18', edits=[(P+'assignment.py','if vod_s == 0:','if vod_s < 0.5:')], needs='a pair, or a stop\'s share of it, of less than half a passenger', breaks='those passengers never board',
demo=FLOW+'''
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
for r in net.get_radial_routes(mode('m')):
    net.add_route(r)
d = Demand(g)
d.change_vij(1, 0, 0.25)
d.change_vij(3, 0, 3)
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d)
f = defaultdict(float)
for r in net.get_routes():
    f[r.id] = 10
z, v, l = Assignment.get_alighting_and_boarding(vij, hp, suc, asg, f)
tot = sum(z[r][x][s] * f[r] for r in z for x in z[r] for s in z[r][x])
assert abs(tot - 3.25) < 1e-9, tot
'''),
dict(id='b19', prop='C19', edits=[(P+'assignment.py','''            max_load = 0
            for direction in loaded_section_route[route_id]:
''','''            for direction in loaded_section_route[route_id]:
                max_load = 0
''')], needs='a route whose most loaded section is not in the direction listed last', breaks='the vehicle size is that of the other direction',
demo=FLOW+'''
t = table()
t['r']['I']['a'] = 5; t['r']['I']['b'] = 2; t['r']['R']['a'] = 3
assert Assignment.most_loaded_section(t)['r'] == 5
'''),
dict(id='b20', prop='C20', edits=[(O+'constrains.py','''                            for i in range(len(node_sequence_r) - 1):
                                j = i + 1
                                if str(nodei)''','''                            if (nodei, nodej) in zip(node_sequence_i, node_sequence_i[1:]):
                                continue

                            for i in range(len(node_sequence_r) - 1):
                                j = i + 1
                                if str(nodei)''')], needs='a custom route whose two directions traverse the same directed link', breaks='the second traversal is not counted',
demo=FLOW+'''
g = Graph.build_from_parameters(n=3)
m = mode('m')
r = Route('x', m, '2,4,6,0', '0,4,6,2', '2,0', '0,2')
f = defaultdict(float); f['x'] = 7
c = Constrains.fmax_constrains(g, [r], [m], f)
e = [(e.node1.id, e.node2.id) for e in g.get_edges()]
assert c[e.index((4, 6))] == 14 - 100, c[e.index((4, 6))]
'''),
dict(id='b21', prop='C21', edits=[(O+'operators_cost.py','if stop not in processed_stop_r:','if stop not in processed_stop_i:')], needs='simultaneous boarding, and a stop where passengers only alight in one direction and board in the other', breaks='the boarding and alighting time of that stop is left out, or counted twice',
demo=FLOW+'''
m = mode('m', bya=1, t=3600)
r = Route('x', m, '2,0', '0,2', '2,0', '0,2')
z, v = table(), table()
z['x']['I']['a'] = 4; v['x']['I']['b'] = 4; z['x']['R']['b'] = 3; v['x']['R']['a'] = 3
tc = OperatorsCost.get_cycle_time(z, v, [r], {'x': 0})
assert tc['x'] == 14, tc['x']
'''),
dict(id='b22', prop='C22', edits=[(O+'infrastructure_cost.py','''        for mode in list_modes:
            edge_list = []
''','''        edge_list = []
        for mode in list_modes:
''')], needs='two modes whose routes share a street', breaks='the second mode does not pay for the shared street',
demo=FLOW+'''
g = Graph.build_from_parameters(n=1, l=10, g=1)
net = TransportNetwork(g)
a, b = mode('a', 1), mode('b', 2)
f = defaultdict(float)
for m in (a, b):
    for r in net.get_feeder_routes(m):
        net.add_route(r); f[r.id] = 3
d = InfrastructureCost.get_mode_network_distance(g, net, f)
assert abs(d[a] - 10) < 1e-9 and abs(d[b] - 20) < 1e-9, (d[a], d[b])
'''),
dict(id='b23', prop='C23', edits=[(O+'users_cost.py','''                                        pasajeros = z[nodei.route.id]["R"][nodej.stop_node] + v[nodei.route.id]["R"][
                                            nodej.stop_node]''','''                                        pasajeros = z[nodei.route.id]["R"][nodej.stop_node] + v[nodei.route.id]["I"][
                                            nodej.stop_node]''')], needs='sequential boarding and passengers riding through an intermediate stop in the return direction', breaks='the wait at the stop uses the alighting of the other direction',
demo=FLOW+'''
g = Graph.build_from_parameters(n=1, l=10, g=1)
net = TransportNetwork(g)
m = mode('m', bya=0, t=3600, tat=0, theta=0)
for r in net.get_radial_routes(m):
    net.add_route(r)
d = Demand(g)
d.change_vij(0, 1, 6)
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d)
z, v = table(), table()
st = [s for c in ext.get_extended_graph_nodes() for s in ext.get_extended_graph_nodes()[c] if c.graph_node.id == 2][0]
v['R_m_1']['I'][st] = 5
v['R_m_1']['R'][st] = 2
f = defaultdict(float); f['R_m_1'] = 10
ta, te, tv, t = UsersCost.resources_consumer(hp, vij, asg, suc, ext, 4, f, z, v)
assert abs(tv - 6 * (20 / 20 + 2)) < 1e-6, tv
'''),
dict(id='b24', prop='C24', edits=[(O+'optimizer.py','''        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,
                                                                           self.assignment, f)
        k = self.get_k(loaded_section_route)

        CO =''','''        key = tuple(round(fr, 2) for fr in fopt)
        if getattr(self, "_last", (None,))[0] != key:
            self._last = (key, Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,
                                                                     self.assignment, f))
        z, v, loaded_section_route = self._last[1]
        k = self.get_k(loaded_section_route)

        CO =''')], needs='two evaluations of the objective, one after the other, at vectors closer than 0.01 to each other', breaks='the second evaluation uses the loads of the first',
demo=FLOW+'''
import logging
logging.disable(logging.CRITICAL)
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
for r in net.get_radial_routes(mode('m', fini=0.2)):
    net.add_route(r)
d = Demand.build_from_parameters(g, 1000, 0.8, 1, 0)
a = Optimizer(g, d, Passenger.get_default_passenger(), net)
x, y = [0.2, 0.2], [0.2, 0.204]
r1 = a.VRC(y)
a.VRC(x)
r2 = a.VRC(y)
assert r1 == r2, (r1, r2)
'''),
dict(id='b25', prop='C25', edits=[(O+'optimizer.py','if x < 1 / 24:','if x <= 1 / 24:')], needs='an iterate with a frequency of exactly 1/24', breaks='that frequency is reported as 0',
demo=FLOW+'''
import logging
logging.disable(logging.CRITICAL)
import sidermit.optimization.optimizer as om
class Res: pass
def internal(self):
    r = Res()
    r.x, r.success, r.status, r.message, r.constr_violation, r.fun = [1 / 24, 3.0], True, 1, "", 0, 1.0
    return r
Optimizer.internal_optimization = internal
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
for r in net.get_radial_routes(mode('m')):
    net.add_route(r)
d = Demand.build_from_parameters(g, 100, 0.8, 1, 0)
res = Optimizer.external_optimization(g, d, Passenger.get_default_passenger(), net)
assert list(res[0]) == [1 / 24, 3.0], res[0]
'''),
dict(id='b26', prop='C26', edits=[(O+'optimizer.py','''            if f[route.id] > 0:
                B[route.mode]''','''            if f[route.id] >= 0:
                B[route.mode]''')], needs='an optimum in which some route has frequency 0', breaks='the lines and the mean vehicle size count routes that do not run',
demo=FLOW+'''
import logging
logging.disable(logging.CRITICAL)
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
m = mode('m', d=2)
for r in net.get_radial_routes(m) + net.get_diametral_routes(m, jump=1):
    net.add_route(r)
d = Demand.build_from_parameters(g, 100, 0.8, 0.5, 0.2)
o = Optimizer(g, d, Passenger.get_default_passenger(), net)
o.better_res = ([10, 10, 0], True, 1, '', 0, 1)
r = o.get_overall_results()
assert r['lines_mode'][m] == 4, r['lines_mode'][m]
'''),
dict(id='b27', prop='C27', edits=[(O+'optimizer.py','''                            sub_table_r.append((node_i, node_j, abs(charge_ij)))
                            if charge_min > charge_ij:
                                charge_min = charge_ij
''','''                            sub_table_r.append((node_i, node_j, abs(charge_ij)))
''')], needs='a route whose least loaded section is in the return direction', breaks='the reported minimum section load ignores the return direction',
demo=FLOW+'''
import logging
logging.disable(logging.CRITICAL)
g = Graph.build_from_parameters(n=1)
net = TransportNetwork(g)
m = mode('m')
for r in net.get_radial_routes(m):
    net.add_route(r)
d = Demand(g)
d.change_vij(1, 0, 10); d.change_vij(0, 2, 4)
o = Optimizer(g, d, Passenger.get_default_passenger(), net)
o.better_res = ([10], True, 1, '', 0, 1)
r = o.get_network_results()[0]
loads = [x[2] for x in r[8] + r[9]]
assert abs(r[7] - min(loads)) < 1e-9, (r[7], loads)
'''),
dict(id='b14', prop='C14', edits=[(P+'hyper_path.py','''                    theta = i.mode.theta
''','''                    theta = edge.nodej.route.mode.theta * i.mode.d / edge.nodej.route.mode.d if edge.f else 1
'''),], needs='x', breaks='x', demo='import sys'),
]
