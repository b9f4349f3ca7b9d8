COMMON = '''
import sys
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import *
'''
G='city/graph.py'; D='city/demand.py'; N='publictransportsystem/network.py'; M='publictransportsystem/mode.py'
P='optimization/preoptimization/'; O='optimization/'
SPECS=[
dict(id='b01', prop='C01', edits=[(G,'if edge.node1.id == id_i and edge.node2.id == id_j:','if edge.node1.id is id_i and edge.node2.id is id_j:')],
 needs='a city with at least 129 zones (node ids above the interpreter\'s cache of small integers) and an id computed by the caller',
 breaks='asking whether a link exists answers no for links between nodes with large ids',
 demo=COMMON+'''
g = Graph.build_from_parameters(n=140)
for z in (1, 5, 129, 140):
    a, b = int(str(2 * z - 1)), int(str(2 * z))
    assert g.edge_exist(a, b) and g.edge_exist(b, a), (a, b)
    assert not g.edge_exist(a, 0)
'''),
dict(id='b02', prop='C02', edits=[(G,'''            # add asymmetry by Gi
            if Gi is not None:
                graph_obj.__Gi_asymmetry(Gi)
            # add asymmetry by Hi
            if Hi is not None:
                graph_obj.__Hi_asymmetry(Hi)
            # add asymmetry by etha
            if etha is not None and etha_zone is not None:
                graph_obj.__etha_asymmetry(etha, etha_zone)
''','''            # add asymmetry by etha
            if etha is not None and etha_zone is not None:
                graph_obj.__etha_asymmetry(etha, etha_zone)
            # add asymmetry by Gi
            if Gi is not None:
                graph_obj.__Gi_asymmetry(Gi)
            # add asymmetry by Hi
            if Hi is not None:
                graph_obj.__Hi_asymmetry(Hi)
''')], needs='eccentricity and subcenter factors given together, with a factor other than 1 in the chosen zone',
 breaks='the CBD is placed from the subcenter distance before the factor is applied',
 demo=COMMON+'''
g = Graph.build_from_parameters(n=3, l=10, etha=0.5, etha_zone=2, Gi=[1, 1.5, 0.5])
c, sc = g.get_nodes()[0], g.get_nodes()[4]
assert abs(c.radius - 0.5 * sc.radius) < 1e-9, (c.radius, sc.radius)
assert abs(c.x - 0.5 * sc.x) < 1e-9 and abs(c.y - 0.5 * sc.y) < 1e-9
'''),
dict(id='b03', prop='C03', edits=[(G,'''                if angle < 0 or angle > 360:
                    raise AngleValue''','''                if angle < 0 or angle >= 360:
                    raise AngleValue''')], needs='an angle list containing exactly 360',
 breaks='a city with an angle of exactly 360 degrees, which is in range, is refused',
 demo=COMMON+'''
g = Graph.build_from_parameters(n=2, angles=[180, 360])
assert g.get_nodes()[3].angle == 360
'''),
dict(id='b05', prop='C05', edits=[(D,'''            if destination_node_id in self.__matrix[origin_node_id]:
                self.total_trips = self.total_trips - self.__matrix[origin_node_id][destination_node_id] + vij
                self.__matrix[origin_node_id][destination_node_id] = vij
''','''            row = self.__matrix[origin_node_id]
            self.total_trips = self.total_trips - row.get(destination_node_id, 0) + vij
            if destination_node_id in row:
                row[destination_node_id] = vij
''')], needs='a refused change: known origin, unknown destination, positive value, and the total read afterwards',
 breaks='the refused change is still added to the total number of trips',
 demo=COMMON+'''
from sidermit.exceptions import DestinationIdDoesNotFoundException
d = Demand(Graph.build_from_parameters(n=2))
d.change_vij(1, 2, 5)
try:
    d.change_vij(1, 99, 7)
except DestinationIdDoesNotFoundException:
    pass
m = d.get_matrix()
assert d.get_total_trips() == sum(m[o][e] for o in m for e in m[o]) == 5
'''),
dict(id='b06', prop='C06', edits=[(D,'y_z = y / n','y_z = y // n if isinstance(y, int) else y / n')],
 needs='an integer total that is not a multiple of the number of zones',
 breaks='the matrix no longer sums to the requested total', 
 demo=COMMON+'''
g = Graph.build_from_parameters(n=3)
d = Demand.build_from_parameters(g, 1000, 0.8, 0.3, 0.2)
m = d.get_matrix()
assert abs(sum(m[o][e] for o in m for e in m[o]) - 1000) < 1e-6
'''),
dict(id='b07', prop='C07', edits=[(D,"df_matrix.to_csv(file_path, sep=',', index=False)","df_matrix.to_csv(file_path, sep=',', index=False, float_format='%.6f')")],
 needs='a cell value with more than six decimals, exported and read back',
 breaks='writing the matrix and reading it back rounds the values',
 demo=COMMON+'''
import tempfile, os
g = Graph.build_from_parameters(n=2)
d = Demand(g)
d.change_vij(1, 2, 1 / 3)
with tempfile.TemporaryDirectory() as t:
    d.matrix_to_file(os.path.join(t, 'm.csv'))
    e = Demand.build_from_file(g, os.path.join(t, 'm.csv'))
assert e.get_matrix()[1][2] == d.get_matrix()[1][2] and e.get_total_trips() == d.get_total_trips()
'''),
dict(id='b09', prop='C09', edits=[(M,'''                if mode.d == 1:
                    return True''','''                if mode.d <= 1:
                    return True''')], needs='two modes, one with zero lines and none with exactly one',
 breaks='a pair of modes without a single-line mode is accepted',
 demo=COMMON+'''
def mk(n, d): return TransportMode(n, 0, 1, 1, 1, 20, 1, 10, 10, 0.5, 0, d, 10)
m = TransportModeManager(add_default_mode=False)
m.add_mode(mk('a', 0)); m.add_mode(mk('b', 2))
try:
    m.is_valid_to_assignment_step()
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='b10', prop='C10', edits=[(N,'if self.sequences_validator(nodes_i) and self.sequences_validator(nodes_r):','if self.sequences_validator(nodes_i) or self.sequences_validator(nodes_r):')],
 needs='a custom route whose return sequence, and only that one, visits a node twice',
 breaks='a return sequence with a loop is accepted',
 demo=COMMON+'''
b = TransportMode.get_default_modes()[0]
try:
    Route('x', b, '1,2', '2,3,2,1', '1,2', '2,1')
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='b12', prop='C12', edits=[(N,'if len(zones) % 2.0 == 0 and jump == math.floor(len(zones) / 2):','if jump == math.floor(len(zones) / 2):',1)],
 needs='tangential routes in a city with an odd number of zones and the largest admissible jump',
 breaks='only half of the zones get their tangential route',
 demo=COMMON+'''
for n, jump in ((5, 2), (7, 3), (4, 2), (4, 1), (9, 4)):
    net = TransportNetwork(Graph.build_from_parameters(n=n))
    r = net.get_tangencial_routes(TransportMode.get_default_modes()[0], jump=jump)
    assert len(r) == (n // 2 if 2 * jump == n else n), (n, jump, len(r))
'''),
]
