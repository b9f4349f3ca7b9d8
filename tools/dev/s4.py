exec(open('/tmp/plant/s2.py').read().split('SPECS=[')[0])
SPECS=[
dict(id='b07', prop='C07', edits=[(D,'''                        demand_obj.change_vij(int(origin_id), int(destination_id), float(vij))''','''                        demand_obj.change_vij(int(origin_id), int(destination_id), round(float(vij), 6))''')],
 needs='a cell value with more than six decimals, exported and read back', breaks='reading the file rounds the values',
 demo=COMMON+'''
import tempfile, os
g = Graph.build_from_parameters(n=2)
d = Demand(g)
d.change_vij(1, 2, 1 / 3)
with tempfile.TemporaryDirectory() as t:
    d.matrix_to_file(os.path.join(t, 'm.csv'))
    e = Demand.build_from_file(g, os.path.join(t, 'm.csv'))
assert e.get_matrix()[1][2] == d.get_matrix()[1][2] and e.get_total_trips() == d.get_total_trips()
'''),
dict(id='b14', prop='C14', edits=[(P+'hyper_path.py','''if edge.f < float('inf') and t_i''','''if 1 <= edge.f < float('inf') and t_i''')], needs='a stop whose best line has less than one vehicle per hour and line', breaks='the line is not considered, and the label is infinite or not optimal',
demo=FLOW+'''
g = Graph.build_from_parameters(n=1, l=10, g=1)
net = TransportNetwork(g)
m = mode('m', tat=6, theta=0.5)
for r in net.get_feeder_routes(m):
    net.add_route(r)
d = Demand(g)
d.change_vij(1, 2, 10)
f = defaultdict(float); f['F_m_1'] = 0.5
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d, f)
o = [c for c in hp][0]
e = [c for c in hp[o]][0]
s = list(hp[o][e])[0]
assert abs(lab[o][e][s] - (10 / 20 + 2 * 0.1 * 8.22 / 2.74 + 0.5 * 2 / 0.5)) < 1e-6, lab[o][e][s]
'''),
dict(id='b15', prop='C15', edits=[(P+'hyper_path.py','''            while True:
                # stop condition''','''            for _ in range(2 * len(nodes)):
                # stop condition''')], needs='a strategy longer than twice the number of city nodes with stops', breaks='paths end before the destination',
demo=FLOW+'''
g = Graph.build_from_parameters(n=1)
net = TransportNetwork(g)
a, b = mode('a', 1, v=20, tat=1), mode('b', 2, v=30)
for r in net.get_feeder_routes(a) + net.get_radial_routes(b, short=True):
    net.add_route(r)
d = Demand(g)
d.change_vij(1, 0, 10)
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d)
for o in hp:
    for e in hp[o]:
        for s in hp[o][e]:
            for p in hp[o][e][s]:
                assert p[0] is o and p[1] is s and p[-1] is e, len(p)
'''),
]
