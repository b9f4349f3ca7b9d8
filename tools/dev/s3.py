exec(open('/tmp/plant/s2.py').read().split('SPECS=[')[0])
SPECS=[
dict(id='b07', prop='C07', edits=[(D,'''                        demand_obj.change_vij(int(origin_id), int(destination_id), float(vij))''','''                        demand_obj.change_vij(int(origin_id), int(destination_id), abs(float(vij)))''')],
 needs='a CSV file with a negative value', breaks='the file is accepted and the sign dropped',
 demo=COMMON+'''
import tempfile, os
g = Graph.build_from_parameters(n=2)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'm.csv')
    open(p, 'w').write('origin,destination,vij\\n1,2,5\\n1,0,-3\\n')
    try:
        Demand.build_from_file(g, p)
    except Exception:
        sys.exit(0)
sys.exit(1)
'''),
dict(id='b19', prop='C19', edits=[(P+'assignment.py','''                    if loaded_section_route[route_id][direction][stop_node] > max_load:
                        max_load =''','''                    if abs(loaded_section_route[route_id][direction][stop_node] - max_load) > 1e-3 * max_load and \\
                            loaded_section_route[route_id][direction][stop_node] > max_load:
                        max_load =''')], needs='two sections of the same route whose loads differ by less than one in a thousand', breaks='the vehicle size is the load of the earlier one, smaller than the largest',
demo=FLOW+'''
t = table()
t['r']['I']['a'] = 500; t['r']['I']['b'] = 500.4; t['r']['R']['a'] = 3
assert Assignment.most_loaded_section(t)['r'] == 500.4
'''),
dict(id='b21', prop='C21', edits=[(O+'operators_cost.py','if stop not in processed_stop_r:','if stop not in processed_stop_i:')], needs='simultaneous boarding, and a stop where passengers only alight in one direction and board in the other', breaks='the boarding and alighting time of that stop is left out, or counted twice',
demo=FLOW+'''
m = mode('m', bya=1, t=3600)
r = Route('x', m, '2,0', '0,2', '2,0', '0,2')
z, v = table(), table()
z['x']['I']['a'] = 4; v['x']['I']['b'] = 4; z['x']['R']['b'] = 3; v['x']['R']['a'] = 5
tc = OperatorsCost.get_cycle_time(z, v, [r], {'x': 0})
assert tc['x'] == 16, tc['x']
'''),
dict(id='b24', prop='C24', edits=[(O+'optimizer.py','''        z, v, loaded_section_route = Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,
                                                                           self.assignment, f)
        k = self.get_k(loaded_section_route)

        CO =''','''        key = tuple(round(fr, 2) for fr in fopt)
        if getattr(self, "_last", (None,))[0] != key:
            self._last = (key, Assignment.get_alighting_and_boarding(self.Vij, self.hyperpaths, self.successors,
                                                                     self.assignment, f))
        z, v, loaded_section_route = self._last[1]
        k = self.get_k(loaded_section_route)

        CO =''')], needs='two evaluations of the objective, one after the other, at vectors closer than 0.01 to each other', breaks='the second evaluation uses the loads of the first',
demo=FLOW+'''
import logging
logging.disable(logging.CRITICAL)
g = Graph.build_from_parameters(n=2)
net = TransportNetwork(g)
for r in net.get_radial_routes(mode('m', fini=0.2)):
    net.add_route(r)
d = Demand.build_from_parameters(g, 1000, 0.8, 1, 0)
mk = lambda: Optimizer(g, d, Passenger.get_default_passenger(), net)
x, y = [0.2, 0.2], [0.2, 0.204]
a, b = mk(), mk()
r1 = a.VRC(y)
b.VRC(x)
r2 = b.VRC(y)
assert r1 == r2, (r1, r2)
'''),
dict(id='b14', prop='C14', edits=[(P+'hyper_path.py','''                        label[stop_node] = labels[
                                               stop_node] + stop_node.mode.tat / 60 * self.passenger_obj.pa / self.passenger_obj.pv''','''                        label[stop_node] = labels[stop_node] + stop_node.mode.tat / 60''')], needs='a trip starting at a stop of a mode with access time', breaks='the origin stop\'s own access time is not weighted with the value of access time',
demo=FLOW+'''
g = Graph.build_from_parameters(n=1, l=10, g=1)
net = TransportNetwork(g)
m = mode('m', tat=6, theta=0)
for r in net.get_feeder_routes(m):
    net.add_route(r)
d = Demand(g)
d.change_vij(1, 2, 10)
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d)
o = [c for c in hp][0]
e = [c for c in hp[o]][0]
s = list(hp[o][e])[0]
assert abs(lab[o][e][s] - (10 / 20 + 2 * 0.1 * 8.22 / 2.74)) < 1e-6, lab[o][e][s]
'''),
dict(id='b15', prop='C15', edits=[(P+'hyper_path.py','''            while True:
                # stop condition''','''            for _ in range(2 * len(nodes)):
                # stop condition''')], needs='a strategy longer than twice the number of city nodes with stops', breaks='paths end before the destination',
demo=FLOW+'''
g = Graph.build_from_parameters(n=14)
net = TransportNetwork(g)
a, b = mode('a', 1, v=20, tat=1), mode('b', 2, v=30)
for r in net.get_circular_routes(b)[:1]:
    net.add_route(r)
d = Demand(g)
d.change_vij(4, 2, 10)
ext, hp, lab, suc, fr, vij, asg, pax = run(g, net, d)
for o in hp:
    for e in hp[o]:
        for s in hp[o][e]:
            for p in hp[o][e][s]:
                assert p[0] is o and p[1] is s and p[-1] is e, len(p)
'''),
]
