#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
G = "sidermit/city/graph.py"; D = "sidermit/city/demand.py"; M = "sidermit/publictransportsystem/mode.py"
P = "sidermit/publictransportsystem/passenger.py"; N = "sidermit/publictransportsystem/network.py"
X = "sidermit/optimization/preoptimization/extended_graph.py"; H = "sidermit/optimization/preoptimization/hyper_path.py"
A = "sidermit/optimization/preoptimization/assignment.py"; K = "sidermit/optimization/constrains.py"
O = "sidermit/optimization/operators_cost.py"; I = "sidermit/optimization/infrastructure_cost.py"
U = "sidermit/optimization/users_cost.py"; Z = "sidermit/optimization/optimizer.py"
R = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "A generated city has exactly the documented nodes, zones and links",
     "Every city built from valid parameters with n zones has one CBD (id 0, zone 0), and for each zone z in 1..n one periphery (id 2z-1) and one subcenter (id 2z), listed in that order, all with unique ids and the requested width. "
     "Its directed links are exactly periphery-subcenter within each zone, subcenter-CBD for each zone, and subcenter-subcenter between consecutive zones around the ring (one pair of opposite links when there are two zones, none when there is one, closing from the last zone to the first when there are more), each present once in each direction and numbered 1..m. "
     "Asking whether a link exists answers yes exactly for those links.",
     ["inputs"], "every zone count n >= 0 and every valid combination of the symmetric and asymmetric parameters",
     "the tests build cities with a few fixed zone counts and look at lengths and a handful of nodes; the topology must hold for every n and for every combination of asymmetries, each of which rebuilds the links",
     [G], [("link construction", G + ": Graph.__build_edges, __add_edge"), ("zones and nodes", G + ": Graph.__add_zone, __add_nodes, __add_cbd, build_from_parameters"), ("link query", G + ": Graph.edge_exist")],
     ["Graph.get_nodes", "Graph.get_zones", "Graph.get_edges", "Graph.edge_exist"])
prop("C02", "City geometry follows the construction parameters exactly",
     "In every generated city the subcenter of zone z lies at distance L*Gi[z] and the periphery at (L+g*L)*Hi[z] from the origin in the direction angles[z] (default 360*(z-1)/n degrees, default factors 1), and the CBD lies at the origin or, when eccentric, at etha times the distance of the chosen zone's subcenter in its direction; the recorded radius, angle and Cartesian coordinates of every node agree with each other, in the node list and in the zone list alike. "
     "The reported length of each link is the Euclidean distance between the current positions of its two ends, the same in both directions. "
     "The angle computed from Cartesian coordinates is the polar angle in [0,360].",
     ["inputs"], "every n, L, g and every combination of angle, subcenter, periphery and CBD asymmetries",
     "tests check rounded coordinates of single examples per asymmetry; combinations, orders and arbitrary values are not sampled",
     [G], [("placement", G + ": Graph.build_from_parameters, get_xy, get_angle"), ("asymmetries", G + ": Graph.__angles_asymmetry, __Gi_asymmetry, __Hi_asymmetry, __etha_asymmetry"), ("lengths", G + ": Graph.get_edges_distance")],
     ["Graph.get_nodes", "Graph.get_zones", "Graph.get_edges_distance"])
prop("C03", "City parameters are accepted exactly when they are in their documented ranges",
     "Building a city from numeric parameters succeeds exactly when n is an integer >= 0, L, g and the node width are >= 0, eccentricity and its zone are given together with the eccentricity in [0,1] and the zone an integer in 1..n, and each asymmetry list that is given has one value per zone, in [0,360] for angles and >= 0 for the distance factors. "
     "Otherwise it raises the documented error of the first offending parameter and no city is returned. "
     "Nodes, zones and links constructed directly are likewise refused when their radius, angle, width, zone or node types are out of range.",
     ["inputs"], "every tuple of numeric or absent parameter values",
     "tests try a list of bad values one at a time; the accept/reject boundary must be right for every combination, including the exact bounds",
     [G], [("validator", G + ": Graph.parameters_validator"), ("node/zone/link validation", G + ": Node, CBD, Zone, Edge constructors")], ["Graph.build_from_parameters"])
prop("C04", "City files: only well-formed cities are accepted, and export/import round-trips",
     "Importing city text either raises an error or yields a city with exactly one CBD, one periphery and one subcenter in each zone 1..n, unique node ids, the complete set of links for n zones, and every node's id, name, coordinates, type, zone and width exactly as written, with radius and angle derived from the coordinates. "
     "Exporting a city whose peripheries are on average farther out than its subcenters (and whose subcenters are off the origin) and importing the text gives the same nodes, links and lengths; line order does not matter.",
     ["inputs"], "every text in the Pajek-like format (any order, any count of lines, any ids/zones/types) and every exportable city",
     "tests import a few fixed files; malformed combinations (wrong types per zone, duplicate ids, no CBD, shuffled lines) are an open set",
     [G], [("parser", G + ": Graph.__pajekfile_to_dataframe, build_from_content, build_from_file"), ("writer", G + ": Graph.export_graph, graph_to_pajek_file")],
     ["Graph.build_from_content", "Graph.build_from_file", "Graph.export_graph"])
prop("C05", "Demand bookkeeping: total trips always equal the sum of the matrix",
     "A new demand has a zero cell for every ordered pair of city nodes. "
     "After any sequence of cell changes, accepted or refused, the total number of trips equals the sum of all cells, no cell is negative, an accepted change sets exactly that cell and nothing else, and a change with a negative value or an unknown origin or destination raises an error and leaves cells and total untouched.",
     ["histories", "inputs"], "every city, every history of cell changes including refused ones",
     "tests make one or two changes; the total is maintained incrementally and must agree with the matrix after any history, overwrites included",
     [D], [("incremental total", D + ": Demand.change_vij"), ("initial matrix", D + ": Demand.__build_default_matrix, __init__")],
     ["Demand.get_matrix", "Demand.get_total_trips"])
prop("C06", "Generated demand conserves the total and follows the documented split",
     "For every city with n >= 1 zones and every valid (Y, a, alpha, beta), the generated matrix sums to Y; each zone generates Y/n trips of which the share a starts in its periphery; nothing starts at the CBD, nothing ends in a periphery and no node sends trips to itself. "
     "With two or more zones a periphery sends the share alpha to the CBD, beta to its own subcenter and the rest equally to the other subcenters, and a subcenter splits between the CBD and the other subcenters in proportion alpha : (1-alpha-beta); with one zone the periphery sends 1-alpha to its subcenter and the subcenter sends everything to the CBD. "
     "Parameters are accepted exactly when Y >= 0, a and alpha are in [0,1], beta is in [0,1) and alpha+beta <= 1, and every accepted combination produces a matrix.",
     ["inputs"], "every valid parameter combination, boundaries included, on every city (generated or imported, any node ids)",
     "tests use a few parameter sets on small cities; conservation needs algebra over n, and floating point boundaries (alpha+beta = 1) need values no test has",
     [D], [("generator", D + ": Demand.build_from_parameters"), ("validator", D + ": Demand.parameters_validator")], ["Demand.build_from_parameters"])
prop("C07", "Demand matrices from lists and files are taken over exactly or refused",
     "A demand built from a square list of lists has exactly the given value for every ordered pair, rows and columns in the order of the city's node list; a demand built from a CSV file has exactly the listed values and zero elsewhere; writing the matrix to CSV and reading it back gives the same matrix and total. "
     "A list with the wrong number of rows or columns, a negative value, an unknown node id, or a line without three fields raises an error.",
     ["inputs"], "every matrix, file content and city",
     "tests load a fixed file and compare one written file byte by byte",
     [D], [("from list", D + ": Demand.build_from_content"), ("from/to file", D + ": Demand.build_from_file, matrix_to_file")], ["Demand.build_from_content", "Demand.build_from_file", "Demand.matrix_to_file"])
prop("C08", "Transport modes and passengers can only hold valid parameter values",
     "Whenever a mode exists, its cruise speed is > 0, its costs, boarding time, capacities, frequencies, access time and number of lines are >= 0, its boarding rule is 0 or 1 and its regularity is in [0,1]; whenever a passenger profile exists, its walking speed is > 0 and its values of time and penalties are >= 0. "
     "An attempt to construct one with, or assign, an absent or out-of-range value raises an error naming that parameter and keeps the previous value; every in-range value is stored unchanged, except that the constructor multiplies the given maximum and initial frequencies by the number of parallel lines.",
     ["inputs", "histories"], "every value for every parameter, at construction and at every later assignment",
     "tests set one bad value per parameter; bounds (0, exactly 1) and wrong-field mixups at other values are not sampled",
     [M, P], [("validated attributes", M + ": mode_property, TransportMode"), ("validated attributes", P + ": passenger_property, Passenger")], ["TransportMode", "Passenger"])
prop("C09", "The mode registry stays consistent and enforces the one-or-two-modes rule",
     "After any sequence of additions and removals the registry lists each mode once, names are unique, the list of names matches the list of modes position by position, looking a name up returns that mode, and a refused operation (duplicate name, unknown name, not a mode) changes nothing. "
     "A set of modes is accepted for assignment exactly when it has one mode, or two modes of which at least one has a single line per street; every other set raises an error.",
     ["histories", "inputs"], "every history of add/remove/lookup operations, every set of modes",
     "tests perform short fixed sequences; the parallel lists must agree after any history",
     [M], [("registry", M + ": TransportModeManager")], ["TransportModeManager"])
prop("C10", "Custom routes are always valid, and their sequences parse losslessly",
     "A custom route can be created exactly when it has an id and a mode, both node sequences are non-empty and close a cycle (each starts where the other ends), neither visits a node twice, and in each direction the stops are non-empty, all on the node sequence, starting at its first and ending at its last node; otherwise an error is raised. "
     "The sequences stored are exactly the integers of the comma-separated text given, and turning a sequence into text and back gives the same sequence.",
     ["inputs"], "every quadruple of integer sequences of any length",
     "tests cover one failing example per rule; the rules must be right for all sequences and both directions",
     [N], [("route validation", N + ": Route.__init__, parameters_validator, stops_validator, direction_validator, sequences_validator"), ("sequence text", N + ": Route.sequences_to_list, sequences_to_string")], ["Route"])
prop("C11", "The transport network registry is consistent and every operation is atomic",
     "After any sequence of route and mode additions and removals: route ids are unique, each lookup by id returns that route, every listed route uses a listed mode and only links of the city in both directions, and the listed modes are at most two, distinct, with one having a single line per street if there are two. "
     "A refused operation (duplicate or unknown id, missing link in either direction, third mode, invalid pair of modes) raises an error and changes nothing; removing a mode removes it and exactly the routes that use it, and removing a route removes exactly that route.",
     ["histories", "inputs"], "every city, every history of operations, accepted or refused, with any routes and modes",
     "tests run short sequences; removal during iteration, order of checks and parallel id lists only break on particular histories",
     [N], [("registry", N + ": TransportNetwork.add_route, remove_route, get_route, add_transport_mode, remove_transport_mode, __edges_validator")], ["TransportNetwork"])
prop("C12", "Predefined route families are correct for every city and jump",
     "For every city with n zones, every mode and every admissible jump (an integer in 1..n/2) and option, each predefined family returns routes with distinct ids that visit exactly the documented nodes (feeder p-sc; radial p-sc-cbd; diametral p-sc-cbd-sc'-p'; tangential p-sc-...-sc'-p' through the subcenters between; circular all subcenters and back to the start), with the return direction the reverse, the periphery left out when short, only the end stops when express, and every consecutive pair of nodes a link of the city. "
     "There is one route per zone, except n/2 for jumps of exactly n/2 (so no pair of zones is served twice) and the two directions for circular; an inadmissible jump, or circular routes in a city with fewer than two zones, raises an error.",
     ["inputs"], "every n, jump, option and node id assignment",
     "tests look at a few zone counts and jumps; wrap-around and the jump = n/2 case depend on n and jump together",
     [N], [("families", N + ": TransportNetwork.get_circular_routes, get_feeder_routes, get_radial_routes, get_diametral_routes, get_tangencial_routes")], ["TransportNetwork.get_*_routes", "TransportNetwork.add_route"])
prop("C13", "The extended graph represents every stop of every route, with correct times",
     "For every city and network the extended graph has, at each city node where some route stops, one stop node per mode stopping there, and under it one route node per direction of each route of that mode stopping there (a circular route has one per stop, the closing stop counted once). "
     "Each stop node is joined to its city node by an access link each way with the mode's access time in hours; each route node has a boarding link with zero time and the route's frequency per line (except at the last stop of a non-circular direction) and an alighting link carrying the transfer penalty in hours (except at the first stop of one); each pair of consecutive stops has one in-vehicle link whose time is the distance along the route's node sequence over the mode's speed; there is nothing else, and all but boarding links have infinite frequency.",
     ["inputs"], "every city, set of routes (custom, predefined, circular, express) and frequency table",
     "tests count nodes and edges on fixed networks and check few times; express stops, nodes without stops and circular wrap need particular networks",
     [X], [("construction", X + ": ExtendedGraph.__init__ and build_city_nodes, build_tree_graph, build_stop_nodes, build_route_nodes, build_extended_graph_nodes, build_access_edges, build_boarding_edges, build_alighting_edges, build_route_edges")],
     ["ExtendedGraph.get_extended_graph_nodes", "ExtendedGraph.get_extended_graph_edges"])
prop("C14", "Hyperpath labels are the optimal expected travel costs",
     "For every origin-destination pair the label computed for each extended node is the optimal-strategy expected cost to the destination: 0 at the destination, the minimum over outgoing non-boarding links of link cost plus head label, or for boarding the combined waiting plus frequency-weighted cost over the best set of lines, whichever is less, with infinity where the destination cannot be reached. "
     "Access links are weighted by the ratio of the access and in-vehicle values of time, waiting by that of waiting and in-vehicle values and the mode's regularity, no transfer penalty is charged for alighting at the destination, trips cannot pass through the origin city node, and the stops at the origin additionally carry their own access time.",
     ["inputs"], "every network, frequencies, passenger profile and origin-destination pair",
     "tests compare a few labels on fixed networks; optimality of a strategy is a statement over all alternatives, unreachable by examples",
     [H], [("label setting", H + ": Hyperpath.build_hyperpath_graph")], ["Hyperpath.build_hyperpath_graph", "Hyperpath.get_all_hyperpaths"])
prop("C15", "Hyperpath strategies are acyclic and every elementary path is complete",
     "For every origin-destination pair the chosen outgoing links of every node start at that node, attain its label and can never form a cycle; boarding choices at a stop are exactly the lines whose continuation costs less than the stop's label, and the recorded cumulative frequency is the sum of their frequencies. "
     "For each stop at the origin the elementary paths are exactly all the chains of chosen links from that stop to the destination, each starting with the origin and that stop and ending at the destination; a stop that cannot reach the destination has none.",
     ["inputs"], "every network and origin-destination pair", "path sets on arbitrary networks (common lines, transfers, two modes) cannot be enumerated by examples",
     [H], [("successor selection", H + ": Hyperpath.build_hyperpath_graph"), ("elementary paths", H + ": Hyperpath.get_hyperpath_OD, get_all_hyperpaths")], ["Hyperpath.get_hyperpath_OD", "Hyperpath.get_all_hyperpaths"])
prop("C16", "A network is accepted exactly when every OD pair with trips is connected",
     "The route choice step accepts a network and demand exactly when every origin-destination pair with trips can be travelled by the routes with positive frequency, transfers included, and the modes in use satisfy the one-or-two-modes rule; otherwise it raises an error. "
     "When it accepts, results are returned for exactly the pairs with trips, each with its own trips, labels, strategy, frequencies and at least one path.",
     ["inputs"], "every network, frequency table and demand matrix", "connectivity of every pair under arbitrary routes and zero frequencies is not sampled by tests",
     [H], [("validation", H + ": Hyperpath.network_validator"), ("collection", H + ": Hyperpath.get_all_hyperpaths")], ["Hyperpath.network_validator", "Hyperpath.get_all_hyperpaths"])
prop("C17", "Assignment distributes 100% of each OD pair over its origin stops",
     "For every origin-destination pair with a path, the percentages assigned to its one or two origin stops are each in [0,100] and sum to 100; with one usable stop it gets everything, ties included. "
     "With two stops, whose single-line-per-street one is called the central stop, the shares are those of the indifference walking distance d = walking speed * label difference / (access value / in-vehicle value): if the central stop is at least as good it gets everything when d reaches half the node width or the farthest stop position, and otherwise (d + x)/width where x is the first position of the other mode's lines beyond d; if the other stop is better it gets everything when it has an odd number of lines or d reaches its first position x, and otherwise the central stop keeps (x - d)/width.",
     ["inputs"], "every pair of labels (equal ones included), node width, number of lines, walking speed and values of time", "tests check single numbers in few branches; ties and boundary distances fall between branches",
     [A], [("shares", A + ": Assignment.get_assignment")], ["Assignment.get_assignment"])
prop("C18", "Passenger flows are conserved from boarding to alighting",
     "For every demand, strategy and positive frequencies, the passengers per vehicle boarding, alighting and on board of each route, direction and stop are exactly those obtained by splitting each origin stop's share of the trips along the strategy in proportion to the frequencies of the chosen lines. "
     "Hence for every route and direction the total boarding equals the total alighting, the load leaving a stop equals the load entering it plus boarding minus alighting, and over all routes the passengers leaving each origin by vehicle and reaching each destination, net of those who change lines there, equal the demand; a route with zero frequency carries nobody.",
     ["inputs"], "every acyclic strategy, assignment, demand and frequency vector", "tests compare totals on one network; conservation must hold at each stop of each route for every split",
     [A], [("flow propagation", A + ": Assignment.get_alighting_and_boarding")], ["Assignment.get_alighting_and_boarding"])
prop("C19", "Vehicle size is the load of the most loaded section",
     "For every load table the vehicle size of each route is the largest load over all sections of both directions, and never negative; routes without loads get 0 and no other route appears.",
     ["inputs"], "every load table", "a maximum over both directions and all sections is tested on one table only",
     [A, Z], [("maximum", A + ": Assignment.most_loaded_section"), ("vehicle size", Z + ": Optimizer.get_k")], ["Optimizer.get_k", "Assignment.most_loaded_section"])
prop("C20", "Constraints hold exactly when no vehicle is overloaded and no link too busy",
     "The constraint vector has one value per route, in route order, equal to its most loaded section minus its mode's vehicle capacity, followed by one value per link and mode, in that order, equal to the frequency per line of all routes of the mode that traverse the link in that direction (once per traversal, both route directions considered) minus the mode's maximum frequency per line. "
     "So all values are <= 0 exactly when both kinds of capacity are respected.",
     ["inputs"], "every city, network, load table and frequency vector", "tests check vectors of one network with equal frequencies",
     [K, Z], [("constraints", K + ": Constrains.most_loaded_section_constrains, fmax_constrains"), ("assembly", Z + ": Optimizer.constrains, get_constrains")], ["Optimizer.get_constrains"])
prop("C21", "Operators cost: cycle time and cost follow the documented formula",
     "The running time of a route is the sum of its links' lengths in both directions over its mode's speed; its cycle time adds, per stop and direction, the boarding/alighting time: (boarding + alighting) * t when sequential, max(boarding, alighting) * t when simultaneous, each stop counted once, in hours. "
     "The operators cost is the sum over routes with non-zero frequency of (c0 + c1 * vehicle size) * frequency * cycle time.",
     ["inputs"], "every network, boarding/alighting table, frequency and size", "tests use networks in which both directions and all stops are symmetric, so mixups cancel",
     [O], [("times and cost", O + ": OperatorsCost.lines_travel_time, get_cycle_time, get_operators_cost")], ["OperatorsCost", "Optimizer.operators_cost"])
prop("C22", "Infrastructure cost counts each served street once per mode",
     "For each mode, the built length is the sum of the lengths of the physical links (a link and its opposite are one) that at least one route of the mode with non-zero frequency traverses in any direction, each counted once, times the mode's number of lines; the infrastructure cost is the sum over modes of unit cost times built length.",
     ["inputs"], "every city, network and frequency vector", "overlapping routes, one-way use and zero frequencies interact; tests have a single layout",
     [I], [("built length", I + ": InfrastructureCost.get_mode_network_distance, get_infrastruture_cost")], ["InfrastructureCost", "Optimizer.infrastructure_cost"])
prop("C23", "Users' resources are the flow-weighted sums along the strategies",
     "Total access time, waiting time, in-vehicle time and transfers equal the sums, over all passengers and every element of their strategies, of: access time to the first stop (technological plus lateral walking) and at each change of mode through a city node; regularity over the combined frequency per line at every boarding; link times, the wait for others boarding and alighting at each intermediate stop, and half the alighting time at each alighting; and one transfer per alighting away from the destination. "
     "They are never negative, are linear in the demand for given boarding and alighting tables, and users' cost is their sum weighted by the social values of time, with each transfer worth its penalty minutes of in-vehicle time.",
     ["inputs"], "every network, strategy, assignment, demand, frequencies and passenger profile", "one network is compared with four numbers; circular routes, transfers between modes and asymmetric tables are never exercised",
     [U], [("resources", U + ": UsersCost.resources_consumer, get_users_cost")], ["UsersCost", "Optimizer.user_cost"])
prop("C24", "The optimised vector is a faithful image of the route frequencies",
     "Position i of the optimisation vector always stands for the i-th route of the network: starting frequencies, conversion from vector to per-route frequencies and back, and the number of constraints and variables agree with the network. "
     "The objective at a vector is operators cost plus infrastructure cost plus users' cost of exactly those frequencies, with loads, vehicle sizes and times computed from them, and evaluating it changes no result of a later evaluation.",
     ["inputs", "histories"], "every network, vector and sequence of evaluations", "tests evaluate the objective at one vector with equal frequencies, where a permutation is invisible",
     [Z], [("mapping", Z + ": Optimizer.f0, fopt_to_f"), ("objective", Z + ": Optimizer.VRC, operators_cost, infrastructure_cost, user_cost")], ["Optimizer.VRC", "Optimizer.fopt_to_f"])
prop("C25", "The reported optimum is the best valid iterate, or an error",
     "Among the iterates, the result chosen is one with the least objective value among those that are converged (status not initial, failed or callback-stopped), violate no constraint by 0.001 or more and have no negative frequency; if there is none, an error is raised instead of a result. "
     "In the returned result every frequency is either 0 or at least 1/24 vehicles per hour, those of at least 1/24 being unchanged from the chosen iterate.",
     ["inputs", "histories"], "every list of iterates (any statuses, violations, frequencies, objective values and order)", "the numerical optimiser only ever produces a few histories in tests; selection must be right for all",
     [Z], [("selection", Z + ": Optimizer.get_better_result"), ("acceptance", Z + ": Optimizer.status_optimization, external_optimization")], ["Optimizer.external_optimization", "Optimizer.get_better_result", "Optimizer.status_optimization"])
prop("C26", "Overall results are consistent totals of the reported optimum",
     "The overall results report the operators, infrastructure and users' cost, their sum, and the access, waiting and in-vehicle minutes and transfers of the optimum, each per trip; and per mode the fleet (sum of frequency times cycle time), the number of lines and the mean vehicle size over the mode's routes with positive frequency. "
     "Asking for results before an optimum exists raises an error.",
     ["inputs"], "every city, demand, network and optimum", "tests only check that the report is produced and a few rounded numbers",
     [Z], [("totals", Z + ": Optimizer.get_overall_results, last_iteration")], ["Optimizer.get_overall_results"])
prop("C27", "The route report agrees with flows, sizes and times of the optimum",
     "The report has one entry per route in network order with its frequency, frequency per line, vehicle size, fleet (frequency times cycle time), cycle time in minutes, operators cost per boarded passenger and minimum section load; and for each direction one row per consecutive pair of nodes with the load on that section as a fraction of the vehicle size. "
     "Section loads equal the on-board passengers after boarding and alighting at the section's first node for every mode's boarding rule, lie in [0,1], and reach 1 on the most loaded section; a route without frequency or without passengers reports zero loads and costs.",
     ["inputs"], "every city, demand, network and optimum, all route types and boarding rules", "tests only check the type of the output",
     [Z], [("report", Z + ": Optimizer.get_network_results")], ["Optimizer.get_network_results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for r in R:
            fh.write(json.dumps(r) + "\n")
    import re
    for r in R:
        assert len(r["title"]) <= 80, r["id"]
        ns = len(re.findall(r"[.](?:\s|$)", r["statement"]))
        if ns > 3:
            print("sentences", r["id"], ns)
