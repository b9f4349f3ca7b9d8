"""What decides each property: contract sets (pv), bounded parts, levels. Read by check.py and tools/gen_manifest.py."""
COMMON_ASSUMPTIONS = [
    "floating point numbers are treated as real numbers by the verifier; the runtime part compares with tolerances",
    "the semantics of the Python subset given in pv/ (cross-checked against CPython by the runtime part)",
]
ALL = ["C%02d" % i for i in range(1, 28)]
PROPS = {p: dict(contracts=[], level="exploration", note="", factor=1.0) for p in ALL}
PROPS["C27"]["factor"] = 0.6
PROPS["C16"]["factor"] = 0.8

# property -> (contract file, functions of the property that stay bounded)
PROVED = {
    "C01": ("contracts/city.py", []),
    "C02": ("contracts/city.py", ["Graph.get_angle"]),
    "C03": ("contracts/city.py", []),
    "C05": ("contracts/demand.py", ["Demand.build_from_content/file (text and file import)"]),
    "C06": ("contracts/demand.py", []),
    "C07": ("contracts/demand.py", ["Demand.build_from_file, matrix_to_file (CSV text on disk)"]),
    "C08": ("contracts/modes.py", []),
    "C09": ("contracts/modes.py", []),
    "C10": ("contracts/network.py", []),
    "C11": ("contracts/network.py", []),
    "C12": ("contracts/network.py", []),
    "C13": ("contracts/flow.py", ["ExtendedGraph.build_tree_graph, build_route_nodes, build_route_edges"]),
    "C16": ("contracts/hyper.py", ["Hyperpath.network_validator (acceptance), build_hyperpath_graph, get_hyperpath_OD"]),
    "C17": ("contracts/flow.py", []),
    "C27": ("contracts/report.py", ["loads in [0, 1] and 1 on the most loaded section (last_iteration and the line times enter as contracts)"]),
    "C19": ("contracts/costs.py", []),
    "C20": ("contracts/costs.py", []),
    "C21": ("contracts/costs.py", []),
    "C22": ("contracts/costs.py", []),
    "C23": ("contracts/optimizer.py", ["UsersCost.resources_consumer (the per-user totals the cost is built on)"]),
    "C24": ("contracts/optimizer.py", []),
    "C25": ("contracts/optimizer.py", []),
    "C26": ("contracts/optimizer.py", ["scipy.optimize.minimize (external)"]),
}
for _p, (_file, _bounded) in PROVED.items():
    PROPS[_p].update(contracts=[_file], level="proof", bounded=_bounded,
                     technique="function contracts on the real code, discharged by z3 (pv), plus bounded runtime contracts",
                     note="every function under contract is proved for all inputs; see DESIGN.md for assumptions"
                          + ("; bounded only: " + "; ".join(_bounded) if _bounded else ""))


def note(p):
    return PROPS[p]["note"] or "runtime contracts on generated cases of the real code, bounded"


def technique(p):
    return PROPS[p].get("technique") or "contracts checked on the real code (bounded stand-in)"
