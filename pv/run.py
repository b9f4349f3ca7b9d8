"""python3-vt pv/run.py PROP [name-filter] [-v]: discharges the contracts of a property; prints JSON (or text with -v)."""
import ast
import hashlib
import json
import os
import sys
import signal
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3  # noqa: E402
import verify as V  # noqa: E402
from source import Source  # noqa: E402


def plain(node):
    """the AST of a function without docstring, as text: what the record of discharged proofs is about"""
    import copy
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) and len(n.body) > 1:
            n.body = n.body[1:]
    return ast.dump(node)


def source_hash(src, quals):
    """hash of the functions of the package a contract's proof went through, and of what stands outside functions in their modules"""
    parts, mods = [], set()
    for q in sorted(quals):
        if not q.startswith("sidermit."):
            continue
        try:
            mod, _, node = src.find(q)
            parts.append(q + plain(node))
            mods.add(mod)
        except Exception:
            parts.append(q)
    for m in sorted(mods):
        for n in src.modules[m].body:
            if isinstance(n, ast.ClassDef):
                parts += [plain(x) for x in n.body if not isinstance(x, ast.FunctionDef)]
            elif not isinstance(n, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                parts.append(plain(n))
    return hashlib.sha1("\n".join(parts).encode()).hexdigest()


JOB = {}


def late(*_):
    raise TimeoutError("no answer in the time of one contract")


def one(k):
    c, src, verbose = V.CONTRACTS[k], JOB["src"], JOB["verbose"]
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("PV_LIMIT", "130")))
    try:
        r = V.verify(c, src)
        signal.alarm(0)
    except Exception as x:
        signal.alarm(0)
        if verbose:
            import traceback
            traceback.print_exc()
        r = dict(obligations=[dict(name=c["name"] + ": within reach", status="unknown",
                                   detail="verifier error %s: %s" % (type(x).__name__, str(x)[:200]))],
                 used={}, time=0, solver=0, queries=0)
    quals = set(r["used"]) | ({c["fn"]} if not c["lemma"] else set())
    h = source_hash(src, quals)
    for o in r["obligations"]:
        o["contract"], o["hash"] = c["name"], h
    if verbose:
        print("== %s  %.1fs" % (c["name"], r["time"]))
        for o in r["obligations"]:
            print("   %-8s %s %s" % (o["status"], o["name"], o["detail"]))
        sys.stdout.flush()
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    prop = args[0]
    if os.environ.get("PV_TIMEOUT_FACTOR"):
        V.FACTOR[0] = float(os.environ["PV_TIMEOUT_FACTOR"])
    t0 = time.time()
    src = Source()
    V.SRC[0] = src
    V.load(src)
    out = dict(obligations=[], functions=[], trusted=[], solver_s=0.0, z3=z3.get_version_string(), queries=0)
    fns = {}
    todo = [k for k, c in enumerate(V.CONTRACTS) if (prop == "ALL" or prop in c["prop"]) and
            (len(args) < 2 or any(a in c["name"] or a in c["fn"] for a in args[1].split("|")))]
    JOB.update(src=src, verbose=verbose)
    if len(todo) > 1 and not verbose:
        # every contract in a process of its own: what one leaves behind does not steer the solver in the next
        import multiprocessing
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
            results = pool.map(one, todo, chunksize=1)
    else:
        results = [one(k) for k in todo]
    for k, r in zip(todo, results):
        c = V.CONTRACTS[k]
        out["obligations"] += r["obligations"]
        for q, how in r["used"].items():
            if q.startswith("sidermit.") and fns.get(q) != "under contract":
                fns[q] = how
        if not c["lemma"]:
            fns[c["fn"]] = "under contract"
        out["solver_s"] += r["solver"]
        out["queries"] += r["queries"]
    out["functions"] = ["%s (%s)" % (q, h) for q, h in sorted(fns.items())]
    out["wall_s"] = round(time.time() - t0, 2)
    out["solver_s"] = round(out["solver_s"], 2)
    if not verbose:
        print(json.dumps(out))
    else:
        n = {}
        for o in out["obligations"]:
            n[o["status"]] = n.get(o["status"], 0) + 1
        print(n, "wall %.1f" % out["wall_s"])


if __name__ == "__main__":
    main()
