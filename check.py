#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.

1. pv/ re-reads /repo's sources, generates the proof obligations of every function under contract for this
   property and discharges them with z3.
2. rt/ runs the same contracts on generated cases against the real code: it is the bounded stand-in for the
   functions the verifier cannot reach, the CPython cross-check of the verifier, and the search for a failing
   input when an obligation is not discharged.

An obligation that is not discharged is reported as a violation
 - with the failing input, when the search on the real code finds one;
 - with the words no-failing-input-found when the verifier refutes it, or when it is one of those discharged before (on
   the functions recorded in proofs.json), those functions have changed, and the solver does not get it within four
   times the usual limit either.
It is printed as UNDECIDED, with exit 0, when the functions are exactly the recorded ones (the solver ran out of time), or
when the changed function cannot be brought within the verifier's reach: then only the bounded part decides.
Exit 0 held, 1 violation (with a VIOLATION line), 2 error of the check."""
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "/usr/local/bin/python3-vt"
if not os.path.exists(VT):
    VT = "/opt/veriftools/pyvenv/bin/python"
sys.path.insert(0, HERE)
import registry  # noqa: E402


def run_json(cmd, timeout, **more):
    env = dict(os.environ, **more)
    env.update(VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE)
    except subprocess.TimeoutExpired:
        return None, "timeout after %d s" % timeout
    try:
        return json.loads(p.stdout), p.stderr
    except ValueError:
        return None, (p.stdout[-2000:] + p.stderr[-4000:])


def rt(prop, seed, factor, tmax, slot=""):
    return run_json([PY, os.path.join("rt", "run.py"), prop, "--seed", str(seed), "--factor", str(factor),
                     "--time", str(tmax)], tmax + 240)


def replay_file(prop, name, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, name, h))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def main():
    prop = sys.argv[1]
    meta = registry.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    # ---- deductive part
    pv = dict(obligations=[], functions=[], trusted=[], error=None, solver_s=0.0)
    if meta.get("contracts"):
        r, err = run_json([VT, os.path.join("pv", "run.py"), prop], 600 if thorough else 240, PV_LIMIT="400" if thorough else "130")
        if r is None:
            pv["error"] = "verifier gave no answer: %s" % err
        else:
            pv.update(r)
    obls = pv["obligations"]
    open_obls = [o for o in obls if o["status"] != "proved"]
    undecided = bool(meta.get("contracts")) and (bool(open_obls) or not obls or pv["error"])

    # ---- bounded part, on the real code
    factor = meta.get("factor", 1.0)
    budget = 120
    if thorough:
        factor, budget = factor * 8, 500
    r, err = rt(prop, seed, factor, budget)
    if r is None:
        print("error: the runtime part gave no answer: %s" % err)
        return 2
    runs = [r]

    # open obligations of changed functions: once more, with more time
    rec = json.load(open(os.path.join(HERE, "proofs.json"))).get(prop, {})

    def lost(o):
        """was discharged for the recorded functions, is generated from other ones now, and is not discharged"""
        return o["status"] == "unknown" and not o["name"].endswith("within reach") and \
            o.get("contract") in rec and o["hash"] != rec[o["contract"]]["hash"]
    again = sorted({o["contract"] for o in open_obls if lost(o)})
    if again and not runs[0]["fails"]:
        r, err = run_json([VT, os.path.join("pv", "run.py"), prop, "|".join(again)], 150, PV_LIMIT="140", PV_TIMEOUT_FACTOR="4")
        if r is not None:
            names = {o["contract"] for o in r["obligations"]}
            pv["obligations"] = obls = [o for o in obls if o["contract"] not in names] + r["obligations"]
            pv["solver_s"] += r["solver_s"]
            open_obls = [o for o in obls if o["status"] != "proved"]
            undecided = bool(open_obls) or bool(pv["error"])

    if undecided and not runs[0]["fails"]:
        # an obligation is open: search harder for an input that fails on the real code
        for s in range(1, 4):
            r2, err = rt(prop, seed + 1000 * s, factor * 2, 90)
            if r2 is None:
                print("error: the runtime part gave no answer: %s" % err)
                return 2
            runs.append(r2)
            if r2["fails"]:
                break

    fails = [f for x in runs for f in x["fails"]]
    refuted = [o for o in open_obls if o["status"] == "refuted" or lost(o)]
    rc, violations = 0, 0
    if fails:
        f = fails[0]
        path = replay_file(prop, "case", dict(property=prop, case=f["case"], message=f["message"],
                                              open_obligations=open_obls,
                                              replay="VERIF_REPO=%s %s rt/run.py --replay <this file>" % (REPO, PY)))
        for o in open_obls[:10]:
            print("obligation not discharged: %s [%s] %s" % (o["name"], o["status"], o.get("detail", "")[:300]))
        print("failing input: %s" % f["message"].splitlines()[0][:500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc, violations = 1, len(fails)
    elif refuted:
        path = replay_file(prop, "obligation", dict(property=prop, obligations=open_obls))
        for o in refuted[:10]:
            print("obligation %s: %s: %s" % (
                "refuted" if o["status"] == "refuted" else "no longer discharged", o["name"], o.get("detail", "")[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc, violations = 1, len(refuted)
    else:
        for o in open_obls:
            print("UNDECIDED obligation %s [%s] %s (bounded stand-in found nothing)" %
                  (o["name"], o["status"], o.get("detail", "")[:300]))
        if pv["error"]:
            print("UNDECIDED: %s" % pv["error"][:600])
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2].strip()))

    # ---- evidence
    level = meta["level"]
    discharged = sum(o["status"] == "proved" for o in obls)
    cov = dict(
        evaluations=sum(x["evaluations"] for x in runs),
        distinct_nontrivial=sum(x["distinct"] for x in runs),
        rule="each case is one generated input (city, modes, routes, demand, frequencies or an operation sequence, as "
             "the property needs) on which the contract is evaluated on the real code; distinct and non-trivial = "
             "different serialised input",
        samples=[s for x in runs[:1] for s in x["samples"]][:2],
        bounded="bounded stand-in and cross-check; bound: %s" % meta.get("bound", "the generated cases of this run"),
        runtime_s=round(sum(x["wall_s"] for x in runs), 2),
    )
    if meta.get("contracts"):
        cov.update(
            obligations=len(obls), discharged=discharged,
            checker_cmd="%s pv/run.py %s" % (VT, prop),
            trusted_base=pv["trusted"] + meta.get("trusted", []),
            functions_under_contract=pv["functions"],
            backend="z3 %s (via pv obligation generator)" % pv.get("z3", "?"),
            solver_s=pv["solver_s"],
            undischarged=[dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:500])
                          for o in open_obls],
            bounded_functions=meta.get("bounded", []),
            obligation_names=[o["name"] for o in obls],
        )
    if level == "other":
        cov["explanation"] = meta["note"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %s; %d/%d obligations discharged; %d cases on the real code; %.1f s" % (
        prop, "VIOLATION" if rc else "held", discharged, len(obls), cov["evaluations"], time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
