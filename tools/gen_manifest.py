import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import registry as r
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s" % p,
                      evidence_file="evidence/%s.json" % p, technique=r.technique(p), level=d["level"],
                      level_note=r.note(p)) for p, d in r.PROPS.items()],
         not_applicable=[],
         notes="pv/: obligation generator over /repo's source and z3; contracts/: the contracts; rt/: the same "
               "properties evaluated on the real code (bounded stand-in, cross-check, search for failing inputs).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
