"""Runs the runtime contracts of one property on generated cases, or replays one case.

usage: run.py PROP --seed S --factor F [--time T]   |   run.py --replay FILE
prints one JSON object."""
import argparse
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402


def table():
    t = {}
    for m in ("p_city", "p_net", "p_flow", "p_opt"):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        t.update(mod.PROPS)
    return t


class Stuck(BaseException):
    pass


def stuck(*_):
    raise Stuck()


def check(fn, case):
    # processor time, so that a busy machine does not matter; the usual case takes well under a second
    signal.signal(signal.SIGPROF, stuck)
    signal.setitimer(signal.ITIMER_PROF, 60)
    try:
        fn(case)
        return None
    except Stuck:
        return "no answer after a minute of processor time\n%s" % traceback.format_exc(limit=-6)
    except lib.Fail as e:
        return str(e)
    except Exception as e:  # noqa: BLE001
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--factor", type=float, default=1)
    ap.add_argument("--time", type=float, default=600)
    ap.add_argument("--max-fail", type=int, default=1)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t = table()
    if a.replay:
        d = json.load(open(a.replay))
        msg = check(t[d["property"]][1], d["case"])
        print(json.dumps(dict(property=d["property"], failed=msg)))
        return 1 if msg else 0
    gen, fn, count = t[a.prop]
    t0 = time.time()
    n, fails, samples, seen = 0, [], [], set()
    for i in range(int(count * a.factor)):
        if time.time() - t0 > a.time:
            break
        r = lib.rng(a.prop, a.seed, i)
        case = json.loads(json.dumps(gen(r, i), default=int))
        seen.add(json.dumps(case, sort_keys=True))
        msg = check(fn, case)
        n += 1
        if i in (0, 7):
            samples.append(case)
        if msg:
            fails.append(dict(case=case, message=msg, index=i))
            if len(fails) >= a.max_fail:
                break
    print(json.dumps(dict(property=a.prop, seed=a.seed, evaluations=n, distinct=len(seen), samples=samples, fails=fails,
                          wall_s=round(time.time() - t0, 2))))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
