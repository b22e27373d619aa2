"""Contract-directed search on the real code: run.py ID --seed S --seconds T --out FILE [--replay FILE]
Exit 0 always when it could run; the result is in the JSON file."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("FM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import numpy as np
    import faulthandler
    t0 = time.time()
    res = dict(id=a.id, evaluations=0, nontrivial=0, skipped=0, violation=None, error=None, samples=[])
    try:
        import props
        import fibermat
        res["source"] = fibermat.__file__
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
        res["violation"] = dict(case=None, msg="fibermat cannot be imported: " + traceback.format_exc()[-600:])
        return finish(res, a)
    P = props.PROPS[a.id]

    def one(case):
        try:
            return bool(P.check(case)), None
        except props.Bad as e:
            return False, str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any("/fibermat/" in f.filename for f in tb):
                return False, "the call raised {!r} (valid input): {}".format(e, "".join(traceback.format_list(tb[-2:])))
            raise

    if a.replay:
        case = json.load(open(a.replay))["case"]
        ok, msg = one(case)
        if msg:
            res["violation"] = dict(case=case, msg=msg)
        res["evaluations"] = 1
        return finish(res, a)
    rng = np.random.default_rng([a.seed, int(a.id[1:])])
    k = 0
    seen = set()
    while k < a.max and time.time() - t0 < a.seconds:
        lvl = 0 if k < 60 else (1 if k % 5 else 2)
        case = P.gen(rng, lvl)
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            k += 1
            continue
        try:
            nt, msg = one(case)
        except Exception:
            res["error"] = traceback.format_exc()[-3000:]
            res["case"] = case
            break
        k += 1
        seen.add(key)
        res["evaluations"] += 1
        if nt:
            res["nontrivial"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append(case)
        if msg:
            res["violation"] = dict(case=case, msg=msg)
            break
    res["seconds"] = round(time.time() - t0, 2)
    finish(res, a)


def finish(res, a):
    txt = json.dumps(res, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(txt)


main()
