"""Discharges the obligations of one property: python -m dv.run ID --out F [--seconds T]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import core as K
from . import loader
from .core import Report, Ctx, PathEnd, Budget, Unsupported, explore

HERE = os.path.dirname(os.path.abspath(__file__))


def run_unit(pid, k, deadline):
    from .specs import base
    importlib.import_module("dv.specs." + pid.lower())
    u = base.UNITS[pid][k]
    rep = Report(deadline=deadline)
    t0 = time.time()
    out = dict(unit=u.name, functions=list(u.functions))
    pkg0 = {}

    def body(c):
        try:
            pkg = loader.load(only=list(u.mods))
            u.fn(c, pkg)
            # vacuity guard: the hypotheses of this path must be satisfiable
            if u.canary and (getattr(rep, "live", 0) < 3 or not rep.here <= rep.livenames):
                r = c.refute([K.toint(c.int("canary")) == 0], 1, 1500, only=True, nl=False)[0]
                rep.vacuous = getattr(rep, "vacuous", 0) + (r == "unsat")
                rep.live = getattr(rep, "live", 0) + (r != "unsat")
                if r != "unsat":
                    rep.livenames |= rep.here
        except (PathEnd, Budget, Unsupported):
            raise
        except Exception as e:
            if loader.is_program_exception(e):
                c.prove("no exception on a valid input", False)
                d = rep.obl["no exception on a valid input"]
                d["detail"] = "{!r} at {}; {}".format(e, "".join(traceback.format_list(traceback.extract_tb(e.__traceback__)[-3:]))[-600:], d["detail"])
            else:
                raise
    try:
        explore(body, rep, maxpaths=u.maxpaths)
    except Budget:
        rep.unsupported.append("time budget exhausted")
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        src = [f for f in tb if "fibermat" in f.filename]
        rep.unsupported.append("{}{}".format(e, " at {}:{}".format(os.path.basename(src[-1].filename), src[-1].lineno) if src else ""))
        if os.environ.get("DV_TRACE"):
            traceback.print_exc()
    except RecursionError:
        rep.unsupported.append("recursion limit")
    except Exception as e:
        # the engine does not model something: never a verdict on the code
        tb = traceback.extract_tb(e.__traceback__)
        src = [f for f in tb if "fibermat" in f.filename]
        rep.unsupported.append("engine: {!r}{}".format(e, " at {}:{}".format(os.path.basename(src[-1].filename), src[-1].lineno) if src else ""))
        if os.environ.get("DV_TRACE"):
            traceback.print_exc()
    out.update(obligations={n: dict(o, time=round(o["time"], 2)) for n, o in rep.obl.items()}, paths=rep.paths, infeasible=rep.infeasible,
               queries=rep.queries, solver_time=round(rep.solver_time, 2), unsupported=rep.unsupported, trusted=sorted(rep.trusted),
               notes=rep.notes, wall=round(time.time() - t0, 2), vacuous_paths=getattr(rep, "vacuous", 0), live_paths=getattr(rep, "live", 0))
    if not rep.unsupported and (not rep.obl or (u.canary and not getattr(rep, "live", 0))):
        out["unsupported"].append("no reachable path carries an obligation")
    if u.canary and not rep.unsupported:
        for nm, o in rep.obl.items():
            if o["status"] == "proved" and nm not in rep.livenames and o["time"] > 0.:
                out["unsupported"].append("the obligation [{}] is met on infeasible paths only".format(nm))
    return out


def _child(pid, k, deadline, path):
    sys.setrecursionlimit(20000)
    try:
        out = run_unit(pid, k, deadline)
    except BaseException as e:
        out = dict(error="".join(traceback.format_exc())[-2000:])
    with open(path, "w") as f:
        json.dump(out, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--seconds", type=float, default=300)
    ap.add_argument("--out")
    ap.add_argument("--unit")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    from .specs import base
    importlib.import_module("dv.specs." + a.id.lower())
    units = base.UNITS[a.id]
    deadline = t0 + a.seconds
    import tempfile
    tmp = tempfile.mkdtemp(prefix="dv_")
    todo = [k for k, u in enumerate(units) if not a.unit or a.unit in u.name]
    running, results = {}, {}
    ctxmp = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < a.jobs:
            k = todo.pop(0)
            p = ctxmp.Process(target=_child, args=(a.id, k, deadline, os.path.join(tmp, str(k))))
            p.start()
            running[k] = p
        time.sleep(0.05)
        for k, p in list(running.items()):
            if not p.is_alive():
                p.join()
                f = os.path.join(tmp, str(k))
                try:
                    results[k] = json.load(open(f))
                except Exception:
                    results[k] = dict(error="the verifier process died (exit {})".format(p.exitcode))
                del running[k]
            elif time.time() > deadline + 20:
                p.kill()
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    res = dict(id=a.id, wall=round(time.time() - t0, 2), units=[])
    for k in sorted(results):
        u = units[k]
        r = results[k]
        if "error" in r:
            r = dict(unit=u.name, functions=list(u.functions), obligations={}, unsupported=["verifier error: " + r["error"]], trusted=[], wall=0, queries=0,
                     solver_time=0, paths=0, infeasible=0, notes=[])
        res["units"].append(r)
    txt = json.dumps(res)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        for r in res["units"]:
            print("== {} [{} paths, {} infeasible, {} queries, solver {} s, wall {} s, vacuous {}]".format(
                r["unit"], r["paths"], r["infeasible"], r["queries"], r["solver_time"], r["wall"], r.get("vacuous_paths")))
            for n, o in r["obligations"].items():
                print("   {:8s} x{:<3d} {:6.2f}s {}{}".format(o["status"], o["n"], o["time"], n, "" if o["status"] == "proved" else "\n        " + str(o["detail"])[:1500]))
            for s in r["unsupported"]:
                print("   UNSUPPORTED", s)
            for s in r["trusted"]:
                print("   trusted:", s)
        print("wall", res["wall"])


if __name__ == "__main__":
    main()
