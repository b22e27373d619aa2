#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current source:
  1. the deductive verifier (dv/) generates the obligations of the property from the current
     source and discharges them with z3;
  2. runtime contracts (rt/) evaluate the same property on the real code: they replay, look for
     failing inputs of failed obligations, and stand in (bounded) for what the verifier cannot reach.
Exit 0: held; exit 1 with `VIOLATION property=<id> replay=<path> ...`: broken.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYSYM = os.environ.get("VERIF_PYSYM", "/opt/veriftools/pyvenv/bin/python")
PYREAL = os.environ.get("VERIF_PYREAL", "/opt/venv/bin/python")
REPO = os.environ.get("FM_REPO", "/repo")


def env(real):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", FM_REPO=REPO, PYTHONHASHSEED="0")
    if real:
        e.update(MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        e.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mplconfig_verif"))
    else:
        e["PYTHONPATH"] = HERE
    return e


def start_rt(pid, seed, seconds, out, replay=None):
    cmd = [PYREAL, "-W", "ignore", os.path.join(HERE, "rt", "run.py"), pid, "--seed", str(seed), "--seconds", str(seconds), "--out", out]
    if replay:
        cmd += ["--replay", replay]
    return subprocess.Popen(cmd, cwd=tempfile.gettempdir(), env=env(True), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def stop(p):
    """ends a process started with its own session, and its children"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def wait_rt(procs, limit):
    res = []
    for p, out in procs:
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            res.append(json.load(open(out)))
        except Exception:
            res.append(dict(evaluations=0, nontrivial=0, violation=None, error=None, lost=True, samples=[]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid, t0 = a.id, time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    tmp = tempfile.mkdtemp(prefix="verif_{}_".format(pid))
    try:
        return decide(pid, seed, tier, tmp, a.replay, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def save_replay(pid, content):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(content, indent=1, default=str)
    path = os.path.join(d, "{}-{}.json".format(pid, hashlib.sha1(txt.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(txt)
    return path


def decide(pid, seed, tier, tmp, replay, t0):
    if replay:
        c = json.load(open(replay))
        if c.get("case") is None:
            print("the replay file names the failed obligations; re-running the verifier")
        else:
            out = os.path.join(tmp, "r.json")
            r = wait_rt([(start_rt(pid, seed, 60, out, replay), out)], time.time() + 300)[0]
            v = r.get("violation")
            print("replayed on the real code: {}".format(v["msg"] if v else "no violation"))
            return 1 if v else 0
    quick = tier == "quick"
    dvtime = 330 if quick else 1500
    out = os.path.join(tmp, "dv.json")
    dv = subprocess.Popen([PYSYM, "-W", "ignore", "-m", "dv.run", pid, "--seconds", str(dvtime), "--out", out, "--jobs", "6"], cwd=HERE, env=env(False),
                          stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "dv.err"), "wb"), start_new_session=True)
    rsec = 25 if quick else 300
    procs = []
    for k in range(2):
        o = os.path.join(tmp, "rt{}.json".format(k))
        procs.append((start_rt(pid, seed + 1000 * k, rsec, o), o))
    rts = wait_rt(procs, time.time() + rsec + (120 if quick else 300))
    viol = [r for r in rts if r.get("violation")]
    err = None
    if viol:
        # a failing input on the real code: the verdict does not need the verifier any more
        try:
            dv.wait(timeout=20)
        except subprocess.TimeoutExpired:
            stop(dv)
    else:
        try:
            dv.wait(timeout=max(5, t0 + dvtime + 60 - time.time()))
            err = open(os.path.join(tmp, "dv.err"), errors="replace").read()[-1500:] or "exit {}".format(dv.returncode) if dv.returncode else None
        except subprocess.TimeoutExpired:
            err = "the verifier ran out of time"
    stop(dv)
    try:
        D = json.load(open(out))
    except Exception:
        D = dict(units=[], wall=0)
        err = err or "no verifier output"
    failed, unk, open_units, nob, nok, qs, st = [], [], [], 0, 0, 0, 0.
    backends, trusted, fns, obl = {}, set(), set(), []
    if err:
        open_units.append(dict(unit="verifier", reason=err))
    for u in D["units"]:
        fns.update(u["functions"])
        trusted.update(u["trusted"])
        qs += u["queries"]
        st += u["solver_time"]
        for n, o in u["obligations"].items():
            nob += 1
            obl.append([u["unit"], n, o["status"], o["n"], o["time"]])
            if o["status"] == "proved":
                nok += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["status"] == "refuted":
                failed.append(dict(unit=u["unit"], obligation=n, detail=o["detail"]))
            else:
                unk.append(dict(unit=u["unit"], obligation=n, detail=o["detail"]))
        for s in u["unsupported"]:
            open_units.append(dict(unit=u["unit"], reason=s))
    extended = False
    if not viol and (failed or unk or open_units):
        # look for a failing input / bounded stand-in on the real code
        extended = True
        esec = (75 if failed else 50) if quick else 400
        procs = []
        for k in range(7):
            o = os.path.join(tmp, "rtx{}.json".format(k))
            procs.append((start_rt(pid, seed + 77 + 1000 * (k + 2), esec, o), o))
        more = wait_rt(procs, time.time() + esec + (150 if quick else 300))
        rts += more
        viol = [r for r in more if r.get("violation")]
    harness = [r for r in rts if r.get("error") and not r.get("violation")]
    if not viol and harness and any(r.get("case") is not None for r in harness):
        # the result of the code could not even be read by the contract
        r = [r for r in harness if r.get("case") is not None][0]
        r["violation"] = dict(case=r["case"], msg="the contract could not be evaluated on the result: " + r["error"][-800:])
        viol = [r]
    code = 0
    nviol = 0
    if viol:
        v = viol[0]["violation"]
        path = save_replay(pid, dict(property=pid, case=v["case"], message=v["msg"], failed_obligations=failed[:5]))
        print("property {} fails on the real code: {}".format(pid, v["msg"][:600]))
        for f in failed[:5]:
            print("failed obligation [{}] {}".format(f["unit"], f["obligation"]))
        print("VIOLATION property={} replay={}".format(pid, path))
        code, nviol = 1, 1
    elif failed:
        path = save_replay(pid, dict(property=pid, case=None, failed_obligations=failed[:10]))
        for f in failed[:10]:
            print("failed obligation [{}] {}: {}".format(f["unit"], f["obligation"], str(f["detail"])[:500]))
        print("VIOLATION property={} replay={} no-failing-input-found".format(pid, path))
        code, nviol = 1, len(failed)
    else:
        print("property {}: {} of {} obligations discharged; runtime contracts held on {} inputs".format(
            pid, nok, nob, sum(r.get("evaluations", 0) for r in rts)))
        for q in open_units:
            print("bounded stand-in for unit [{}]: {}".format(q["unit"], q["reason"][:300]))
        for q in unk:
            print("bounded stand-in for obligation [{}] {}".format(q["unit"], q["obligation"]))
    for line in known(pid):
        print(line)
    nt = sum(r.get("nontrivial", 0) for r in rts)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL(pid), wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(
                  obligations=nob, discharged=nok, checker_cmd="python3-vt -m dv.run {} (in /verif, FM_REPO={})".format(pid, REPO),
                  trusted_base=sorted(trusted) + TRUST, back_ends=backends, solver_queries=qs, solver_seconds=round(st, 2),
                  functions_under_contract=sorted(fns), obligations_list=obl[:260],
                  failed_obligations=[[f["unit"], f["obligation"]] for f in failed][:40],
                  undischarged_bounded=[[f["unit"], f["obligation"]] for f in unk][:40],
                  units_not_reached_bounded=open_units[:20],
                  evaluations=sum(r.get("evaluations", 0) for r in rts), distinct_nontrivial=nt,
                  rule="runtime contracts of the property on the real code: random valid inputs, sizes stepped up; distinct by full case; non-trivial as returned by the contract (rt/props.py {})".format(pid),
                  runtime_search="extended" if extended else "standard",
                  bounded_note="runtime evaluations are bounded testing of the same contract; they are never counted in `discharged`",
                  samples=[s for r in rts for s in r.get("samples", [])][:2]),
              assumptions=ASSUME)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, default=str)
    if len(txt) > 60000:
        ev["coverage"]["obligations_list"] = ev["coverage"]["obligations_list"][:60]
        ev["coverage"]["samples"] = [json.dumps(s, default=str)[:1500] for s in ev["coverage"]["samples"]]
        txt = json.dumps(ev, default=str)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        f.write(txt)
    return code


def LEVEL(pid):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"


def known(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if line.startswith("finding: property={} ".format(pid)):
                out.append("KNOWN-FINDING: " + line[len("finding: "):].strip())
    except OSError:
        pass
    return out


TRUST = [
    "the verification engine dv/ itself (symbolic execution of the real source by the CPython interpreter, obligation generation) and z3",
    "the contracts of the numpy/pandas/scipy/... operations used (dv/snp.py, dv/spd.py, dv/arr.py and the stubs of dv/specs), assumed for the installed versions",
]
ASSUME = [
    "floating-point numbers are treated as real numbers (no rounding); integers as unbounded",
    "termination is not proved, except for bounded loops",
    "the source is loaded from the working tree with docstrings dropped and loops/comprehensions/starred lists routed through hooks; nothing else is changed",
]

if __name__ == "__main__":
    sys.exit(main())
