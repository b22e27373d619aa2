#!/usr/bin/env python3
"""Makes seeded/<id>/ from a plant description and confirms it in a scratch copy of /repo.

A plant file (python) defines: ID, PROPERTY, FILE, EDITS=[(old, new), ...], DEMO (python source,
asserting the property), NEEDS, BREAKS.   usage: plant.py FILE...   (developer tool, read by no check)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable(cwd):
    """the stable tests, run in a copy"""
    names = json.load(open("/opt/vp/BASELINE.json"))
    out = os.path.join(cwd, ".junit.xml")
    sh("COLUMNS=200 LINES=50 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true PYTHONPATH={0}/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors --doctest-modules --junitxml={1} test src/fibermat".format(cwd, out), cwd)
    import xml.etree.ElementTree as E
    ok, bad = set(), set()
    for tc in E.parse(out).getroot().iter("testcase"):
        (bad if tc.find("failure") is not None or tc.find("error") is not None else ok).add((tc.get("classname"), tc.get("name")))
    os.remove(out)
    return ok, bad


def main():
    base_ok = None
    for f in sys.argv[1:]:
        d = {}
        exec(open(f).read(), d)
        tmp = tempfile.mkdtemp(prefix="plant_")
        repo = os.path.join(tmp, "repo")
        try:
            sh("git -C /repo worktree prune; git clone -q /repo {}".format(repo), tmp)
            if base_ok is None:
                base_ok, _ = stable(repo)
            dst = os.path.join(HERE, "seeded", d["ID"])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
            open(os.path.join(dst, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(dst, "demo.sh"), 0o755)
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
            r0 = sh("bash {}/demo.sh".format(dst), repo)
            p = os.path.join(repo, d["FILE"])
            s = open(p).read()
            for o, n in d["EDITS"]:
                assert s.count(o) == 1, (f, s.count(o), o)
                s = s.replace(o, n)
            open(p, "w").write(s)
            open(os.path.join(dst, "patch.diff"), "w").write(sh("git diff", repo).stdout)
            r1 = sh("bash {}/demo.sh".format(dst), repo)
            ok, bad = stable(repo)
            lost = base_ok - ok
            good = r0.returncode == 0 and r1.returncode != 0 and not lost
            print(d["ID"], "OK" if good else "REJECTED", "clean", r0.returncode, "patched", r1.returncode, "lost tests", sorted(lost)[:3])
            if not good:
                print(r0.stdout[-600:] if r0.returncode else "", r1.stdout[-300:])
                shutil.rmtree(dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
