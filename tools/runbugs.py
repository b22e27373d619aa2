#!/usr/bin/env python3
"""runbugs.py [ID...]: runs the check of each planted bug's property on a scratch copy with the bug (developer tool)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    for b in sorted(os.listdir(S)):
        if b != i and not b.startswith(i + "-"):
            continue
        pid = json.load(open(os.path.join(S, b, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="bug_")
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo])
        r = subprocess.run(["git", "apply", os.path.join(S, b, "patch.diff")], cwd=repo)
        t0 = time.time()
        p = subprocess.run([sys.executable, "check.py", pid], cwd=HERE, env=dict(os.environ, FM_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        f = [l for l in p.stdout.splitlines() if l.startswith("failed obligation")]
        print("{:28s} {} exit {} {:4.0f}s {} {}".format(b, "CAUGHT" if p.returncode == 1 and v else "MISSED", p.returncode, time.time() - t0,
                                                      v[0].split()[-1][:40] if v else p.stdout[-300:], f[0][:150] if f else ""), flush=True)
        shutil.rmtree(tmp, ignore_errors=True)
