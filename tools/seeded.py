#!/usr/bin/env python3
"""Confirms seeded changes in scratch copies and runs the quick check of their property against each.

tools/seeded.py [--no-check] [--missed] [id ...]; results go to tools/seeded_results.json.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.environ.get("SEEDED_DIR", os.path.join(V, "seeded"))
RES = os.environ.get("SEEDED_RES", os.path.join(V, "tools", "seeded_results.json"))
ENV = dict(l.split("=", 1) for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines() if "=" in l)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = sys.argv[1:]
nocheck = "--no-check" in args
missed = "--missed" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SD))
res = json.load(open(RES)) if os.path.exists(RES) else {}
if missed:
    ids = [i for i in ids if not str(res.get(i, "")).startswith("yes")]


def demo(i, repo):
    with tempfile.TemporaryDirectory(prefix="sdemo") as t:
        d = os.path.join(t, "d")
        shutil.copytree(os.path.join(SD, i), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300, env=ENV)
        return p.returncode, (p.stdout + p.stderr)[-300:]


def prepare(i):
    t = tempfile.mkdtemp(prefix="seed_" + i + "_", dir="/tmp")
    repo = os.path.join(t, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    why = None
    try:
        rc, out = demo(i, repo)
        if rc != 0:
            why = "demo fails on the unchanged tree: " + out
        if not why and subprocess.run(["git", "-C", repo, "apply", os.path.join(SD, i, "patch.diff")]).returncode:
            why = "does not apply"
        if not why and subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV).returncode:
            why = "does not build"
        if not why:
            p = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=repo, env=ENV, capture_output=True, text=True)
            ok = set()
            for l in p.stdout.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Action") == "pass" and e.get("Test"):
                    ok.add(e["Package"] + "::" + e["Test"])
                    ok.add(e["Package"] + "/" + e["Test"])
                    ok.add(e["Test"])
            miss = [s for s in STABLE if s not in ok and s.split("::")[-1] not in ok and s.split(" ")[-1] not in ok]
            if miss:
                why = "stable tests fail: %s" % miss[:3]
        if not why:
            rc, out = demo(i, repo)
            if rc == 0:
                why = "demo passes with the change"
    except Exception as e:
        why = repr(e)
    return i, t, repo, why


ex = ThreadPoolExecutor(4)
vs = tempfile.mkdtemp(prefix="seed_verif_", dir="/tmp")
for n in ("check.py", "fw", "props", "known_findings.txt", "properties.jsonl"):
    subprocess.run(["cp", "-a", os.path.join(V, n), vs], check=True)
os.makedirs(os.path.join(vs, "evidence"), exist_ok=True)
bad = 0
try:
    for i, t, repo, why in ex.map(prepare, ids):
        if why:
            print("INVALID", i, why, flush=True)
            res[i] = "invalid: " + why[:100]
            bad += 1
        elif not nocheck:
            prop = json.load(open(os.path.join(SD, i, "meta.json")))["property"]
            t0 = time.time()
            p = subprocess.run([sys.executable, "check.py", prop], cwd=vs, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
            if p.returncode == 1 and v:
                res[i] = "yes"
            else:
                res[i] = "no (status %d)" % p.returncode
            print("%-7s %s %s %.0f s %s" % ("CAUGHT" if v else "MISSED", i, prop, time.time() - t0, "" if v else p.stdout[-300:]), flush=True)
        else:
            print("VALID", i, flush=True)
        shutil.rmtree(t, ignore_errors=True)
finally:
    shutil.rmtree(vs, ignore_errors=True)
    if not nocheck:
        res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(SD, k))}
        json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
        open(RES, "a").write("\n")
