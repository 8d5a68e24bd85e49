#!/usr/bin/env python3
"""Runs every check against every planted bug in scratch copies and writes
tools/seeds.json (used by gen.py for the table in DESIGN.md)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
ids = [p["id"] for p in P]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
t = tempfile.mkdtemp(prefix="seedeval.", dir="/tmp")
try:
    sc = os.path.join(t, "sc")
    subprocess.check_call(["go", "build", "-o", sc, "."], cwd=os.path.join(root, "analyzer"), env=dict(env, GOFLAGS="-mod=vendor"))
    def one(s):
        w = os.path.join(t, s); subprocess.check_call(["cp", "-a", "/repo", w])
        r = subprocess.run(["git", "apply", os.path.join(root, "seeded", s, "patch.diff")], cwd=w)
        if r.returncode: return s, None
        hit = []
        for i in ids:
            o = os.path.join(t, s + ".out", i); os.makedirs(o)
            x = subprocess.run([sc, i], env=dict(env, GOFLAGS="-mod=mod", REPO=w, VERIF_ROOT=o), stdout=subprocess.PIPE, text=True)
            if x.returncode == 1: hit.append(i)
            elif x.returncode: hit.append(i + "!")
        shutil.rmtree(w)
        return s, hit
    res = {}
    with ThreadPoolExecutor(4) as ex:
        for s, h in ex.map(one, sorted(os.listdir(os.path.join(root, "seeded")))):
            m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
            res[s] = {"property": m["property"], "needs": m["needs"], "caught_by": h}
            if h is None or m["property"] not in h: print("NOT CAUGHT", s, m["property"], h)
    json.dump(res, open(os.path.join(here, "seeds.json"), "w"), indent=1, sort_keys=True)
    print(len(res), "planted bugs")
finally:
    shutil.rmtree(t)
