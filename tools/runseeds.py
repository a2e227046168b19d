#!/usr/bin/env python3
"""Development aid: applies each planted change to /repo, runs its property's
check (or all with --all), restores /repo. usage: runseeds.py [--all] [ID...]"""
import json, os, subprocess, sys, time
S="/verif/seeded"
allc="--all" in sys.argv
ids=[a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
for i in ids:
    p=json.load(open(f"{S}/{i}/meta.json"))["property"]
    assert subprocess.run(["git","-C","/repo","status","--porcelain","-uno"],capture_output=True,text=True).stdout==""
    subprocess.run(["git","-C","/repo","apply",f"{S}/{i}/patch.diff"],check=True)
    try:
        for c in ([f"C{n:02d}" for n in range(1,18)] if allc else [p]):
            t=time.time()
            r=subprocess.run(["python3","check.py",c,"quick"],cwd="/verif",capture_output=True,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i} own={p} {c}: rc={r.returncode} {time.time()-t:.0f}s {v[:1]}",flush=True)
            if r.returncode not in(0,1) : print(r.stdout[-500:],r.stderr[-500:])
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."],check=True)
