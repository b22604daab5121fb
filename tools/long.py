#!/usr/bin/env python3
"""tools/long.py [C01 ..] [-s SUBSTR]: run the third pass (long operands of known order) on every obligation, proved or not; it must find nothing on a tree where the properties hold."""
import multiprocessing as mp, os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry
from checks.parts import Obligations
from engine import run, interp

ids = [a for a in sys.argv[1:] if a[0] == "C"]
sub = sys.argv[sys.argv.index("-s") + 1] if "-s" in sys.argv else ""
prog = interp.Program(V + "/.build/mir.json")
jobs = []
for p in registry.P:
    if ids and p["id"] not in ids:
        continue
    for part in p["parts"]:
        if isinstance(part, Obligations):
            for o in part.make():
                if not o.exact_only and not o.prove_only and sub in o.root + o.name:
                    jobs.append((p["id"], part, o))


def go(i):
    c, part, o = jobs[i]
    r = run.Result(o)
    r.status = "undecided"
    t = time.time()
    run.long_operands(prog, o, part.kinds, "quick", r)
    return i, r, time.time() - t


with mp.get_context("fork").Pool(8) as pool:
    for i, r, t in pool.imap_unordered(go, range(len(jobs)), chunksize=1):
        if r.pass3 is None and r.status != "violated":
            continue
        bad = r.status == "violated" or " 0 in part" not in r.pass3 or t > 20
        if bad or "-v" in sys.argv:
            print(jobs[i][0], r.root, r.name, r.status, r.msg, r.pass3, round(t, 1), flush=True)
