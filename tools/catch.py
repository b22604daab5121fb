#!/usr/bin/env python3
"""tools/catch.py [-w WORKERS] [-c C01,C02] [id ...]: apply each planted bug to a scratch copy of /repo and run its property's check
(or the ones given with -c) of a scratch copy of /verif on it."""
import json, multiprocessing, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import quiet
from quiet import sh, V


def prepare(n):
    d = f"/tmp/catch/{n}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude seeded --exclude .git {V}/ {d}/verif/")
    sh(f"rsync -a --delete --exclude target /repo/ {d}/repo/")
    sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/harness/Cargo.toml {d}/verif/checks/*.py {d}/verif/engine/*.py")
    return d


def job(n, q, checks):
    d = prepare(n)
    while True:
        try:
            id = q.get_nowait()
        except Exception:
            return
        s = f"{V}/seeded/{id}"
        meta = json.load(open(f"{s}/meta.json"))
        sh("git checkout -q -- .", cwd=f"{d}/repo")
        r = sh(f"git apply {s}/patch.diff", cwd=f"{d}/repo")
        if r.returncode:
            print(id, "PATCH DOES NOT APPLY", r.stdout, flush=True)
            continue
        for c in checks or [meta["property"]]:
            r = sh(f"timeout 900 python3 {d}/verif/checks/check.py {c} quick")
            l = r.stdout.strip().splitlines()
            v = [x for x in l if x.startswith("  ")][:2]
            print("CAUGHT" if r.returncode == 1 else "missed", id, c, "rc=%d" % r.returncode, (l or [""])[-1], "\n   " + "\n   ".join(x[:200] for x in v), flush=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    w, checks = 3, None
    while args and args[0] in ("-w", "-c"):
        if args[0] == "-w":
            w = int(args[1])
        else:
            checks = args[1].split(",")
        args = args[2:]
    m = multiprocessing.Manager()
    q = m.Queue()
    for id in args or sorted(os.listdir(f"{V}/seeded")):
        q.put(id)
    ps = [multiprocessing.Process(target=job, args=(n, q, checks)) for n in range(w)]
    [p.start() for p in ps]
    [p.join() for p in ps]
    sh("rm -rf /tmp/catch")
