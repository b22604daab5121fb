#!/usr/bin/env python3
"""tools/quiet.py [-w WORKERS] SPECFILE [id ...]: apply each behaviour-preserving edit to a scratch copy of /repo, run the named
checks of a scratch copy of /verif (the committed-or-not working tree) on it; report any check that is not quiet.
/repo itself is never touched; the scratch copies live under /tmp/quiet and are removed at the end."""
import multiprocessing, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare(n):
    d = f"/tmp/quiet/{n}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude seeded --exclude .git {V}/ {d}/verif/")
    sh(f"rsync -a --delete --exclude target /repo/ {d}/repo/")
    sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/harness/Cargo.toml {d}/verif/checks/*.py {d}/verif/engine/*.py")
    return d


def job(a):
    n, items, q = a
    d = prepare(n)
    while True:
        try:
            id, checks, edits = q.get_nowait()
        except Exception:
            return
        ok = True
        try:
            for f, old, new in edits:
                p = f"{d}/repo/" + f
                t = open(p).read()
                if old not in t:
                    print(id, "EDIT DOES NOT MATCH", repr(old[:60]), flush=True)
                    ok = False
                    break
                open(p, "w").write(t.replace(old, new, 1))
            if not ok:
                continue
            for c in checks:
                r = sh(f"timeout 900 python3 {d}/verif/checks/check.py {c} quick")
                last = r.stdout.strip().splitlines()[-1:] or [""]
                print(id, c, "rc=%d" % r.returncode, last[0], "" if r.returncode == 0 else "\n" + r.stdout[-1500:], flush=True)
        finally:
            sh("git checkout -q -- .", cwd=f"{d}/repo")


if __name__ == "__main__":
    args = sys.argv[1:]
    w = 4
    if args[0] == "-w":
        w = int(args[1])
        args = args[2:]
    skip = []
    if args[0] == "-x":
        skip = args[1].split(",")
        args = args[2:]
    m = multiprocessing.Manager()
    q = m.Queue()
    for it in runpy.run_path(args[0])["R"]:
        if not args[1:] or it[0] in args[1:]:
            q.put((it[0], [c for c in it[1] if c not in skip], it[2]))
    ps = [multiprocessing.Process(target=job, args=((n, None, q),)) for n in range(w)]
    [p.start() for p in ps]
    [p.join() for p in ps]
    sh("rm -rf /tmp/quiet")
