#!/usr/bin/env python3
"""Make planted bugs: tools/mkseed.py SPECFILE [id ...]; each is confirmed in a scratch copy of /repo and written to seeded/<id>/.
A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], demo=<main.rs>, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seed_scratch/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    os.makedirs("/tmp/seed_scratch", exist_ok=True)
    if os.path.exists(SCR):
        sh(f"rsync -a --delete --exclude target /repo/ {SCR}/ || (rm -rf {SCR} && cp -a /repo {SCR})")
    else:
        sh(f"cp -a /repo {SCR}")
    sh("git checkout -q -- . && git clean -fdq src", cwd=SCR)
    for s in seeds:
        if want and s["id"] not in want:
            continue
        sh("git checkout -q -- .", cwd=SCR)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(SCR, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "EDIT MATCHES", n, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        patch = sh("git diff", cwd=SCR).stdout
        d = "/tmp/seed_scratch/d"
        sh(f"rm -rf {d}; mkdir -p {d}")
        open(f"{d}/demo.rs", "w").write(s["demo"])
        shutil.copy(os.path.join(V, "tools/demo.sh.in"), f"{d}/demo.sh")
        os.chmod(f"{d}/demo.sh", 0o755)
        if os.path.exists(os.path.join(V, "tools/demo.lock")):
            shutil.copy(os.path.join(V, "tools/demo.lock"), f"{d}/demo.lock")
        r = sh("CARGO_NET_OFFLINE=true cargo test --workspace --all-features --all-targets --no-run --locked --offline", cwd=SCR)
        if r.returncode:
            print(s["id"], "DOES NOT BUILD", r.stdout[-1500:])
            continue
        bad = 0
        for _ in range(s.get("runs", 3)):
            r = sh("CARGO_NET_OFFLINE=true cargo test --workspace --all-features --no-fail-fast --locked --offline -- --test-threads 8", cwd=SCR)
            if r.returncode:
                bad += 1
                fails = [l for l in r.stdout.splitlines() if l.endswith("FAILED") or "panicked" in l][:4]
        if bad:
            print(s["id"], "TESTS FAIL", bad, fails)
            continue
        r = sh(f"bash {d}/demo.sh", cwd=SCR)
        if r.returncode in (0, 3):
            print(s["id"], "DEMO", r.returncode, r.stdout[-800:])
            continue
        out1 = r.stdout[-300:]
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode:
            print(s["id"], "DEMO FAILS UNPATCHED", r.returncode, r.stdout[-800:])
            continue
        o = os.path.join(V, "seeded", s["id"])
        sh(f"rm -rf {o}; mkdir -p {o}; cp {d}/demo.* {o}/")
        open(f"{o}/patch.diff", "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
        print(s["id"], "OK", out1.strip().splitlines()[-1:] )
    sh("git checkout -q -- .", cwd=SCR)


main()
