#!/usr/bin/env python3
"""Decide one property: checks/check.py <id> [quick|thorough]
exit 0: held on everything analysed; 1: VIOLATION line(s); 2: the analysis itself failed."""
import hashlib
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry                                   # noqa: E402
from checks.parts import Finding, Outcome                     # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("known: property="):
            head, _, what = l[len("known: property="):].partition(" ")
            if head == pid:
                key, _, text = what.partition(" | ")
                out[key.strip()] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = registry.BY_ID[pid]
    out = Outcome()
    needs = set()
    for part in spec["parts"]:
        needs |= set(part.needs)
    if "mir" in needs:
        r = subprocess.run([os.path.join(V, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 4:
            # does the library itself still build?
            c = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", os.path.join(V, ".build", "plain")],
                               cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode == 0:
                out.findings.append(Finding("api", "an operation this property speaks about no longer exists with its public signature",
                                            {"compiler": r.stdout[-6000:]}))
            else:
                print("ANALYSIS-ERROR: /repo does not compile\n" + r.stdout[-3000:])
                return 2
        elif r.returncode != 0:
            print("ANALYSIS-ERROR: the analyser does not build\n" + r.stdout[-3000:])
            return 2
    if not out.findings:
        for part in spec["parts"]:
            part.run(out, tier, pid)
    kn = known(pid)
    bad, seen = [], set()
    for f in out.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        if f.key in kn:
            print(f"KNOWN-FINDING: property={pid} {f.key}: {kn[f.key]}")
        else:
            bad.append(f)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    for f in bad:
        h = hashlib.sha1(f.key.encode()).hexdigest()[:8]
        path = os.path.join(V, "evidence", f"violation-{pid}-{h}.json")
        json.dump({"property": pid, "construct": f.key, "what": f.text, **f.detail}, open(path, "w"), indent=1, default=str)
        print(f"  {f.key}: {f.text}")
        print(f"VIOLATION property={pid} replay={path}")
    cov = dict(out.coverage)
    cov["functions_analysed"] = sorted(out.fns)
    cov["undecided"] = out.undecided
    if spec["level"] == "proof":
        cov["obligations"] = out.obligations
        cov["discharged"] = out.discharged
        cov["checker_cmd"] = f"python3 checks/check.py {pid} {tier}"
        cov["trusted_base"] = registry.TRUSTED
    else:
        cov["rule_instances"] = out.obligations
        cov["rule_instances_holding"] = out.discharged
        cov["explanation"] = spec["level_note"]
    if out.samples:
        cov["samples"] = out.samples[:6]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []) + out.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for u in out.undecided:
        print("UNDECIDED:", u if isinstance(u, str) else json.dumps(u)[:300])
    print(f"{pid}: {out.discharged}/{out.obligations} discharged, {len(out.undecided)} undecided, {len(bad)} violations, {time.time() - t0:.1f} s")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
