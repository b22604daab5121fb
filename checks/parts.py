"""Building blocks of checks: findings, outcomes and the parts that produce them."""
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """a violation: `key` is stable (no line numbers), `detail` a dict written to the replay file"""

    def __init__(self, key, text, detail):
        self.key = key
        self.text = text
        self.detail = detail


class Outcome:
    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.coverage = {}
        self.samples = []
        self.fns = set()
        self.assumptions = []


class Obligations:
    """part: abstract-interpretation obligations"""
    needs = ("mir",)

    def __init__(self, make, kinds=None, floor=1):
        self.make = make
        self.kinds = kinds
        self.floor = floor

    def run(self, out, tier, pid):
        from engine import run, interp
        obs = self.make()
        if len(obs) < self.floor:
            raise RuntimeError(f"only {len(obs)} obligations, expected at least {self.floor}")
        prog = interp.Program(os.path.join(V, ".build", "mir.json"))
        rs = run.run_all(prog, obs, self.kinds, tier)
        bykey = {}
        for r in rs:
            out.obligations += 1
            out.fns |= set(r.fns)
            if r.status == "proved":
                out.discharged += 1
                out.samples.append({"obligation": r.name, "steps": r.steps, "paths": r.paths})
            elif r.status == "undecided":
                out.undecided.append({"obligation": r.name, "pass1": r.reason, "pass2": r.pass2, "pass3": r.pass3})
            else:
                key = f"{r.root} {r.kind}"
                bykey.setdefault(key, []).append(r)
        for key, l in bykey.items():
            r = min(l, key=lambda r: len(r.trace or ()))
            at = f" (in {r.where[0]}, {r.where[1]})" if r.where else ""
            out.findings.append(Finding(key, f"{r.name}: {r.msg}{at}", {
                "obligation": r.name, "kind": r.kind, "message": r.msg, "where": r.where, "trace": r.trace, "state": r.final,
                "functions": r.fns, "also": [x.name for x in l if x is not r]}))
        out.coverage["abstract_steps"] = out.coverage.get("abstract_steps", 0) + sum(r.steps for r in rs)
        out.coverage["abstract_paths"] = out.coverage.get("abstract_paths", 0) + sum(r.paths for r in rs)
        out.coverage["roots"] = sorted(set(out.coverage.get("roots", [])) | {o.root for o in obs})
