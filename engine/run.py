"""Decide obligations: pass 1 proves by abstract interpretation with joins; whatever is not
proved is re-examined by the trace-partitioned interpretation, which must exhibit a concrete
abstract trace (no join, no approximated step) that ends in a violating state."""
import multiprocessing as mp
import os
import re
import signal
import time
import traceback
from . import models
from .interp import Engine, Program, Fork, Prune, Unsupported
from .specs import B, Fail, PROFILES, SCRIPTS


class Result:
    def __init__(self, ob):
        self.name = ob.name
        self.root = ob.root
        self.status = None      # proved | violated | undecided
        self.kind = None
        self.msg = None
        self.where = None
        self.trace = None
        self.steps = 0
        self.paths = 0
        self.wall = 0.0
        self.fns = ()
        self.reason = None
        self.pass2 = None
        self.pass3 = None


def judge(e, ob, b, out, kinds):
    """None when the outcome meets the specification, else (kind, message)"""
    tag, st, v, where = out
    e.st = st
    e.tape, e.tpos = [], 0
    if tag == "ret":
        try:
            ob.check(e, b, v)
        except Fail as f:
            if kinds and f.kind not in kinds:
                return None
            return (f.kind, str(f))
        except Fork:
            return ("undecided", "specification not decided by the final state")
        except Prune:
            return None
        return None
    if tag == "cut":
        try:
            if not ob.inv:
                ob.check(e, b, None)
        except Fail as f:
            return ("undecided", f"at the loop head: {f}")
        except Fork:
            return ("undecided", "specification not decided by the state at the loop head")
        except Prune:
            return None
        return None
    if tag == "panic":
        if ob.panics and ob.panics(e, b):
            return None
        if kinds and "panic" not in kinds:
            return None
        return ("panic", f"panic: {v}")
    return ("undecided", f"{tag}: {v} at {where}")


def trace_of(st):
    out = []
    t = st.trace
    while t is not None:
        out.append(t[1:])
        t = t[0]
    return out[::-1]


def decide(prog, ob, kinds=None, tier="quick"):
    r = Result(ob)
    t0 = time.time()
    bad = None
    fns = set()
    if ob.exact_only:
        r.reason = ("undecided", "decided path by path only")
        r.status = "undecided"
        exact(prog, ob, kinds, tier, r, fns)
        r.fns = sorted({prog.fns[f]["path"] for f in fns if prog.fns[f]["crate"] == "vec_collections"})
        r.wall = time.time() - t0
        return r
    try:
        b = B(prog, ob.root, False)
        ob.build(b)
        e = Engine(prog, models, budget=(60000 if not ob.hard else 10**6) if tier == "quick" else 10**7,
                   deadline=t0 + ((ob.hard or 60) if tier == "quick" else 300))
        if ob.cut:
            e.cut = re.compile(ob.cut)
        if ob.inv:
            e.invs, e.spec_fail = ob.inv, Fail
        fails = []

        def failing(o):
            j = judge(e, ob, b, o, kinds)
            if j:
                fails.append(j)
            return j is not None
        s0 = b.done()
        if ob.cut:
            e.cut_entry = e.cut_state(s0)
        outs = e.run([s0], failing)
        fns |= e.visited_fns
        r.steps, r.paths = e.steps, len(outs)
        if not fails and outs and outs[-1][0] == "budget":
            failing(outs[-1])
        if fails:
            bad = fails[0]
    except Exception as x:        # an engine defect must never look like a proof
        bad = ("undecided", f"analyser: {type(x).__name__}: {x}")
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    if bad is None:
        r.status = "proved"
    else:
        r.reason = bad
        r.status = "undecided"
    r.fns = sorted({prog.fns[f]["path"] for f in fns if prog.fns[f]["crate"] == "vec_collections"})
    r.wall = time.time() - t0
    return r


def reexamine(prog, ob, kinds, tier, r):
    """second pass over an obligation the first could not prove"""
    t0 = time.time()
    fns = set()
    exact(prog, ob, kinds, tier, r, fns)
    r.fns = sorted(set(r.fns) | {prog.fns[f]["path"] for f in fns if prog.fns[f]["crate"] == "vec_collections"})
    r.wall += time.time() - t0


def exact(prog, ob, kinds, tier, r, fns):
    t0 = time.time()
    limit = (60 if ob.hard else 25) if tier == "quick" else 300
    for u in ((5000,) if ob.exact_only else (2, 12, 20) if ob.deep else (1, 2, 3, 4, 5, 6) if ob.hard or tier != "quick" else (1, 2, 3, 4)):
        try:
            b = B(prog, ob.root, True)
            ob.build(b)
            e = Engine(prog, models, exact=True, unroll=u, budget=(150000 if ob.hard else 40000) if tier == "quick" else 1000000,
                       deadline=t0 + limit)
            e.ranked = ob.ranked
            hit = []

            def stop(o):
                if o[0] not in ("ret", "panic") or o[1].lossy:
                    return False
                j = judge(e, ob, b, o, kinds)
                if j and j[0] != "undecided":
                    hit.append((j, o))
                    return True
                return False
            outs = e.run([b.done()], stop)
            fns |= e.visited_fns
            r.steps += e.steps
            if hit:
                j, o = hit[0]
                r.status = "violated"
                r.kind, r.msg = j
                r.where = o[3]
                r.trace = trace_of(o[1])
                r.final = f"constraints {[str(c) + ' >= 0' for c in o[1].cons]}; order {o[1].order}; facts { {str(k): v for k, v in o[1].facts.items()} }"
                return
            un = [o for o in outs if o[0] in ("unsup", "budget")]
            if ob.exact_only and not un and not e.truncated and outs and not any(o[1].lossy or judge(e, ob, b, o, kinds) for o in outs):
                r.status = "proved"
                r.paths = len(outs)
                return
            r.pass2 = f"unroll {u}: {len(outs)} paths, no violating trace" + (f"; {len(un)} unsupported, e.g. {un[0][2]}" if un else "")
            if time.time() - t0 > limit or not e.truncated:
                return
        except Exception as x:
            r.pass2 = f"analyser: {type(x).__name__}: {x}"
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return


class Late(BaseException):
    """the time of one pattern is used up, in the middle of a step if need be"""


def _late(*_):
    raise Late()


def long_operands(prog, ob, kinds, tier, r):
    """third pass: operands of many elements whose order is known from the start, path by path"""
    t0 = time.time()
    limit = 60 if tier == "quick" else 600
    fns = set()
    done = part = 0
    hit = []
    each = 25 if tier == "quick" else 120
    signal.signal(signal.SIGALRM, _late)
    for pr in PROFILES + SCRIPTS:
        if time.time() - t0 > limit:
            break
        try:
            signal.setitimer(signal.ITIMER_REAL, each)
            b = B(prog, ob.root, True, pr)
            ob.build(b)
            if not b.profiled or ("script" in pr) != ("script" in b.st.ghost or getattr(b, "listed", False)):
                continue
            e = Engine(prog, models, exact=True, unroll=10 ** 6, budget=10 ** 6, deadline=time.time() + each)
            e.ranked = True

            def stop(o):
                if o[0] not in ("ret", "panic") or o[1].lossy:
                    return False
                j = judge(e, ob, b, o, kinds)
                if j and j[0] != "undecided":
                    hit.append((j, o))
                    return True
                return False
            outs = e.run([b.done()], stop)
            signal.setitimer(signal.ITIMER_REAL, 0)
            fns |= e.visited_fns
            r.steps += e.steps
        except Late:
            part += 1
            if not hit:
                continue
        except Exception as x:
            r.pass3 = f"analyser: {type(x).__name__}: {x}"
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            continue
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if hit:
            j, o = hit[0]
            r.status = "violated"
            r.kind, r.msg = j
            r.where = o[3]
            r.trace = trace_of(o[1])
            r.final = f"operands of known order: {pr}; facts { {str(k): v for k, v in o[1].facts.items()} }"
            break
        un = [o for o in outs if o[0] in ("unsup", "budget")]
        if os.environ.get("VERIF_DEBUG"):
            print("pass 3", ob.name, str(pr)[:60], len(outs), [str(o[2])[:100] for o in un][:3], e.steps, round(time.time() - t0, 1))
        done += not un
        part += bool(un)
    if done or part:
        r.pass3 = f"{done} patterns of long operands explored, {part} in part" + ("" if hit else ", no violating trace")
    r.fns = sorted(set(r.fns) | {prog.fns[f]["path"] for f in fns if prog.fns[f]["crate"] == "vec_collections"})
    r.wall += time.time() - t0


_S = {}
QUICK_WALL = 560        # seconds after which a quick run leaves what is open undecided
ENOUGH = 8              # violations after which, with time running, the rest of the open obligations is not re-examined


def _work(i):
    if time.time() > _S["end"]:
        r = Result(_S["obs"][i])
        r.status = "undecided"
        r.reason = ("undecided", "time budget of the run exhausted")
        r.late = True
        return i, r
    return i, decide(_S["prog"], _S["obs"][i], _S["kinds"], _S["tier"])


def _again(a):
    i, r = a
    if time.time() < _S["end"]:
        reexamine(_S["prog"], _S["obs"][i], _S["kinds"], _S["tier"], r)
    else:
        r.pass2 = "time budget of the run exhausted"
    return i, r


def _long(a):
    i, r = a
    if time.time() < _S["end"]:
        long_operands(_S["prog"], _S["obs"][i], _S["kinds"], _S["tier"], r)
    return i, r


def run_all(prog, obs, kinds=None, tier="quick", jobs=None):
    t0 = time.time()
    _S.update(prog=prog, obs=obs, kinds=kinds, tier=tier, end=t0 + (QUICK_WALL if tier == "quick" else 10 ** 6))
    out = [None] * len(obs)
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as p:
        for i, r in p.imap_unordered(_work, range(len(obs)), chunksize=1):
            out[i] = r
        # the open ones, those of different roots first
        open_, nth = [], {}
        for i, r in enumerate(out):
            ob = _S["obs"][i]
            if r.status == "undecided" and not ob.prove_only and not ob.exact_only and not getattr(r, "late", False):
                nth[r.root] = nth.get(r.root, 0) + 1
                open_.append((nth[r.root], i))
        bad = sum(r.status == "violated" for r in out)
        order = [i for _, i in sorted(open_)]
        for i, r in p.imap_unordered(_again, [(i, out[i]) for i in order], chunksize=1):
            out[i] = r
            bad += r.status == "violated"
            if tier == "quick" and bad >= ENOUGH and time.time() - t0 > 120:
                break
        else:
            for i, r in p.imap_unordered(_long, [(i, out[i]) for i in order if out[i].status == "undecided"], chunksize=1):
                out[i] = r
                bad += r.status == "violated"
                if tier == "quick" and bad >= ENOUGH and time.time() - t0 > 120:
                    break
    return out
