"""Abstract interpreter over the monomorphic MIR dump (see DESIGN.md, section Engine)."""
import json
import re
import time
from zlib import crc32
from .num import ckey, Aff, ZERO, ONE, const, sym, entails, infeasible, affine_join, join_constraints
from .vals import *


TREES = ("tree", "atree")


class Unsupported(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Prune(Exception):
    pass


class Fork(Exception):
    """alternatives: list of (kind, payload): ('c', [ineqs], [eqs]) numeric or ('t', n) tape"""
    def __init__(self, alts=()):
        self.alts = alts


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.model_cache = {}
        self.summable = {}
        self.summaries = {}
        for i, f in enumerate(self.fns):
            f["id"] = i
            if "bbs" in f:
                self.prep(f)

    def tname(self, t):
        return self.types[t]["name"]

    def prep(self, f):
        bbs = f["bbs"]
        n = len(bbs)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(bbs):
            if b is None:
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "switch":
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                succ[i] = [t[3]]
            elif k == "call":
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == "assert":
                succ[i] = [t[4]]
            succ[i] = [s for s in succ[i] if bbs[s] is not None]
        # loop heads: DFS back edges
        heads = set()
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                stack.pop()
        f["heads"] = heads
        preds = [0] * n
        for i in range(n):
            for s in succ[i]:
                preds[s] += 1
        f["npred"] = preds
        # liveness of locals
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("cp", "mv"):
                pl_use(o[1], u, d)

        def rv_use(r, u, d):
            k = r[0]
            if k == "use":
                op_use(r[1], u, d)
            elif k in ("rep",):
                op_use(r[1], u, d)
            elif k in ("ref", "ptr", "disc"):
                pl_use(r[1], u, d)
            elif k == "cast":
                op_use(r[2], u, d)
            elif k == "bin":
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == "un":
                op_use(r[2], u, d)
            elif k == "agg":
                for o in r[4]:
                    op_use(o, u, d)

        def asg(p, u, d):
            if not p[1]:
                d.add(p[0])
            else:
                pl_use(p, u, d)

        for i, b in enumerate(bbs):
            if b is None:
                continue
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if s[0] == "=":
                    rv_use(s[2], u, d)
                    asg(s[1], u, d)
                elif s[0] == "sd":
                    pl_use(s[1], u, d)
                elif s[0] == "assume":
                    op_use(s[1], u, d)
            t = b["t"]
            if t[0] == "switch":
                op_use(t[1], u, d)
            elif t[0] == "drop":
                pl_use(t[1], u, d)
            elif t[0] == "call":
                if "op" in t[1]:
                    op_use(t[1]["op"], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                asg(t[3], u, d)
            elif t[0] == "assert":
                op_use(t[1], u, d)
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                new = use[i] | (o - dfn[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        f["live"] = live


class Frame:
    __slots__ = ("fn", "bb", "si", "dest", "target", "depth", "callsite")

    def __init__(self, fn, depth, dest, target, callsite):
        self.fn = fn
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.depth = depth
        self.callsite = callsite

    def copy(self):
        f = Frame(self.fn, self.depth, self.dest, self.target, self.callsite)
        f.bb = self.bb
        f.si = self.si
        return f


class State:
    __slots__ = ("frames", "mem", "cons", "nsym", "nheap", "facts", "log", "trace", "lossy", "visits",
                 "chains", "order", "nid", "ghost")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.cons = ()
        self.nsym = 0
        self.nheap = 0
        self.facts = {}
        self.log = ()
        self.trace = None
        self.lossy = False
        self.visits = {}
        self.chains = {}   # chain -> tuple of items ('p',tok) | ('e',id)
        self.order = ()    # facts (a, '<' | '=', b) among element ids
        self.nid = 0
        self.ghost = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.nsym = self.nsym
        s.nheap = self.nheap
        s.facts = dict(self.facts)
        s.log = self.log
        s.trace = self.trace
        s.lossy = self.lossy
        s.visits = dict(self.visits)
        s.chains = dict(self.chains)
        s.order = self.order
        s.nid = self.nid
        s.ghost = dict(self.ghost)
        return s

    # ---- numeric helpers -------------------------------------------------
    def fresh(self):
        v = sym(self.nsym)
        self.nsym += 1
        return v

    def add_con(self, e):
        if not e.t:
            if e.c < 0:
                raise Prune()
            return
        if e not in self.cons and not (e.c >= 0 and all(k > 0 for _, k in e.t)):
            self.cons = tuple(sorted(self.cons + (e,), key=ckey))

    def feasible(self):
        return not infeasible(self.cons)

    def apply_eq(self, e, limit):
        """assume e == 0 ; substitute when a unit-coefficient symbol exists"""
        for v, k in reversed(e.t):
            if abs(k) == 1 and v < limit:
                rest = Aff(e.c, tuple(x for x in e.t if x[0] != v))
                val = -rest if k == 1 else rest
                self.subst(v, val)
                self.add_con(val)
                return
        self.add_con(e)
        self.add_con(-e)

    def subst(self, v, val):
        def fn(x):
            return x.subst(v, val) if isinstance(x, Aff) else x
        self.mem = {r: map_val(x, fn) for r, x in self.mem.items()}
        for f in self.frames:
            if f.dest is not None:
                f.dest = map_val(f.dest, fn)
        self.log = tuple(map_val(x, fn) if not isinstance(x, (str, int)) else x for x in self.log)
        self.ghost = {k: map_val(x, fn) for k, x in self.ghost.items()}
        nc = []
        for c in self.cons:
            c = c.subst(v, val)
            if not c.t:
                if c.c < 0:
                    raise Prune()
                continue
            nc.append(c)
        self.cons = tuple(sorted(set(nc), key=ckey))


class Engine:
    def __init__(self, prog, models, exact=False, unroll=3, budget=200000, deadline=None):
        self.p = prog
        self.models = models
        self.exact = exact
        self.unroll = unroll
        self.budget = budget
        self.deadline = deadline
        self.cut = None
        self.cut_entry = None
        self.invs = ()
        self.ranked = False
        self.snaps = []
        self.steps = 0
        self.tape = []
        self.tpos = 0
        self.st = None
        self.pre_nsym = 0
        self.visited_fns = set()
        self.truncated = False
        self.arrivals = 0
        self.zst_cache = {}
        self.callcount = 0
        self.max_depth = 60
        self.zone_ints = False
        from . import radix
        self.radix = radix

    # ---- nondeterminism --------------------------------------------------
    def choice(self, n, note=None):
        if n == 1:
            return 0
        if self.tpos < len(self.tape):
            c = self.tape[self.tpos]
            self.tpos += 1
            if note:
                self.note(f"{note}: {c}")
            return c
        raise Fork([("t", i) for i in range(n)])

    def answer(self, n, what, tracked):
        """answer of an unknown function; operands of known order: only answers about the tracked element are all explored"""
        if not self.ranked or tracked:
            return self.choice(n)
        v = self.st.ghost.get("variation")
        if v is None:
            v = self.choice(3)
            self.st.ghost["variation"] = const(v)
        else:
            v = v.c
        return (n - 1, 0, crc32(repr(what).encode()) // 8 % n)[v]

    def choose_of(self, opts, note=None):
        return opts[self.choice(len(opts), note)]

    def ge0(self, e):
        """decide e >= 0, forking when undetermined"""
        if not e.t:
            return e.c >= 0
        st = self.st
        if entails(st.cons, e):
            return True
        if entails(st.cons, (-e) - 1):
            return False
        raise Fork([("c", [e], []), ("c", [(-e) - 1], [])])

    def eq0(self, e):
        if not e.t:
            return e.c == 0
        st = self.st
        a = entails(st.cons, e)
        b = entails(st.cons, -e)
        if a and b:
            return True
        if entails(st.cons, e - 1) or entails(st.cons, (-e) - 1):
            return False
        alts = [("c", [], [e])]
        if not b:
            alts.append(("c", [e - 1], []))
        if not a:
            alts.append(("c", [(-e) - 1], []))
        raise Fork(alts)

    def ent(self, e):
        return entails(self.st.cons, e)

    def ent_eq(self, e):
        return e == ZERO or (entails(self.st.cons, e) and entails(self.st.cons, -e))

    def note(self, s):
        st = self.st
        f = st.frames[-1] if st.frames else None
        st.trace = (st.trace, s, self.where())

    def where(self):
        """innermost repository frame position"""
        for f in reversed(self.st.frames):
            fn = self.p.fns[f.fn]
            if fn["crate"] == "vec_collections":
                b = fn["bbs"][f.bb]
                t = b["t"]
                sp = None
                if t[0] == "call":
                    sp = t[6]
                if f.si < len(b["s"]) and b["s"][f.si][0] == "=":
                    sp = b["s"][f.si][3]
                if sp is None:
                    for s in b["s"]:
                        if s[0] == "=":
                            sp = s[3]
                return (fn["path"], sp or fn["span"])
        return None

    def callstack(self):
        return [self.p.fns[f.fn]["path"] for f in self.st.frames if self.p.fns[f.fn]["crate"] == "vec_collections"]

    # ---- sequences -------------------------------------------------------
    def split_at(self, seq, o):
        """split so that o is a segment boundary; returns (seq, index)"""
        b = ZERO
        segs = self.radix.expand(self, seq.segs) if self.exact else list(seq.segs)
        known = 0
        if not o.t:
            # known offset: step over parts of known length
            for s in segs:
                if s.n.t or s.n.c >= o.c - b.c:
                    break
                b = const(b.c + s.n.c)
                known += 1
        for i, s in enumerate(segs):
            if i < known:
                continue
            d = o - b
            if d == ZERO:
                return Seq(segs), i
            if d == s.n:
                return Seq(segs), i + 1
            if self.ge0(d - s.n):
                b = b + s.n
                continue
            if self.eq0(d):
                return Seq(segs), i
            l, r = self.split_seg(s, d, s.n - d)
            segs[i:i + 1] = [l, r]
            return Seq(segs), i + 1
        d = o - b
        if d == ZERO or self.ent_eq(d):
            return Seq(segs), len(segs)
        raise Unsupported(f"offset {o} outside sequence {seq}")

    def split_seg(self, s, n1, n2):
        if self.radix.is_string(s.t):
            return self.radix.split_string(self, s, n1, n2)
        if self.exact and s.tok is not None:
            ch, part = s.tok
            if isinstance(part, tuple):
                # a run of elements of known ranks
                if n1.t:
                    raise Unsupported("a run of known ranks is cut at an unknown position")
                return self.fix1(Seg(s.t, n1, (ch, part[:n1.c]))), self.fix1(Seg(s.t, n2, (ch, part[n1.c:])))
            st = self.st
            items = st.chains[ch]
            i = items.index(("p", part))
            a, b = st.nid, st.nid + 1
            st.nid += 2
            st.chains[ch] = items[:i] + (("p", a), ("p", b)) + items[i + 1:]
            return self.fix1(Seg(s.t, n1, (ch, a))), self.fix1(Seg(s.t, n2, (ch, b)))
        return Seg(s.t, n1), Seg(s.t, n2)

    def fix1(self, s):
        """exact mode: give an identity to a one-element part"""
        if not self.exact:
            return s
        if s.n == ONE and s.tok is not None:
            return self.ident(s)
        return s

    def ident(self, s):
        st = self.st
        eid = st.nid
        st.nid += 1
        kid = eid
        if s.tok is not None:
            ch, part = s.tok
            if isinstance(part, tuple):
                kid = RANK0 + part[0]
            else:
                items = st.chains[ch]
                i = items.index(("p", part))
                st.chains[ch] = items[:i] + (("e", eid),) + items[i + 1:]
            d = st.ghost.get("ne:" + ch)
            if d is not None:
                v = Term("v", (eid,))
                st.facts[("v",) + ((d, v) if repr(d) < repr(v) else (v, d))] = "!"

        def fn(v):
            if isinstance(v, Key) and v.c != "=" and v.id is None:
                return Key(v.c, kid)
            if isinstance(v, Term) and v.op == "any":
                return Term("v", (eid,))
            return v
        return Seg(map_val(s.t, fn), s.n, None)

    def elem(self, seq, o):
        """isolate the element at offset o: returns (seq, i) with segs[i] of length 1"""
        seq, i = self.split_at(seq, o)
        while i < len(seq.segs):
            s = seq.segs[i]
            if s.n == ONE:
                if self.exact and s.tok is not None:
                    segs = list(seq.segs)
                    segs[i] = self.fix1(s)
                    seq = Seq(segs)
                return self.concrete(seq, i)
            if self.ge0(s.n - 1):
                if self.ent_eq(s.n - 1):
                    segs = list(seq.segs)
                    segs[i] = self.fix1(Seg(s.t, ONE, s.tok))
                    return self.concrete(Seq(segs), i)
                l, r = self.split_seg(s, ONE, s.n - 1)
                segs = list(seq.segs)
                segs[i:i + 1] = [l, r]
                return self.concrete(Seq(segs), i)
            # this segment is empty here
            i += 1
        raise Unsupported(f"element {o} outside sequence {seq}")

    def concrete(self, seq, i):
        """an element taken from a part of mixed class: decide which class it has"""
        k = srank(seq.segs[i].t)
        if k != 3:
            return seq, i
        t = seq.segs[i].t
        c = self.choose_of("<=>" if mixed_eq(t) else "<>")
        segs = list(seq.segs)
        segs[i] = Seg(set_class(t, c), ONE)
        return Seq(segs), i

    def take(self, seq, n):
        """split seq at n -> (front, back)"""
        seq, i = self.split_at(seq, n)
        return Seq(seq.segs[:i]), Seq(seq.segs[i:])

    def is_empty(self, seq):
        for s in seq.segs:
            if self.ge0(s.n - 1):
                return False
        return True

    def simp(self, seq):
        return Seq(s for s in seq.segs if s.n != ZERO)

    # ---- memory ----------------------------------------------------------
    def load(self, root, path=()):
        st = self.st
        if root not in st.mem:
            raise Unsupported(f"read of unknown root {root}")
        if "cell" in st.ghost:
            c = st.ghost["cell"].f[0]
            if c.root == root and path[:len(c.path)] == c.path:
                self.models.access(self, root, path, False)
        v = st.mem[root]
        for i, p in enumerate(path):
            if isinstance(p, tuple):
                if not isinstance(v, Seq):
                    raise Unsupported(f"index into {v}")
                t = None if self.exact else self.peek(v, p[1])
                if t is None or srank(t) == 3:
                    nseq, k = self.elem(v, p[1])
                    if nseq != v:
                        self.store(root, path[:i], nseq)
                    v = nseq.segs[k].t
                else:
                    v = t
            else:
                if isinstance(v, Agg) and v.v in TREES:
                    if not any(isinstance(q, tuple) for q in path[:i]):
                        t = self.radix.named(self, v)
                        if t != v:
                            self.store(root, path[:i], t)
                            v = t
                    v = self.radix.unfold(self, v)
                elif isinstance(v, Term) and v.op == "opt" and p == 0:
                    v = Term("val", v.a)
                    continue
                if not isinstance(v, Agg) or p >= len(v.f):
                    raise Unsupported(f"field {p} of {v}")
                v = v.f[p]
        return v

    def peek(self, seq, o):
        b = ZERO
        for s in seq.segs:
            d = o - b
            if self.ge0(d - s.n):
                b = b + s.n
                continue
            return s.t
        raise Unsupported(f"element {o} outside sequence {seq}")

    def store(self, root, path, new):
        st = self.st
        if "cell" in st.ghost:
            c = st.ghost["cell"].f[0]
            if c.root == root and path[:len(c.path)] == c.path:
                self.models.access(self, root, path, True)
        if not path:
            st.mem[root] = new
            return
        st.mem[root] = self._set(st.mem.get(root, UNINIT), path, new)

    def _set(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(p, tuple):
            if not isinstance(v, Seq):
                raise Unsupported(f"index store into {v}")
            seq, i = self.elem(v, p[1])
            segs = list(seq.segs)
            s = segs[i]
            segs[i] = Seg(self._set(s.t, path[1:], new), ONE, None)
            return Seq(segs)
        if isinstance(v, Term) and v.op == "uninit":
            v = Agg(0, tuple([UNINIT] * (p + 1)))
        elif isinstance(v, Agg) and v.v in TREES:
            v = self.radix.unfold(self, self.radix.named(self, v))
        elif isinstance(v, Term) and v.op == "opt":
            v = SOME(Term("val", v.a))
        if not isinstance(v, Agg):
            raise Unsupported(f"store field {p} of {v}")
        f = list(v.f)
        while len(f) <= p:
            f.append(UNINIT)
        f[p] = self._set(f[p], path[1:], new)
        return Agg(v.v, tuple(f))

    def alloc(self, v):
        r = ("H", self.st.nheap)
        self.st.nheap += 1
        self.st.mem[r] = v
        return r

    # ---- types / constants ----------------------------------------------
    def ty(self, t):
        return self.p.types[t]

    def zst(self, t):
        if t in self.zst_cache:
            return self.zst_cache[t]
        ty = self.ty(t)
        k = ty["k"]
        if k == "fndef":
            v = FnV(ty["fn"])
        elif k == "tuple":
            v = Agg(0, tuple(self.zst(x) for x in ty["ts"]))
        elif k == "closure":
            v = Agg(0, tuple(self.zst(x) for x in ty["ts"]))
        elif k == "array":
            v = Seq()
        elif k == "adt" and ty["ak"] == "struct":
            v = Agg(0, tuple(self.zst(x[1]) for x in ty["vs"][0]["f"]))
        elif k == "adt" and ty["ak"] == "enum" and len(ty["vs"]) == 1:
            v = Agg(0, tuple(self.zst(x[1]) for x in ty["vs"][0]["f"]))
        elif k == "adt" and ty["ak"] == "enum":
            v = Agg(0, ())
            # a zero sized enum value: only one inhabited variant
        else:
            v = Term("zst", (ty["name"],))
        self.zst_cache[t] = v
        return v

    def cval(self, c):
        k = c["c"]
        if k == "int":
            ty = self.ty(c["t"])
            if ty["k"] == "bool":
                return c["v"] != "0"
            return const(int(c["v"]))
        if k == "fn":
            return FnV(c["f"])
        if k == "zst":
            return self.zst(c["t"])
        if k == "agg":
            ty = self.ty(c["t"])
            fs = tuple(self.cval(x) for x in c["f"])
            if ty["k"] == "array":
                return Seq(Seg(x, ONE) for x in fs)
            return Agg(c["v"], fs)
        if k == "ref":
            v = self.cval(c["v"])
            r = ("k", repr(v))
            self.st.mem[r] = v
            fat = None
            return Ref(r, (), fat)
        if k == "slice":
            v = Seq(Seg(self.cval(x), ONE) for x in c["f"])
            r = ("k", repr(v))
            self.st.mem[r] = v
            return Ref(r, (), (ZERO, v.length()))
        if k == "str":
            return Term("str", (c["v"],))
        m = getattr(self, "const_hook", None)
        if m:
            v = m(self, c)
            if v is not None:
                return v
        return Term("const", (self.p.tname(c["t"]),))

    # ---- places ----------------------------------------------------------
    def place(self, fr, p):
        """-> (root, path, fat, type)"""
        root = ("L", fr.depth, p[0])
        path = ()
        fat = None
        fn = self.p.fns[fr.fn]
        ty = fn["locals"][p[0]]
        T = self.p.types
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(root, path)
                while isinstance(v, Agg) and len(v.f) >= 1:
                    v = v.f[0]      # Box / Unique / NonNull newtypes
                if isinstance(v, Term) and v.op == "str":
                    v = Ref(self.alloc(v))      # text of a message
                if not isinstance(v, Ref):
                    raise Unsupported(f"deref of {v}")
                root, path, fat = v.root, v.path, v.fat
                t = T[ty]
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt":
                    ty = t["args"][0]
            elif k == ".":
                t = T[ty]
                if not (t["k"] == "adt" and (t["ak"] == "union" or t["path"] == "alloc::boxed::Box")):
                    path = path + (e[1],)
                ty = e[2]
            elif k == "v":
                pass
            elif k == "i":
                i = self.load(("L", fr.depth, e[1]))
                path = path + (("x", i + fat[0] if fat else i),)
                fat = None
                ty = T[ty]["t"]
            elif k == "c":
                off, frm = e[1], e[3]
                if fat is None:
                    sq = self.load(root, path)
                    st0, ln = ZERO, sq.length()
                else:
                    st0, ln = fat
                path = path + (("x", st0 + (ln - off if frm else const(off))),)
                fat = None
                ty = T[ty]["t"]
            elif k == "s":
                if fat is None:
                    sq = self.load(root, path)
                    st0, ln = ZERO, sq.length()
                else:
                    st0, ln = fat
                frm, to, fe = e[1], e[2], e[3]
                fat = (st0 + frm, (ln - to if fe else const(to)) - frm)
            elif k == "o":
                ty = e[1]
            else:
                raise Unsupported(f"projection {e}")
        return root, path, fat, ty

    def read(self, fr, p):
        root, path, fat, ty = self.place(fr, p)
        return self.load(root, path)

    def operand(self, fr, o):
        if o[0] == "k":
            return self.cval(o[1])
        v = self.read(fr, o[1])
        return v

    def optype(self, fr, o):
        if o[0] == "k":
            return o[1]["t"]
        return self.place(fr, o[1])[3]

    # ---- rvalues ---------------------------------------------------------
    def rvalue(self, fr, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k in ("ref", "ptr"):
            root, path, fat, ty = self.place(fr, r[1])
            return Ref(root, path, fat)
        if k == "agg":
            vals = tuple(self.operand(fr, o) for o in r[4])
            if r[1] == "array":
                return Seq(Seg(self.radix.element(self, v), ONE) for v in vals)
            if r[1] == "rawptr":
                if isinstance(vals[0], Ref) and len(vals) > 1 and isinstance(vals[1], Aff):
                    return Ref(vals[0].root, vals[0].path, (ZERO, vals[1]))
                return vals[0]
            if r[1] == "adt":
                t = self.ty(r[2])
                if t["ak"] == "union":
                    return vals[0] if vals else UNINIT
            return Agg(r[3], vals)
        if k == "disc":
            root, path, fat, ty = self.place(fr, r[1])
            if root not in self.st.mem and not path:
                return UNDEF        # left over by MIR optimisations, feeds only an `assume`
            v = self.load(root, path)
            return self.discr(v, ty)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), fr, r)
        if k == "un":
            v = self.operand(fr, r[2])
            if r[1] == "Not":
                if isinstance(v, bool):
                    return not v
                raise Unsupported(f"Not {v}")
            if r[1] == "Neg":
                return -v
            if r[1] == "PtrMetadata":
                while isinstance(v, Agg) and v.f:
                    v = v.f[0]
                if isinstance(v, Ref):
                    if v.fat:
                        return v.fat[1]
                    return UNIT
                raise Unsupported(f"metadata of {v}")
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), self.optype(fr, r[2]), r[3])
        if k == "rep":
            v = self.operand(fr, r[1])
            n = r[2]
            if n is None:
                raise Unsupported("repeat")
            return Seq((Seg(v, const(n)),) if n else ())
        raise Unsupported(f"rvalue {r}")

    def discr(self, v, ty):
        t = self.ty(ty)
        if isinstance(v, Agg):
            if t["k"] == "adt" and t["ak"] == "enum":
                d = int(t["vs"][v.v]["d"])
                if t["path"] == "core::cmp::Ordering" and d == 255:
                    d = -1          # repr(i8)
                return const(d)
            return const(v.v)
        x = self.radix.discr(self, v, t)
        if x is not None:
            return x
        raise Unsupported(f"discriminant of {v} : {t['name']}")

    def binop(self, op, a, b, fr, r):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if isinstance(a, Aff) and isinstance(b, Aff):
            top = self.top(self.optype(fr, r[2])) if fr is not None else None
            if top:
                # what a narrow type can hold
                for x in (a, b) if "Sh" not in op else (a,):
                    if not x.is_const():
                        self.st.add_con(const(top) - x)
                        if not self.st.feasible():
                            raise Prune()
            if op in ("Add", "AddUnchecked"):
                return a + b
            if op in ("Sub", "SubUnchecked"):
                return a - b
            if op == "AddWithOverflow":
                return Agg(0, (a + b, bool(top) and not self.ge0(const(top) - a - b)))
            if op == "SubWithOverflow":
                if self.signed(self.optype(fr, r[2])):
                    return Agg(0, (a - b, False))
                return Agg(0, (a - b, not self.ge0(a - b)))
            if op in ("Mul", "MulWithOverflow", "MulUnchecked"):
                if a.is_const():
                    v = b.scale(a.c)
                elif b.is_const():
                    v = a.scale(b.c)
                else:
                    v = self.st.fresh()
                    self.st.lossy = True
                if op == "MulWithOverflow" and top:
                    return Agg(0, (v, not self.ge0(const(top) - v)))
                return Agg(0, (v, False)) if op == "MulWithOverflow" else v
            if op == "Lt":
                return self.ge0(b - a - 1)
            if op == "Le":
                return self.ge0(b - a)
            if op == "Gt":
                return self.ge0(a - b - 1)
            if op == "Ge":
                return self.ge0(a - b)
            if op == "Eq":
                return self.eq0(a - b)
            if op == "Ne":
                return not self.eq0(a - b)
            if op == "Cmp":
                if self.eq0(a - b):
                    return EQUAL
                return LESS if self.ge0(b - a - 1) else GREATER
            if op in ("Div", "Shr", "ShrUnchecked", "Rem") and b.is_const():
                if a.is_const():
                    kk = b.c if op in ("Div", "Rem") else 1 << b.c
                    if kk == 0:
                        raise Unsupported("division by zero")
                    return const(a.c % kk if op == "Rem" else a.c // kk)
                kk = b.c if op in ("Div", "Rem") else 1 << b.c
                q = self.st.fresh()
                self.st.add_con(a - q.scale(kk))
                self.st.add_con(q.scale(kk) + (kk - 1) - a)
                return a - q.scale(kk) if op == "Rem" else q
            if a.is_const() and b.is_const():
                if op == "BitAnd":
                    return const(a.c & b.c)
                if op == "BitOr":
                    return const(a.c | b.c)
                if op == "BitXor":
                    return const(a.c ^ b.c)
                if op in ("Shl", "ShlUnchecked"):
                    return const(a.c << b.c)
            if op in ("BitAnd", "BitOr", "BitXor", "Shl", "ShlUnchecked", "Div", "Rem", "Shr"):
                v = self.st.fresh()
                self.st.lossy = True
                return v
        if isinstance(a, bool) and isinstance(b, bool):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b, "Eq": a == b, "Ne": a != b,
                    "Lt": (not a) and b, "Le": (not a) or b, "Gt": a and not b, "Ge": a or not b}[op] \
                if op != "Cmp" else ORD[(a > b) - (a < b)]
        if op in ("Eq", "Ne") and isinstance(a, (Ref, FnV)) and isinstance(b, (Ref, FnV)):
            if a == b:
                return op == "Eq"
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a.root != b.root and a.root[0] != "k" and b.root[0] != "k":
                    return op == "Ne"
                if a.root == b.root and a.fat is None and b.fat is None and len(a.path) == len(b.path) and a.path \
                        and a.path[:-1] == b.path[:-1] and isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple):
                    return self.eq0(a.path[-1][1] - b.path[-1][1]) == (op == "Eq")
            self.st.lossy = True
            return self.choose_of([True, False])
        m = getattr(self, "binop_hook", None)
        if m:
            x = m(self, op, a, b)
            if x is not None:
                return x
        raise Unsupported(f"binop {op} {a} {b}")

    def top(self, t):
        """greatest value of an unsigned type narrower than a length; None: cannot be exceeded"""
        t = self.ty(t)
        return {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1}.get(t.get("w")) if t["k"] == "uint" else None

    def truncate(self, v, top):
        """v modulo top + 1"""
        if self.ge0(const(top) - v):
            return v
        if top > 65535:
            self.st.lossy = True
        q, x = self.st.fresh(), self.st.fresh()
        x = v - q.scale(top + 1)
        self.st.add_con(q - 1)
        self.st.add_con(x)
        self.st.add_con(const(top) - x)
        if not self.st.feasible():
            raise Prune()
        return x

    def signed(self, t):
        return self.ty(t)["k"] == "int"

    def cast(self, kind, v, src, dst):
        S, D = self.ty(src), self.ty(dst)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                inner = v
                wraps = []
                st, dt = S, D
                while st["k"] == "adt":
                    wraps.append(inner)
                    inner = inner.f[0]
                    st = self.ty(st["vs"][0]["f"][0][1])
                    dt = self.ty(dt["vs"][0]["f"][0][1])
                if isinstance(inner, Ref) and st["k"] in ("ref", "ptr"):
                    pt = self.ty(st["t"])
                    if pt["k"] == "array":
                        inner = Ref(inner.root, inner.path, (ZERO, const(pt["n"])))
                for w in reversed(wraps):
                    inner = Agg(w.v, (inner,) + w.f[1:])
                return inner
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            return v
        if kind == "IntToInt":
            if isinstance(v, bool):
                return const(1 if v else 0)
            if isinstance(v, Aff):
                if v.is_const():
                    w = {"u8": 8, "u16": 16, "u32": 32, "i8": 8, "i16": 16, "i32": 32}.get(D.get("w"), 64)
                    x = v.c & ((1 << w) - 1)
                    if D["k"] == "int" and x >= 1 << (w - 1):
                        x -= 1 << w
                    return const(x)
                top, old = self.top(dst), self.top(src)
                if old:
                    self.st.add_con(const(old) - v)
                    if not self.st.feasible():
                        raise Prune()
                return self.truncate(v, top) if top and not (old and old <= top) else v
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr", "Subtype"):
            if isinstance(v, Ref) and S["k"] == "ptr" and D["k"] == "ptr":
                s, d = self.ty(S["t"]), D["t"]
                if s["k"] == "adt" and s["path"] == "core::cell::UnsafeCell" and s["vs"][0]["f"][0][1] == d:
                    return Ref(v.root, v.path + (0,), v.fat)
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            if D["k"] in ("ptr", "ref"):
                while isinstance(v, Agg) and len(v.f) >= 1:
                    v = v.f[0]
                return v
            if S["k"] in ("ptr", "ref") and D["k"] == "adt":
                return self.wrap(v, dst)
            if D["k"] == "bool" and isinstance(v, Aff) and v.is_const():
                return v.c != 0
            if S["k"] == "bool":
                return const(int(v)) if D["k"] in ("int", "uint") else v
            if isinstance(v, Aff) and D["k"] == "adt" and D["ak"] == "enum" and v.is_const():
                for i, vv in enumerate(D["vs"]):
                    if (int(vv["d"]) - v.c) % 256 == 0 if D["path"] == "core::cmp::Ordering" else int(vv["d"]) == v.c:
                        return Agg(i, ())
            if isinstance(v, Agg) and not v.f and S["k"] == "adt" and S["ak"] == "enum" and D["k"] in ("int", "uint"):
                return self.discr(v, src)
            if isinstance(v, Aff) and D["k"] in ("int", "uint"):
                return v
            return v
        raise Unsupported(f"cast {kind} {v}")

    def wrap(self, v, t):
        ty = self.ty(t)
        if ty["k"] in ("ptr", "ref"):
            return v
        if ty["k"] == "adt" and ty["ak"] == "struct":
            fs = ty["vs"][0]["f"]
            out = [self.wrap(v, fs[0][1])]
            for f in fs[1:]:
                out.append(self.zst(f[1]))
            return Agg(0, tuple(out))
        return v

    # ---- execution -------------------------------------------------------
    def push_frame(self, fid, args, dest, target, callsite):
        st = self.st
        fn = self.p.fns[fid]
        if "bbs" not in fn:
            raise Unsupported(f"no body/model for {fn['path']}")
        d = len(st.frames)
        if d > self.max_depth:
            raise Unsupported(f"call depth at {fn['path']}")
        fr = Frame(fid, d, dest, target, callsite)
        st.frames.append(fr)
        if fn["spread"] is not None:
            # args from `spread` on were passed as one tuple already
            pass
        if len(args) != fn["argc"]:
            raise Unsupported(f"arity {fn['path']} {len(args)} != {fn['argc']}")
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a
        if not args and fn["argc"]:
            raise Unsupported("args")
        self.visited_fns.add(fid)

    def write_dest(self, dest, v):
        if dest is None:
            return
        self.store(dest.root, dest.path, v)

    def do_call(self, fr, t):
        st = self.st
        _, f, ops, dst, target, rust_call, span = t
        args = [self.operand(fr, o) for o in ops]
        droot, dpath, dfat, dty = self.place(fr, dst)
        dest = Ref(droot, dpath)
        if "f" in f:
            fid = f["f"]
        else:
            fv = self.operand(fr, f["op"])
            if not isinstance(fv, FnV):
                raise Unsupported(f"call of {fv}")
            fid = fv.f
        if fid is None:
            raise Unsupported(f"unresolved call {f.get('p')}")
        self.call(fid, args, dest, target, rust_call, (fr.fn, fr.bb))

    def call(self, fid, args, dest, target, rust_call, callsite):
        st = self.st
        fn = self.p.fns[fid]
        self.callcount += 1
        if rust_call and fn.get("closure") and fn.get("spread") is None:
            if not (isinstance(args[-1], Agg)):
                raise Unsupported("rust-call args")
            args = args[:-1] + list(args[-1].f)
        m = self.models.lookup(self.p, fn)
        if m is not None:
            r = m(self, fn, args)
            if isinstance(r, Tail):
                # model delegates to another function
                self.call(r.fid, r.args, dest, target, r.rust_call, callsite)
                return
            if target is None:
                raise Unsupported(f"diverging model {fn['path']}")
            self.write_dest(dest, r)
            self.goto(target)
            return
        if "ctor" in fn:
            self.write_dest(dest, Agg(fn["ctor"][1], tuple(args)))
            self.goto(target)
            return
        if fn["crate"] == "vec_collections":
            r = self.radix.contract(self, fn, args)
            if r is not None:
                if target is None:
                    raise Unsupported(f"diverging contract {fn['path']}")
                self.write_dest(dest, r[0])
                self.goto(target)
                return
        if not self.exact and not self.invs and self.summary_call(fid, fn, args, dest, target):
            return
        self.push_frame(fid, args, dest, target, callsite)

    # ---- procedure summaries ----------------------------------------------
    def summary_call(self, fid, fn, args, dest, target):
        """a looping procedure that rearranges a mutable slice in place is analysed once per shape of its
        arguments, separately from its callers; its outcomes are then instantiated at the call"""
        p = self.p
        k = p.summable.get(fid)
        if k is None:
            k = p.summable[fid] = fn["crate"] == "vec_collections" and bool(fn.get("heads")) and \
                any(p.types[fn["locals"][i + 1]]["k"] == "ref" and p.types[fn["locals"][i + 1]]["mut"] and
                    p.types[p.types[fn["locals"][i + 1]]["t"]]["k"] == "slice" for i in range(fn["argc"]))
        if not k or target is None:
            return False
        st = self.st
        cells, sub = [], State()

        def cell(r, fat):
            for i, (q, f) in enumerate(cells):
                if q.root == r.root and (q.path[:len(r.path)] == r.path or r.path[:len(q.path)] == q.path):
                    if q.path != r.path:
                        raise KeyError
                    return i
            cells.append((r, fat))
            return len(cells) - 1

        def w(v):
            if isinstance(v, Aff):
                if v.is_const():
                    return v
                return sub.fresh()
            if isinstance(v, Agg):
                return Agg(v.v, tuple(w(x) for x in v.f)) if v.f else v
            if isinstance(v, Seq):
                return Seq(Seg(w(s.t), w(s.n)) for s in v.segs)
            if isinstance(v, Ref):
                if any(isinstance(x, tuple) for x in v.path):
                    raise KeyError
                c = cell(v, v.fat)
                if v.fat is None:
                    return Ref(("H", c))
                q = self.load(v.root, v.path)
                if not isinstance(q, Seq) or v.fat[0] != ZERO or not self.ent_eq(v.fat[1] - q.length()):
                    raise KeyError
                return Ref(("H", c), (), "full")
            return v

        names = []

        def name(t):
            """payloads stored with the tracked key are only moved around: rename them"""
            if isinstance(t, Agg) and t.f and isinstance(t.f[0], Key) and t.f[0].c == "=":
                return Agg(t.v, (t.f[0],) + tuple(nm(x) for x in t.f[1:]))
            return t

        def nm(x):
            if isinstance(x, Term):
                names.append(x)
                return Term(f"v#{len(names) - 1}")
            return x

        def fix(v):
            if isinstance(v, Ref) and v.fat == "full":
                return Ref(v.root, v.path, (ZERO, sub.mem[v.root].length()))
            if isinstance(v, Agg) and v.f:
                return Agg(v.v, tuple(fix(x) for x in v.f))
            return v
        try:
            a = [w(x) for x in args]
            done = 0
            while done < len(cells):
                r = cells[done][0]
                v = self.load(r.root, r.path)
                if isinstance(v, Seq):
                    v = tracked_runs(self.merge_segs(tracked_runs(self.simp(v))))
                    v = Seq(Seg(name(s.t) if s.n == ONE else s.t, s.n) for s in v.segs)
                elif v == UNINIT:
                    v = UNIT
                sub.mem[("H", done)] = w(v)
                done += 1
            sub.nheap = done
            for r in list(sub.mem):
                sub.mem[r] = fix(sub.mem[r])
            a = [fix(x) for x in a]
        except (KeyError, Unsupported):
            return False
        key = (fid, tuple(a), tuple(sorted(sub.mem.items(), key=repr)))
        outs = p.summaries.get(key)
        if outs is None:
            sub.frames.append(Frame(fid, 0, None, None, None))
            for i, x in enumerate(a):
                sub.mem[("L", 0, i + 1)] = x
            sub.ghost["cells"] = Agg("cells", tuple(Ref(("H", i)) for i in range(len(cells))))
            e = Engine(p, self.models, budget=self.budget, deadline=self.deadline)
            e.zone_ints = True
            res = e.run([sub])
            self.steps += e.steps
            self.visited_fns |= e.visited_fns
            outs = []
            for o in res:
                if o[0] not in ("ret", "panic") or o[1].facts or o[1].log or set(o[1].ghost) != {"cells"}:
                    if o[0] == "budget":
                        self.steps = self.budget
                        raise Unsupported("step budget exhausted in a summary")
                    outs = False
                    break
                if o[0] == "panic":
                    outs.append(("panic", o[2], None, None, None))
                    continue
                for x in e.summary_out(o[1], o[2]):
                    if x not in outs:
                        outs.append(x)
            p.summaries[key] = outs
        if outs is False:
            return False
        tag, v, vals, cons, nsym = self.choose_of(outs)
        if tag == "panic":
            raise Panic(v)
        base = st.nsym
        st.nsym += nsym

        def sh(x):
            if isinstance(x, Aff):
                return x.shift(base)
            if isinstance(x, Term) and isinstance(x.op, str) and x.op.startswith("v#"):
                return names[int(x.op[2:])]
            return x
        lens = []
        for (r, fat), x in zip(cells, vals):
            if fat is not None or isinstance(x, Seq):
                q = self.load(r.root, r.path)
                lens.append((q.length(), r))
            self.store(r.root, r.path, map_val(x, sh))
        for c in cons:
            st.add_con(sh(c))
        for n, r in lens:
            d = self.load(r.root, r.path).length() - n
            st.add_con(d)
            st.add_con(-d)
        if not st.feasible():
            raise Prune()
        self.write_dest(dest, map_val(v, sh))
        self.goto(target)
        return True

    def summary_out(self, st, v):
        """outcomes of a summary, generalised: the slice is cut at the returned length, what lies behind is mixed"""
        vals = [st.mem[r.root] for r in st.ghost["cells"].f]
        seqs = [i for i, x in enumerate(vals) if isinstance(x, Seq)]
        if not (isinstance(v, Aff) and len(seqs) == 1 and not any(isinstance(x, Aff) for x in vals)):
            self.st = st
            return [("ret", v, tuple(self.merge_segs(x) if isinstance(x, Seq) else x for x in vals), st.cons, st.nsym)]
        i = seqs[0]
        out, work = [], [st]
        while work:
            st = work.pop()
            self.st = st
            try:
                q = st.mem[st.ghost["cells"].f[i].root]
                if not self.ge0(v) or not self.ge0(q.length() - v):
                    return [("ret", v, tuple(self.merge_segs(x) if isinstance(x, Seq) else x for x in vals), st.cons, st.nsym)]
                a, b = self.take(q, v)
                a = self.merge_segs(a)
                m = State()
                segs = [Seg(s.t, s.n if s.n.is_const() else m.fresh()) for s in a.segs]
                r = Seq(segs).length()
                if not self.is_empty(b):
                    segs.append(Seg(mix(b.segs[0].t), m.fresh()))
                out.append(("ret", r, tuple(Seq(segs) if k == i else x for k, x in enumerate(vals)), (), m.nsym))
            except Prune:
                continue
            except Fork as fk:
                for alt in fk.alts:
                    ns = st.clone()
                    try:
                        for x in alt[1]:
                            ns.add_con(x)
                        for x in alt[2]:
                            ns.add_con(x)
                            ns.add_con(-x)
                        if ns.feasible():
                            work.append(ns)
                    except Prune:
                        continue
        return out

    def goto(self, bb):
        fr = self.st.frames[-1]
        fr.bb = bb
        fr.si = 0

    def do_return(self):
        st = self.st
        fr = st.frames.pop()
        v = st.mem.get(("L", fr.depth, 0), UNINIT)
        fn = self.p.fns[fr.fn]
        if v is UNINIT or (isinstance(v, Term) and v.op == "uninit"):
            v = self.zst(fn["locals"][0])
        for r in [r for r in st.mem if r[0] == "L" and r[1] == fr.depth]:
            del st.mem[r]
        if not st.frames:
            return ("ret", v)
        self.write_dest(fr.dest, v)
        if fr.target is None:
            raise Unsupported("return into diverging call")
        self.goto(fr.target)
        return None

    def do_drop(self, fr, p, ty, target):
        root, path, fat, pty = self.place(fr, p)
        self.drop_at(root, path, ty)
        if self.st.frames[-1] is fr:
            self.goto(target)

    def drop_at(self, root, path, ty):
        if not self.models.drop_interesting(self.p, ty):
            return
        v = self.load(root, path)
        if isinstance(v, Term) and v.op == "uninit":
            return
        t = self.ty(ty)
        if self.models.drop_model(self, root, path, t, v):
            return
        if t["k"] == "adt":
            if t["drop"] is not None and t["drop"] >= 0:
                raise Unsupported(f"user Drop impl for {t['name']}")
            vs = t["vs"]
            if isinstance(v, Agg) and v.v < len(vs):
                for i, (n, ft) in enumerate(vs[v.v]["f"]):
                    if i < len(v.f):
                        self.drop_at(root, path + (i,), ft)
        elif t["k"] in ("tuple", "closure"):
            for i, ft in enumerate(t["ts"]):
                self.drop_at(root, path + (i,), ft)

    def step(self):
        """execute one statement or the terminator; returns None or ('ret', v)"""
        st = self.st
        fr = st.frames[-1]
        fn = self.p.fns[fr.fn]
        b = fn["bbs"][fr.bb]
        if b is None:
            raise Unsupported("cleanup block")
        if fr.si < len(b["s"]):
            s = b["s"][fr.si]
            k = s[0]
            if k == "=":
                root, path, fat, ty = self.place(fr, s[1])
                v = self.rvalue(fr, s[2], ty)
                self.store(root, path, v)
            elif k == "D" or k == "L":
                st.mem.pop(("L", fr.depth, s[1]), None)
                if k == "L":
                    st.mem[("L", fr.depth, s[1])] = UNINIT
            elif k == "sd":
                root, path, fat, ty = self.place(fr, s[1])
                v = self.load(root, path)
                self.store(root, path, Agg(s[2], v.f if isinstance(v, Agg) else ()))
            elif k == "assume":
                v = self.operand(fr, s[1])
                if v is False:
                    raise Prune()
            else:
                raise Unsupported(f"statement {s}")
            fr.si += 1
            return None
        t = b["t"]
        k = t[0]
        if k == "goto":
            self.goto(t[1])
        elif k == "switch":
            v = self.operand(fr, t[1])
            ty = self.ty(t[4])
            if isinstance(v, bool):
                v = const(1 if v else 0)
            if not isinstance(v, Aff):
                raise Unsupported(f"switch on {v}")
            if v.is_const():
                w = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i128": 128, "u128": 128}.get(ty.get("w"), 64)
                for val, bb in t[2]:
                    if (int(val) - v.c) % (1 << w) == 0:
                        self.goto(bb)
                        return None
                self.goto(t[3])
                return None
            for val, bb in t[2]:
                val = int(val)
                if ty["k"] == "int":
                    w = {"i8": 8, "i16": 16, "i32": 32, "i128": 128}.get(ty["w"], 64)
                    if val >= 1 << (w - 1):
                        val -= 1 << w
                if self.eq0(v - val):
                    self.goto(bb)
                    return None
            self.goto(t[3])
        elif k == "ret":
            return self.do_return()
        elif k == "drop":
            self.do_drop(fr, t[1], t[2], t[3])
        elif k == "call":
            self.do_call(fr, t)
        elif k == "assert":
            v = self.operand(fr, t[1])
            if not isinstance(v, bool):
                raise Unsupported(f"assert on {v}")
            if v == t[2]:
                self.goto(t[4])
            else:
                raise Panic(f"assertion `{t[3]}` fails")
        elif k == "unreachable":
            raise Unsupported("reached `unreachable`")
        else:
            raise Unsupported(f"terminator {t[0]}")
        return None

    # ---- driver ----------------------------------------------------------
    def run(self, init, stop=None):
        """init: list of State (one frame pushed). -> list of outcomes
        ('ret', state, value) | ('panic', state, msg, where) | ('unsup', msg, where)"""
        work = [(s, False) for s in init]
        outcomes = []
        table = self.table = {}
        seen = {}
        unsup = set()
        dirty = self.dirty = {}
        while work or dirty:
            if not work:
                # every pending arrival has been joined: continue from the innermost changed head
                key = max(dirty, key=lambda k: (len(k[0]), dirty[k]))
                del dirty[key]
                c = table[key].clone()
                work.append((c, "inv?" in c.ghost))
            st, pend = work.pop()
            self.steps += 1
            if self.steps > self.budget or (self.deadline and self.steps % 64 == 0 and time.time() > self.deadline):
                outcomes.append(("budget", st, "step budget exhausted", None))
                break
            # run straight-line until fork / head
            while True:
                if pend:
                    pend = False
                    st = self.head(table, st, work)
                    if isinstance(st, tuple):
                        outcomes.append(st)
                        if stop and stop(outcomes[-1]):
                            return outcomes
                        break
                    if st is None:
                        break
                snap = st.clone()
                self.st = st
                self.tape = st.ghost.pop("tape", [])
                snap.ghost.pop("tape", None)
                self.tpos = 0
                fr = st.frames[-1]
                prev = (len(st.frames), fr.bb)
                try:
                    r = self.step()
                except Fork as fk:
                    for alt in fk.alts:
                        ns = snap.clone()
                        tape = list(self.tape[:self.tpos])
                        try:
                            if alt[0] == "t":
                                tape.append(alt[1])
                            else:
                                lim = snap.nsym
                                for e in alt[1]:
                                    ns.add_con(e)
                                for e in alt[2]:
                                    ns.apply_eq(e, lim)
                                if not ns.feasible():
                                    continue
                        except Prune:
                            continue
                        if tape:
                            ns.ghost["tape"] = tape
                        work.append((ns, False))
                    break
                except Prune:
                    break
                except Panic as e:
                    outcomes.append(("panic", st, e.msg, self.where()))
                    if stop and stop(outcomes[-1]):
                        return outcomes
                    break
                except Unsupported as e:
                    key = (str(e), self.where())
                    if key not in unsup:
                        unsup.add(key)
                        outcomes.append(("unsup", st, str(e), self.where()))
                        if stop and stop(outcomes[-1]):
                            return outcomes
                    break
                if r is not None:
                    outcomes.append(("ret", st, r[1], None))
                    if stop and stop(outcomes[-1]):
                        return outcomes
                    break
                fr = st.frames[-1]
                if fr.si == 0 and (len(st.frames), fr.bb) != prev or (fr.si == 0 and fr.bb in self.p.fns[fr.fn]["heads"]):
                    f = self.p.fns[fr.fn]
                    if fr.si == 0 and fr.bb in f["heads"]:
                        if self.invs and any(v.path.search(f["path"]) for v in self.invs):
                            pend = True
                            continue
                        if self.cut is not None and self.cut.search(f["path"]):
                            key = self.point(st)
                            c = st.visits.get(key, 0) + 1
                            st.visits[key] = c
                            bad = f["live"][fr.bb] - {1}
                            if bad:
                                outcomes.append(("unsup", st, f"state is carried in locals {sorted(bad)} of {f['path']}", self.where()))
                            elif c > 1 or self.cut_entry != self.cut_state(st):
                                outcomes.append(("cut", st, None, self.where()))
                            else:
                                continue
                            if stop and stop(outcomes[-1]):
                                return outcomes
                            break
                        if self.exact:
                            key = self.point(st)
                            c = st.visits.get(key, 0) + 1
                            st.visits[key] = c
                            if c > self.unroll:
                                self.truncated = True
                                break
                        else:
                            pend = True
        return outcomes

    def by_invariant(self, inv, table, st):
        """arrival at the head of a loop that is decided by its invariant"""
        fr = st.frames[-1]
        key = "inv:" + repr(self.point(st))
        first = key not in st.ghost
        try:
            if first and st.ghost.pop("inv?", None) is None:
                # what differs in ways the invariant forgets anyway is joined first
                inv.prepare(self, st, fr)
                st.ghost["inv?"] = Term("1")
                return self.at_head(table, st)
            data = inv.check(self, st, fr, first)
            if not first:
                idx, vals = st.ghost[key].v, st.ghost[key].f
                now = self.carried(inv, st, fr)
                if [x for x, _ in now] != self.snaps[idx] or any(not self.same_val(x, y) for (_, x), y in zip(now, vals)):
                    bad = [(str(k), str(x), str(y)) for (k, x), y in zip(now, vals) if not self.same_val(x, y)]
                    return ("unsup", st, f"the loop changes state its invariant does not mention: {[x for x, _ in now if x not in self.snaps[idx]] or bad}", self.where())
                return ("cut", st, None, self.where())
            inv.havoc(self, st, fr, data)
            self.gc(st)
            now = self.carried(inv, st, fr)
            names = [x for x, _ in now]
            if names not in self.snaps:
                self.snaps.append(names)
            st.ghost[key] = Agg(self.snaps.index(names), tuple(v for _, v in now))
            return self.at_head(table, st)
        except Unsupported as e:
            return ("unsup", st, str(e), self.where())
        except self.spec_fail as e:
            return ("unsup", st, f"at the loop head: {e}", self.where())

    def same_val(self, x, y):
        if x == y:
            return True
        if isinstance(x, Agg) and isinstance(y, Agg):
            return x.v == y.v and len(x.f) == len(y.f) and all(self.same_val(p, q) for p, q in zip(x.f, y.f))
        if isinstance(x, Aff) and isinstance(y, Aff):
            return self.ent_eq(x - y)
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.root == y.root and x.path == y.path and (x.fat is None) == (y.fat is None) and \
                (x.fat is None or all(self.ent_eq(p - q) for p, q in zip(x.fat, y.fat)))
        if isinstance(x, Seq) and isinstance(y, Seq):
            a = [s for s in x.segs if not self.ent_eq(s.n)]
            b = [s for s in y.segs if not self.ent_eq(s.n)]
            return len(a) == len(b) and all(p.t == q.t and self.ent_eq(p.n - q.n) for p, q in zip(a, b))
        return False

    def carried(self, inv, st, fr):
        """everything a loop could change apart from what its invariant describes"""
        c = st.clone()
        for k in [k for k in c.ghost if k.startswith("inv:")]:
            del c.ghost[k]
        self.gc(c)
        self.st = st
        m = inv.blank(self, st, fr, dict(c.mem))
        out = [(repr(k), m[k]) for k in sorted(m, key=repr)]
        out += [("ghost " + k, c.ghost[k]) for k in sorted(c.ghost) if not any(k in v.ghosts for v in self.invs)]
        out += [("to", f.dest) for f in c.frames if f.dest is not None]
        out.append(("log", Agg(len(c.log), ())))
        return out

    def head(self, table, st, work):
        self.st = st
        snap = st.clone()
        self.tape = st.ghost.pop("tape", [])
        snap.ghost.pop("tape", None)
        self.tpos = 0
        try:
            f = self.p.fns[st.frames[-1].fn]
            for v in self.invs:
                if v.path.search(f["path"]):
                    return self.by_invariant(v, table, st)
            return self.at_head(table, st)
        except Prune:
            return None
        except Fork as fk:
            for alt in fk.alts:
                ns = snap.clone()
                tape = list(self.tape[:self.tpos])
                try:
                    if alt[0] == "t":
                        tape.append(alt[1])
                    else:
                        lim = snap.nsym
                        for e in alt[1]:
                            ns.add_con(e)
                        for e in alt[2]:
                            ns.apply_eq(e, lim)
                        if not ns.feasible():
                            continue
                except Prune:
                    continue
                if tape:
                    ns.ghost["tape"] = tape
                work.append((ns, True))
            return None

    def cut_state(self, st):
        """what the first argument of the outermost call refers to"""
        r = st.mem[("L", st.frames[0].depth, 1)]
        return st.mem.get(r.root) if isinstance(r, Ref) else r

    def point(self, st):
        return tuple((f.fn, f.callsite) for f in st.frames) + (st.frames[-1].bb,)

    # ---- joins -----------------------------------------------------------
    def gc(self, st):
        """drop dead roots"""
        self.st = st
        live = set()
        stack = []
        top = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            fn = self.p.fns[f.fn]
            if i == top:
                lv = fn["live"][f.bb]
            else:
                nxt = st.frames[i + 1]
                lv = fn["live"][nxt.target] if nxt.target is not None else set()
                # destination local of the pending call is written, keep its base
            for l in lv:
                stack.append(("L", f.depth, l))
            if f.dest is not None:
                stack.append(f.dest.root)
        for g in st.ghost.values():
            self.refs(g, stack)
        while stack:
            r = stack.pop()
            if r in live or r not in st.mem:
                continue
            live.add(r)
            self.refs(st.mem[r], stack)
        for r in [r for r in st.mem if r not in live]:
            del st.mem[r]

    def refs(self, v, out):
        if isinstance(v, Ref):
            out.append(v.root)
        elif isinstance(v, Agg):
            for x in v.f:
                self.refs(x, out)
        elif isinstance(v, Seq):
            for s in v.segs:
                self.refs(s.t, out)
        elif isinstance(v, Term):
            for x in v.a:
                if not isinstance(x, (str, int)):
                    self.refs(x, out)

    def tracked(self, s):
        return s.n == ONE and has_eq(s.t)

    def merge_segs(self, seq):
        out = []
        for s in seq.segs:
            if s.n == ZERO or self.ent_eq(s.n):
                continue
            t = untracked_t(deep_any(self.radix.element(self, s.t)))
            if self.radix.symbolic(t):
                raise Unsupported("an element of a sequence mentions lengths")
            n = s.n
            if out and out[-1].t == t and not self.tracked(Seg(t, n)) and not self.tracked(out[-1]):
                out[-1] = Seg(t, out[-1].n + n)
            else:
                out.append(Seg(t, n))
        tr = [i for i, s in enumerate(out) if self.tracked(s)]
        if len(tr) > (4 if self.invs else 2):
            # several occurrences of x: keep the first and the last
            a, b = tr[0] + 1, tr[-1]
            m = out[a]
            for s in out[a + 1:b]:
                m = Seg(generalise(m.t, s.t), m.n + s.n)
            out[a:b] = [Seg(mix(m.t), m.n)]
        if len(out) > 10:
            # widen: collapse runs of untracked segments
            o2 = []
            for s in out:
                if not self.tracked(s) and o2 and not self.tracked(o2[-1]):
                    o2[-1] = Seg(generalise(o2[-1].t, s.t), o2[-1].n + s.n)
                else:
                    o2.append(s)
            out = o2
        return Seq(out)

    def canon(self, st):
        """-> (skeleton, slots): canonical walk over the live memory"""
        slots = []
        self.kinds = kinds = {}
        self.pairs = pairs = []
        self.ints = []
        self.curs = []
        self.seqat = seqat = {}
        heapmap = {}

        def root_name(r):
            if r[0] == "H":
                if r not in heapmap:
                    heapmap[r] = len(heapmap)
                    order.append(r)
                return ("H", heapmap[r])
            return r

        def w(v, loc=None):
            if isinstance(v, Aff):
                self.ints.append(len(slots))
                slots.append(v)
                return ("#", self.zmap[v]) if v in self.zmap else "#"
            if isinstance(v, Agg):
                if len(v.f) == 2 and isinstance(v.f[0], Aff) and isinstance(v.f[1], Aff):
                    pairs.append(len(slots))
                return ("A", v.v, self.zmap.get(v)) + tuple(w(x, loc and (loc[0], loc[1] + (i,))) for i, x in enumerate(v.f))
            if isinstance(v, Seq):
                seqat[loc] = len(slots)
                slots.append(v)
                return ("S", monotone(v)) + tuple(tmpl(s.t) for s in v.segs if self.tracked(s))
            if isinstance(v, Ref):
                p = []
                for e in v.path:
                    if isinstance(e, tuple):
                        slots.append(e[1])
                        p.append("x")
                    else:
                        p.append(e)
                f = None
                if v.fat:
                    kinds[len(slots)] = "start"
                    if not any(isinstance(x, tuple) for x in v.path):
                        self.curs.append((len(slots), (v.root, v.path)))
                    slots.append(v.fat[0])
                    slots.append(v.fat[1])
                    f = "f"
                return ("R", root_name(v.root), tuple(p), f, self.zmap.get(v) if (f or "x" in p) else None)
            if isinstance(v, Term) and v.a and any(isinstance(x, (Aff, Seq, Ref, Agg)) for x in v.a):
                return ("T", v.op) + tuple(x if isinstance(x, (str, int)) else w(x) for x in v.a)
            return v

        def tmpl(v):
            return v
        order = []
        parts = []
        for r in sorted((r for r in st.mem if r[0] != "H"), key=repr):
            parts.append((r, w(st.mem[r], (r, ()))))
        for i, f in enumerate(st.frames):
            if f.dest is not None:
                parts.append(("dest", i, w(f.dest)))
        for k in sorted(st.ghost):
            parts.append(("g", k, w(st.ghost[k])))
        parts.append(tuple(w(x) if not isinstance(x, (str, int)) else x for x in st.log))
        done = 0
        while done < len(order):
            r = order[done]
            done += 1
            parts.append((("H", heapmap[r]), w(st.mem.get(r, UNINIT), (r, ()))))
        fk = tuple(sorted(((repr(k), v) for k, v in st.facts.items())))
        return (tuple(parts), fk), slots, heapmap

    def rebuild(self, st, slots):
        it = iter(slots)

        def w(v):
            if isinstance(v, Aff):
                return next(it)
            if isinstance(v, Agg):
                return Agg(v.v, tuple(w(x) for x in v.f))
            if isinstance(v, Seq):
                return next(it)
            if isinstance(v, Ref):
                p = []
                for e in v.path:
                    p.append(("x", next(it)) if isinstance(e, tuple) else e)
                f = None
                if v.fat:
                    f = (next(it), next(it))
                root = v.root
                if root[0] == "H":
                    if root not in order:
                        order.append(root)
                    root = ("H", order.index(root))
                return Ref(root, tuple(p), f)
            if isinstance(v, Term) and v.a and any(isinstance(x, (Aff, Seq, Ref, Agg)) for x in v.a):
                return Term(v.op, tuple(x if isinstance(x, (str, int)) else w(x) for x in v.a))
            return v
        order = []
        ns = st.clone()
        mem = {}
        for r in sorted((r for r in st.mem if r[0] != "H"), key=repr):
            mem[r] = w(st.mem[r])
        for f in ns.frames:
            if f.dest is not None:
                f.dest = w(f.dest)
        gh = {}
        for k in sorted(st.ghost):
            gh[k] = w(st.ghost[k])
        ns.ghost = gh
        ns.log = tuple(w(x) if not isinstance(x, (str, int)) else x for x in st.log)
        done = 0
        while done < len(order):
            r = order[done]
            mem[("H", done)] = w(st.mem.get(r, UNINIT))
            done += 1
        ns.mem = mem
        ns.nheap = len(order)
        return ns

    def normal(self, st):
        """gc + merge segments"""
        self.gc(st)
        self.equalities(st)

        sliced = set()

        def slices(v):
            if isinstance(v, Ref):
                if v.fat is not None:
                    sliced.add((v.root, v.path))
            elif isinstance(v, Agg):
                for x in v.f:
                    slices(x)
        for v in st.mem.values():
            slices(v)

        def fix(v, loc=None):
            if isinstance(v, Seq):
                q = self.merge_segs(Seq(Seg(fix(s.t), s.n, None) for s in v.segs))
                return three_runs(q) if loc in sliced and "archive" not in st.ghost else q
            if isinstance(v, Agg):
                return Agg(v.v, tuple(fix(x, loc and (loc[0], loc[1] + (i,))) for i, x in enumerate(v.f))) if v.f else v
            return v
        st.mem = {r: fix(v, (r, ())) for r, v in st.mem.items()}
        st.ghost = {k: fix(v) for k, v in st.ghost.items()}

    def equalities(self, st):
        """turn implied equalities into substitutions"""
        done = set()
        again = True
        while again:
            again = False
            for c in st.cons:
                if c in done or not any(abs(k) == 1 for _, k in c.t):
                    continue
                done.add(c)
                if entails(st.cons, -c):
                    st.apply_eq(c, st.nsym)
                    again = True
                    break

    def locate(self, seq, o):
        """index of the segment holding the element at offset o; None = end of the sequence (forks)"""
        b = ZERO
        for i, s in enumerate(seq.segs):
            if self.ge0(o - b - s.n):
                b = b + s.n
                continue
            return i
        return None

    def zones(self, st):
        """decide, for every live slice / element reference, which segment its ends lie in"""
        self.st = st
        out = {}

        def visit(v):
            if isinstance(v, Ref):
                if v.fat is not None or any(isinstance(p, tuple) for p in v.path):
                    self.zone(v, out)
            elif isinstance(v, Agg):
                if v.v == "it" and isinstance(v.f[0], Seq) and v not in out:
                    i = self.locate(v.f[0], ZERO)
                    out[v] = "end" if i is None else zname(v.f[0].segs[i].t)
                elif v.f and v not in out:
                    # a counter kept next to a sequence: does it equal its length?
                    q = [x for x in v.f if isinstance(x, Seq)]
                    n = [x for x in v.f if isinstance(x, Aff)]
                    if len(q) == 1 and n and v.v != "bl":
                        out[v] = tuple(self.eq0(x - q[0].length()) for x in n)
                for x in v.f:
                    visit(x)
            elif isinstance(v, Seq):
                for s in v.segs:
                    visit(s.t)
        for r in sorted(st.mem, key=repr):
            visit(st.mem[r])
        self.ranges(st, out)
        return out

    def ranges(self, st, out):
        """index ranges of the running function that end where one of its slices ends: where do they start?"""
        top = st.frames[-1].depth
        loc = [st.mem[r] for r in sorted(st.mem, key=repr) if r[0] == "L" and r[1] == top]
        fats = [v for v in loc if isinstance(v, Ref) and v.fat is not None]
        if not fats:
            return
        if self.zone_ints:
            # a procedure that rearranges a slice: where do its index variables point?
            for v in loc:
                if isinstance(v, Aff) and not v.is_const() and v not in out:
                    for f in fats:
                        q = self.peek_ref(f)
                        if isinstance(q, Seq) and not monotone(q):
                            i = self.locate(q, f.fat[0] + v)
                            out[v] = "end" if i is None else (zname(q.segs[i].t), i)
                            break
        for v in loc:
            if isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], Aff) and isinstance(v.f[1], Aff) and v not in out:
                for f in fats:
                    if v.f[1] == f.fat[1] or self.ent_eq(v.f[1] - f.fat[1]):
                        q = self.peek_ref(f)
                        if isinstance(q, Seq):
                            i = self.locate(q, f.fat[0] + v.f[0])
                            out[v] = "end" if i is None else (zname(q.segs[i].t), i if not monotone(q) else None)
                            break

    def peek_ref(self, f):
        v = self.st.mem.get(f.root)
        for p in f.path:
            if isinstance(p, tuple) or not isinstance(v, Agg) or p >= len(v.f):
                return None
            v = v.f[p]
        return v

    def zone(self, v, out):
        if v in out:
            return
        res = []
        cur = self.st.mem.get(v.root)
        for p in v.path:
            if isinstance(p, tuple):
                if not isinstance(cur, Seq):
                    out[v] = None
                    return
                i = self.locate(cur, p[1])
                if i is None:
                    res.append("end")
                    out[v] = tuple(res)
                    return
                res.append(zname(cur.segs[i].t))
                cur = cur.segs[i].t
            elif isinstance(cur, Agg) and p < len(cur.f):
                cur = cur.f[p]
            else:
                out[v] = None
                return
        if v.fat is not None:
            if not isinstance(cur, Seq):
                out[v] = None
                return
            a, n = v.fat
            i = self.locate(cur, a)
            res.append("end" if i is None else zname(cur.segs[i].t))
            if not self.ge0(n - 1):
                res.append("empty")
            else:
                j = self.locate(cur, a + n - 1)
                res.append("end" if j is None else zname(cur.segs[j].t))
        out[v] = tuple(res)

    def at_head(self, table, st):
        self.normal(st)
        self.zmap = self.zones(st)
        key0 = self.point(st)
        skel, slots, _ = self.canon(st)
        skinds = self.kinds
        key = (key0, skel)
        self.arrivals += 1
        if key not in table:
            table[key] = st.clone()
            self.dirty[key] = self.arrivals
            return None
        old = table[key]
        self.st = old
        _, oslots, _ = self.canon(old)
        self.st = st
        self.kinds = skinds
        j = self.join(old, oslots, st, slots)
        if self.same(old, j):
            return None
        j.trace = st.trace
        table[key] = j
        self.dirty[key] = self.arrivals
        return None

    def same(self, a, b):
        return a.mem == b.mem and a.cons == b.cons and a.ghost == b.ghost and \
            [f.dest for f in a.frames] == [f.dest for f in b.frames]

    def align(self, s1, s2):
        """common supersequence of segment templates -> list of (t, n1, n2)"""
        a, b = list(s1.segs), list(s2.segs)
        n, m = len(a), len(b)
        # LCS table
        L = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                if a[i].t == b[j].t and self.tracked(a[i]) == self.tracked(b[j]):
                    L[i][j] = L[i + 1][j + 1] + 1 + (5 if self.tracked(a[i]) else 0)
                L[i][j] = max(L[i][j], L[i + 1][j], L[i][j + 1])
        out = []
        i = j = 0
        while i < n or j < m:
            if i < n and j < m and a[i].t == b[j].t and self.tracked(a[i]) == self.tracked(b[j]) and \
                    L[i][j] == L[i + 1][j + 1] + 1 + (5 if self.tracked(a[i]) else 0):
                out.append((a[i].t, a[i].n, b[j].n))
                i += 1
                j += 1
            elif j < m and (i >= n or (L[i][j] == L[i][j + 1] and not (L[i][j] == L[i + 1][j] and srank(a[i].t) <= srank(b[j].t)))):
                out.append((b[j].t, ZERO, b[j].n))
                j += 1
            else:
                out.append((a[i].t, a[i].n, ZERO))
                i += 1
        return out

    def join(self, s1, sl1, s2, sl2):
        v1, v2, shape = [], [], []
        for x, y in zip(sl1, sl2):
            if isinstance(x, Seq):
                al = self.align(x, y)
                if len(al) > 12:
                    c1 = self.collapse(x)
                    c2 = self.collapse(y)
                    al = self.align(c1, c2)
                shape.append(("S", [t for t, _, _ in al]))
                for t, n1, n2 in al:
                    v1.append(n1)
                    v2.append(n2)
            else:
                shape.append(("I",))
                v1.append(x)
                v2.append(y)
        piv, res = affine_join(v1, v2)
        new = [None] * len(v1)
        ns = 0
        for c in piv:
            new[c] = sym(ns)
            ns += 1
        lossy = False
        for j, r in enumerate(res):
            if r[0] == "p":
                continue
            _, c, t, den = r
            if den == 1:
                e = const(c)
                for col, k in t.items():
                    e = e + new[col].scale(k)
                new[j] = e
            else:
                # rational relation: a fresh symbol, the relation itself is dropped
                new[j] = sym(ns)
                ns += 1
        out = []
        k = 0
        for sh in shape:
            if sh[0] == "I":
                out.append(new[k])
                k += 1
            else:
                segs = []
                for t in sh[1]:
                    if new[k] != ZERO:
                        segs.append(Seg(t, new[k]))
                    k += 1
                out.append(Seq(segs))
        kinds = []
        pos = []
        nq = 0
        for sh, x in zip(shape, sl1):
            pos.append(len(kinds))
            if sh[0] == "S":
                nq += 1
                kinds += [nq] * len(sh[1])
            else:
                kinds.append(0)
        k = 0
        for sh, kd in zip(shape, range(len(shape))):
            if sh[0] == "S":
                k += len(sh[1])
            else:
                if self.kinds.get(kd) == "start":
                    kinds[k] = -1
                k += 1
        # derived quantities: `end - start` of every two-integer aggregate (index ranges)
        x1, x2, xn = [], [], []
        live = [i for i in self.ints if new[pos[i]].t or sl1[i] != sl2[i]]
        dp = {(i, i + 1) for i in self.pairs}
        if len(live) <= 5:
            dp |= {(i, j) for i in live for j in live if i != j}
        done = set()
        for i, j in sorted(dp):
            d = new[pos[j]] - new[pos[i]]
            if d in done or not d.t:
                continue
            done.add(d)
            x1.append(sl1[j] - sl1[i])
            x2.append(sl2[j] - sl2[i])
            xn.append(d)
            kinds.append(0)
        # and what is left of each segment in front of a cursor
        for i, loc in self.curs:
            q = self.seqat.get(loc)
            if q is None:
                continue
            a = pos[q]
            p1, p2, pn = ZERO, ZERO, ZERO
            for k in range(a, a + len(shape[q][1])):
                p1, p2, pn = p1 + v1[k], p2 + v2[k], pn + new[k]
                d = pn - new[pos[i]]
                if d in done or not d.t:
                    continue
                done.add(d)
                x1.append(p1 - sl1[i])
                x2.append(p2 - sl2[i])
                xn.append(d)
                kinds.append(0)
        keep = join_constraints(v1 + x1, s1.cons, v2 + x2, s2.cons, new + xn, kinds)
        r = self.rebuild_join(s1, out)
        r.cons = tuple(sorted(keep, key=ckey))
        r.nsym = ns
        r.lossy = True
        for k, v in r.facts.items():
            if k[0] == "some" and v is False:
                # canonical form of the subtree: no value, at least two children
                g = r.ghost.get("n:" + repr(k[1]))
                if g is not None:
                    r.add_con(g - 2)
        return r

    def rebuild_join(self, st, slots):
        return self.rebuild(st, slots)

    def collapse(self, seq):
        o2 = []
        for s in seq.segs:
            if not self.tracked(s) and o2 and not self.tracked(o2[-1]):
                o2[-1] = Seg(generalise(o2[-1].t, s.t), o2[-1].n + s.n)
            else:
                o2.append(s)
        return Seq(o2)


class Tail:
    def __init__(self, fid, args, rust_call=False):
        self.fid = fid
        self.args = args
        self.rust_call = rust_call


def has_eq(v):
    if isinstance(v, Key):
        return v.c == "="
    if isinstance(v, Agg):
        return any(has_eq(x) for x in v.f)
    if isinstance(v, Term):
        return any(has_eq(x) for x in v.a if not isinstance(x, (str, int)))
    return False


def zname(t):
    r = srank(t)
    return ("<", "=", ">", "?", "-")[r]


def srank(t):
    """order of a template's class, used to pick a canonical alignment"""
    if isinstance(t, Key):
        return {"<": 0, "=": 1, ">": 2}.get(t.c, 3)
    if isinstance(t, Agg):
        for x in t.f:
            r = srank(x)
            if r != 4:
                return r
    return 4


def deep_any(v):
    if isinstance(v, Key):
        return Key(v.c)
    if isinstance(v, Term) and has_any(v):
        return ANY
    if isinstance(v, Agg) and v.f:
        return Agg(v.v, tuple(deep_any(x) for x in v.f))
    return v


def mix(t):
    """forget the class, keep the structure"""
    if isinstance(t, Key):
        return Key("*")
    if isinstance(t, Agg):
        return Agg(t.v, tuple(mix(x) for x in t.f))
    return ANY if isinstance(t, Term) else t


def mixed_eq(t):
    if isinstance(t, Key):
        return t.c == "*"
    return isinstance(t, Agg) and any(mixed_eq(x) for x in t.f)


def set_class(t, c):
    if isinstance(t, Key):
        return Key(c)
    if isinstance(t, Agg):
        return Agg(t.v, tuple(set_class(x, c) for x in t.f))
    if isinstance(t, Term):
        return ANY
    return t


def monotone(seq):
    """class-sorted with at most one tracked element"""
    r = -1
    for s in seq.segs:
        k = srank(s.t)
        if k == 4:
            return True
        if k == 3 or k < r or (k == 1 and r == 1):
            return False
        r = k
    return True


def three_runs(seq):
    """a slice being rearranged in place: keep the longest sorted beginning and end, mix what lies between"""
    segs = seq.segs
    rk = [srank(s.t) for s in segs]
    if any(k == 4 for k in rk):
        return seq
    runs = 1 + sum(1 for a, b in zip(rk, rk[1:]) if b < a or 3 in (a, b))
    if runs <= 2:
        return seq
    i = 1
    while rk[i - 1] <= rk[i] < 3:
        i += 1
    j = len(segs) - 1
    while rk[j - 1] <= rk[j] < 3:
        j -= 1
    if rk[0] == 3:
        i = 0
    if rk[-1] == 3:
        j = len(segs)
    if j <= i:
        return seq
    t, n = segs[i].t, segs[i].n
    for s in segs[i + 1:j]:
        t, n = generalise(t, s.t), n + s.n
    return Seq(segs[:i] + (Seg(mix(t), n),) + segs[j:])


def tracked_runs(seq):
    """neighbouring occurrences of the tracked element: the first, any number more, the last (if it differs)"""
    out, i, segs = [], 0, seq.segs
    while i < len(segs):
        j = i
        while j < len(segs) and srank(segs[j].t) == 1:
            j += 1
        if j - i < 2:
            out.append(segs[i])
            i += 1
            continue
        a, b = segs[i], segs[j - 1]
        if all(s.t == a.t for s in segs[i:j]) and ONE in (a.n, b.n):
            out += [Seg(a.t, ONE), Seg(a.t, MANY)]
        elif a.n == ONE:
            out += [Seg(a.t, ONE), Seg(set_class(a.t, "="), MANY)] + ([Seg(b.t, ONE)] if b.n == ONE else [])
        else:
            out += segs[i:j]
        i = j
    return Seq(out)


MANY = Aff(0, ((0, 1),))     # placeholder, replaced by a fresh length


def untracked_t(t):
    """payload stored with an untracked key: forgotten"""
    if isinstance(t, Agg) and t.f and isinstance(t.f[0], Key) and t.f[0].c != "=":
        return Agg(t.v, (t.f[0],) + tuple(ANY if isinstance(x, Term) else x for x in t.f[1:]))
    return t


def generalise(a, b):
    if a == b:
        return a
    if isinstance(a, Key) and isinstance(b, Key):
        return Key(a.c if a.c == b.c else "?" if a.c in "<>?" and b.c in "<>?" else "*")
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
        return Agg(a.v, tuple(generalise(x, y) for x, y in zip(a.f, b.f)))
    return ANY
