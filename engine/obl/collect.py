"""The sort-and-deduplicate collector, decided by the invariants of its two loops."""
from ..specs import *
from ..interp import Unsupported
from ..num import ZERO, ONE
from ..vals import Aff
from .. import models
from .sets import given_x, any_arg, pres
from . import sets, maps

COLLECT = r"^vec_collections::dedup::sort_dedup_by$"
DEDUP = r"^vec_collections::dedup::dedup_by$"
AGG = "vec_collections::dedup::SortAndDedup<"
HOLE = Term("hole")


def cls(t):
    k = models.tkey(t)
    return k.c if k is not None else "*"


def pay(t):
    """value stored with a key; None when the elements are bare keys"""
    return t.f[1] if isinstance(t, Agg) and len(t.f) == 2 else None


def nonempty(e, seq):
    return [s for s in seq.segs if not e.ent_eq(s.n) and e.ge0(s.n - 1)]


def item(like, c, p=ANY):
    return Key(c) if pay(like) is None else Agg(like.v, (Key(c), p))


def put(e, root, path, v):
    e.store(root, path, v)


class Dedup(Inv):
    """d = P G R: P holds what is kept of the elements seen so far, G what has been dropped, R the elements to come.
    P is strictly ascending, R ascending, nothing in R is below anything in P; the last given x is kept"""

    def __init__(self):
        Inv.__init__(self, DEDUP)

    def parts(self, e, fr):
        sl, _ = local_of(e, fr, "&mut [")
        j, _ = local_of(e, fr, "usize")
        rg, _ = local_of(e, fr, "core::ops::range::Range<usize>")
        return sl, j, rg

    def view(self, e, st, fr):
        sl, j, rg = self.parts(e, fr)
        r = models.as_slice(e, st.mem[sl])
        whole = models.seq_at(e, r)
        pre, rest = e.take(whole, r.fat[0])
        mid, post = e.take(rest, r.fat[1])
        jv, (i, n) = st.mem[j], st.mem[rg].f
        if not (isinstance(jv, Aff) and isinstance(i, Aff) and isinstance(n, Aff)):
            raise Fail("value", "the indices are unknown")
        if not e.ent_eq(n - r.fat[1]):
            raise Fail("value", f"the loop runs to {n} of {r.fat[1]}")
        if not e.ge0(i - jv - 1):
            raise Fail("value", f"the indices are {jv}, {i}")
        kept, rest = e.take(mid, jv + 1)
        gone, todo = e.take(rest, i - jv - 1)
        return r, pre, kept, gone, todo, post, jv, i, n

    def prepare(self, e, st, fr):
        """single elements of unknown position are given one; neighbours of equal position become one run"""
        r, pre, kept, gone, todo, post, j, i, n = self.view(e, st, fr)
        mid = []
        for s in nonempty(e, kept) + nonempty(e, gone) + nonempty(e, todo):
            c = cls(s.t)
            if c in ("?", "*", "?=") and e.ent_eq(s.n - 1):
                s = Seg(models.set_class(s.t, e.choose_of("<>" if c == "?" else "<=>")), ONE)
                c = cls(s.t)
            if mid and cls(mid[-1].t) == c:
                if c == "=" and e.ent_eq(s.n - 1):
                    # the last occurrence stays apart
                    p = mid.pop()
                    k = p.n
                    if mid and cls(mid[-1].t) == "=":
                        k = k + mid.pop().n
                    mid += [Seg(models.set_class(s.t, "="), k), Seg(s.t, ONE)]
                else:
                    mid[-1] = Seg(models.set_class(s.t, c), mid[-1].n + s.n)
            else:
                mid.append(s)
        models.write_seq(e, Ref(r.root, r.path), Seq(pre.segs + tuple(mid) + post.segs))
        st.ghost["case"] = Term(" ".join(cls(s.t) + ("1" if s.n == ONE else "") for s in mid))

    def check(self, e, st, fr, first):
        r, pre, kept, gone, todo, post, j, i, n = self.view(e, st, fr)
        like = (kept.segs + todo.segs)[0].t if kept.segs + todo.segs else None
        if like is None:
            raise Fail("value", "empty")
        pos = 0
        nk = 0
        old = None
        for s in nonempty(e, kept):
            c = "<=>".find(cls(s.t))
            if c < pos:
                raise Fail("sorted", f"kept {kept}")
            pos = c
            if c == 1:
                nk += 1
                old = s
        if nk > 1 or nk and not e.ge0(ONE - old.n):
            raise Fail("sorted", f"x is kept more than once: {kept}")
        eq = []
        for s in nonempty(e, todo):
            c = "<=>".find(cls(s.t))
            if c < pos:
                raise Fail("sorted", f"kept {kept}, to come {todo}")
            pos = c
            if c == 1:
                eq.append(s)
        # what is known about the x that will be kept
        last = eq[-1] if eq else None
        if last is not None and e.ent(last.n - 1):
            fin = (True, pay(last.t) if e.ent_eq(last.n - 1) or pay(last.t) is not ANY else ANY)
        elif last is not None:
            fin = (True, ANY) if nk else (None, ANY)
        elif nk:
            fin = (True, pay(old.t))
        else:
            fin = (False, None)
        if first:
            st.ghost["dd"] = Agg(0, (fin[0] is True, fin[0] is False, fin[1] if fin[1] is not None else ANY))
        else:
            yes, no, v = st.ghost["dd"].f
            if yes and fin[0] is not True:
                raise Fail("member", "x may be lost")
            if no and fin[0] is not False:
                raise Fail("member", "x appeared from nowhere")
            if yes and v is not ANY and fin[1] is not None and fin[1] != v:
                raise Fail("payload", f"the last value of x is {fin[1]}, not {v}")
        return like

    def havoc(self, e, st, fr, like):
        yes, no, v = st.ghost["dd"].f

        def I(c, p=ANY):
            return item(like, c, p)

        def seg(t):
            return Seg(t, e.st.fresh())
        x = Seg(I("=", v), ONE)
        cases = []
        if not no:
            cases += ["below", "some", "all"]
            if not yes:
                cases += ["above0", "below0"]
            cases += ["above"]
        else:
            cases += ["below0", "above0"]
        c = e.choose_of(cases)
        st.ghost["case"] = Term(c)
        r, pre, kept, gone, todo, post, j, i, n = self.view(e, st, fr)
        last = [x] if yes else []
        more = [seg(I("="))]
        P, R = {
            "below": lambda: ([seg(I("<")), Seg(I("<"), ONE)], [seg(I("<"))] + more + last),
            "below0": lambda: ([seg(I("<")), Seg(I("<"), ONE)], [seg(I("<"))]),
            "some": lambda: ([seg(I("<")), Seg(I("="), ONE)], more + last),
            "all": lambda: ([seg(I("<")), x], []),
            "above": lambda: ([seg(I("<")), x, seg(I(">")), Seg(I(">"), ONE)], []),
            "above0": lambda: ([seg(I("<")), seg(I(">")), Seg(I(">"), ONE)], []),
        }[c]()
        G = [Seg(I("*"), e.st.fresh())]
        kn = Seq(P).length()
        gn = Seq(G).length()
        i2 = kn + gn
        rest = n - i2 - Seq(R).length()
        # R ends with everything above x
        st.add_con(rest)
        R = R + [Seg(I(">"), rest)]
        sl, jl, rg = self.parts(e, fr)
        models.write_seq(e, Ref(r.root, r.path), Seq(pre.segs + tuple(P + G + R) + post.segs))
        st.mem[jl] = kn - 1
        st.mem[rg] = Agg(st.mem[rg].v, (i2, n))
        if not st.feasible():
            from ..interp import Prune
            raise Prune()

    ghosts = ("dd", "case")

    def blank(self, e, st, fr, m):
        sl, j, rg = self.parts(e, fr)
        r = models.as_slice(e, st.mem[sl])
        m[j] = m[rg] = HOLE
        tmp = st.clone()
        tmp.mem = m
        e.st = tmp
        try:
            e.store(r.root, r.path, HOLE)
        finally:
            e.st = st
        return tmp.mem


class Collect(Inv):
    """data = sorted part, rest: the sorted part is strictly ascending; x is in there iff it was given, with the last value given"""
    ghosts = ("any", "lasteq", "case")

    def __init__(self, bare):
        Inv.__init__(self, COLLECT)
        self.bare = bare

    def parts(self, e, st, fr):
        root, t = local_of(e, fr, AGG)
        i, j = fields(t, ("data", "sorted"))
        return root, i, j

    def check(self, e, st, fr, first):
        root, i, j = self.parts(e, st, fr)
        v = st.mem[root]
        data, n = unwrap(v.f[i]), v.f[j]
        if not isinstance(n, Aff) or not e.ge0(data.length() - n):
            raise Fail("value", f"{n} elements of {data} are called sorted")
        pre, post = e.take(data, n)
        ph = given_x(e)
        want = None if ph == "none" else ANY if ph == "open" else st.ghost["lasteq"]
        pos, seen = 0, False
        for s in nonempty(e, pre):
            c = "<=>".find(cls(s.t))
            if c < pos or c == 1 and pos == 1 and seen is not False or c == 1 and not e.ge0(ONE - s.n):
                raise Fail("sorted", f"the sorted part is {pre}")
            pos = c
            if c == 1:
                if want is None:
                    raise Fail("member", "x is present before it was given")
                seen = True if want is ANY or self.bare or pay(s.t) == want else None
        for s in nonempty(e, post):
            c = cls(s.t)
            if c in "<>?":
                continue
            if want is None:
                raise Fail("member", f"the unsorted part is {post}")
            if c == "=" and e.ent(s.n - 1) and (self.bare or want is ANY or pay(s.t) == want):
                seen = True
            elif not self.bare and want is not ANY:
                seen = None
        if want is not None and seen is not True and (want is not ANY or seen is False):
            raise Fail("payload", f"the last value of x is not the one that counts in {pre} | {post}")

    CASES = ["none", "open s", "open r", "only r", "last r", "only s", "last s"]

    def havoc(self, e, st, fr, data):
        c = e.choose_of(self.CASES)
        st.ghost["case"] = Term(c)
        old = e.choice(2) if c.endswith("r") else 0
        root, i, j = self.parts(e, st, fr)
        v = st.mem[root]

        def I(k, p=ANY):
            return Key(k) if self.bare else Agg(0, (Key(k), p))

        def seg(t):
            return Seg(t, e.st.fresh())
        ph = c.split()[0]
        val = Term("v_" + ph) if ph != "open" else ANY
        lo, hi = seg(I("<")), seg(I(">"))
        if c == "none":
            a, b = [lo, hi], [seg(I("?"))]
        elif c.endswith("s"):
            a, b = [lo, Seg(I("=", val), ONE), hi], [seg(I("*" if ph == "open" else "?"))]
        else:
            a = [lo, Seg(I("="), ONE), hi] if old else [lo, hi]
            b = [seg(I("*")), Seg(I("=", val), ONE), seg(I("*" if ph == "open" else "?"))]
        f = list(v.f)
        f[i] = rewrap(f[i], Seq(a + b))
        f[j] = Seq(a).length()
        st.mem[root] = Agg(v.v, tuple(f))
        if ph == "none":
            st.ghost.pop("any", None)
            st.ghost.pop("lasteq", None)
        else:
            st.ghost["any"] = Term("open" if ph == "open" else "done")
            st.ghost["lasteq"] = Term("v_first" if ph == "open" else "v_" + ph)

    def blank(self, e, st, fr, m):
        root, i, j = self.parts(e, st, fr)
        v = m[root]
        m[root] = Agg(v.v, tuple(HOLE if k in (i, j) else x for k, x in enumerate(v.f)))
        return m


def rewrap(v, s):
    return s if isinstance(v, Seq) else Agg(v.v, (rewrap(v.f[0], s),) + v.f[1:])


def from_any():
    out = []
    for f, bare in ((sets.from_any, True), (maps.from_any, False)):
        for o in f():
            if o.hard:
                o.hard = 100
                o.inv = (Collect(bare), Dedup())
            out.append(o)
    return out
