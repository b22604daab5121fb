"""Obligations for the validation of archives (CheckBytes)."""
import itertools
from ..specs import *
from .. import radix as R
from ..num import const

DONE = Agg(0, ())


def collection(kind, segs):
    """(root, segments) -> archived value; `parts` are the paths that have to be validated"""
    s = Seq(tuple(segs))
    if kind in ("set", "map"):
        return wrap(s), [(0,)]
    ch = Agg("arc", (s,)) if kind == "art" else s
    pre = Agg(0, (Seq((Seg(Term("s", ("p",)), Term("len")),)),))
    return Agg(0, (pre, Term("opt", (Term("root"),)), ch)), [(0,), (1,), (2,)]


def elem(kind, key, i):
    if kind == "set":
        return key
    if kind == "map":
        return Agg(0, (key, ANY))
    return Agg("atree" if kind == "art" else "tree", (key, ANY if i is None else Term("c%d" % i)))


def blank(kind):
    """a child with an empty prefix"""
    ch = Seq(())
    return Agg(0, (Agg(0, (Seq(()),)), SOME(ANY), Agg("arc", (ch,)) if kind == "art" else ch))


def setup(b, kind, segs, ascending):
    st = b.st
    v, parts = collection(kind, segs)
    if kind in ("rt", "art"):
        n = st.fresh()
        v = Agg(0, (Agg(0, (Seq((Seg(Term("s", ("p",)), n),)),)),) + v.f[1:])
    b.ref(v, "this")
    b.arg(Ref(("k", "ctx")))
    st.ghost["archive"] = ONE
    if ascending:
        st.ghost["ascending"] = ONE
    b.parts = parts


def decide(e, b, v, good):
    """Ok iff every part is valid and the keys are in order"""
    if not isinstance(v, bool):
        raise Fork()
    r = e.st.ghost["this"]
    if v:
        for p in b.parts:
            if not models.validated(e, Ref(r.root, p)):
                raise Fail("value", f"accepted although part {p} was not validated")
        if "invalid" in e.st.ghost:
            raise Fail("value", "accepted although a part is invalid")
        if not good:
            raise Fail("value", "accepted although the keys are not strictly ascending or a child has an empty prefix")
    elif good and "invalid" not in e.st.ghost:
        raise Fail("value", "refused although every part is valid and the keys ascend")


KINDS = ("set", "map", "rt", "art")


def accepted():
    """sorted archives of any size"""
    out = []
    for kind in KINDS:
        for present in (False, True):
            def build(b, kind=kind, present=present):
                st = b.st
                t = lambda k, p: elem(kind, k, None)
                setup(b, kind, b.seq(t, "a", present).segs, not b.exact)

            def check(e, b, v):
                decide(e, b, v, True)
            out.append(Ob("check_" + kind, f"ascending, {'with' if present else 'without'} x", build, check))
    return out


def refused():
    """archives of any size in which the order is violated at an arbitrary place: x is the key before the first descent"""
    out = []
    for kind in KINDS:
        for y in ("=", "<"):
            def build(b, kind=kind, y=y):
                st = b.st
                n, m = st.fresh(), st.fresh()
                k = lambda c: elem(kind, Key(c), None)
                setup(b, kind, [Seg(k("<"), n), Seg(k("="), ONE), Seg(k(y), ONE), Seg(k("*" if kind in ("set", "map") else ">"), m)], False)

            def check(e, b, v):
                decide(e, b, v, False)
            ob = Ob("check_" + kind, f"{'equal' if y == '=' else 'descending'} neighbours anywhere", build, check)
            ob.prove_only = True
            out.append(ob)
        if kind in ("rt", "art"):
            def build(b, kind=kind):
                st = b.st
                n, m = st.fresh(), st.fresh()
                k = lambda c: elem(kind, Key(c), None)
                setup(b, kind, [Seg(k("<"), n), Seg(blank(kind), ONE), Seg(k(">"), m)], False)

            def check(e, b, v):
                decide(e, b, v, False)
            ob = Ob("check_" + kind, "empty prefix anywhere", build, check)
            ob.prove_only = True
            out.append(ob)
    return out


def key(r):
    return Key("=" if r == 0 else "<" if r < 0 else ">", None if r == 0 else RANK0 + r)


def long_lists():
    out = []
    for n in (5, 9, 17, 33, 65, 129, 260):
        base = [i - n // 2 for i in range(n)]
        out.append(tuple(base))
        for at in sorted({0, 1, 2, 3, n // 2, n - 4, n - 3, n - 2} & set(range(n - 1))):
            swapped = list(base)
            swapped[at], swapped[at + 1] = swapped[at + 1], swapped[at]
            out.append(tuple(swapped))
            out.append(tuple(base[:at + 1] + base[at:]))
    return out


def spelled():
    """archives given element by element"""
    out = []
    lists = [t for n in range(5) for t in itertools.product((-1, 0, 1), repeat=n)] + long_lists()
    for kind in KINDS:
        for l in lists:
            good = all(x < y for x, y in zip(l, l[1:]))

            def build(b, kind=kind, l=l):
                setup(b, kind, [Seg(elem(kind, key(r), i), ONE) for i, r in enumerate(l)], False)

            def check(e, b, v, good=good):
                decide(e, b, v, good)
            name = "".join("<=>"[(x > 0) - (x < 0) + 1] for x in l)
            ob = Ob("check_" + kind, f"{len(l)}: {name}" if len(l) < 5 else f"{len(l)} {hash(l) % 10**6}", build, check)
            ob.exact_only = True
            ob.ranked = True
            out.append(ob)
        if kind in ("rt", "art"):
            for n in (1, 2, 3, 4, 20, 140):
                for at in sorted({0, 1, n // 2, n - 1} & set(range(n))):
                    def build(b, kind=kind, n=n, at=at):
                        segs = [Seg(elem(kind, key(i - n // 2), i), ONE) for i in range(n)]
                        segs[at] = Seg(blank(kind), ONE)
                        setup(b, kind, segs, False)

                    def check(e, b, v):
                        decide(e, b, v, False)
                    ob = Ob("check_" + kind, f"empty prefix at {at} of {n}", build, check)
                    ob.exact_only = True
                    ob.ranked = True
                    out.append(ob)
    return out
