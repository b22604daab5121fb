"""Obligations for lazily loaded trees: what they show, and how the shared state of a node is accessed.

Thread-modular: one call is analysed; the other threads are represented by what they may do to the node while this thread does not
hold its lock (load it, completely).  The rules of models.locks are checked at every access to the state."""
from ..specs import *
from ..interp import Fork
from . import radix as X
from .radix import trees

LZ = "vec_collections::radix_tree::lazy_radix_tree::"
TREE = LZ + "LazyRadixTree"
VP = Term("vp")


def adt(prog, path):
    for t in prog.types:
        if t["k"] == "adt" and t["path"] == path:
            return t
    raise RuntimeError(f"no type {path}")


class Shape:
    """where the parts of a node are, read off the types of the current source"""

    def __init__(self, prog):
        ty = prog.types
        node = adt(prog, TREE)["vs"][0]["f"]
        cell = ty[node[2][1]]
        self.names = [n for n, _ in node]
        if self.names != ["prefix", "value", "children"] or cell["k"] != "adt" or cell["path"] != LZ + "Lazy":
            raise RuntimeError("the layout of a lazy tree is not known")
        f = cell["vs"][0]["f"]
        paths = [ty[t].get("path", "") for _, t in f]
        if sorted(paths) != ["core::cell::UnsafeCell", "lock_api::mutex::Mutex"]:
            raise RuntimeError("the layout of a lazy node is not known")
        self.lock, self.data = paths.index("lock_api::mutex::Mutex"), paths.index("core::cell::UnsafeCell")
        st = ty[ty[f[self.data][1]]["vs"][0]["f"][0][1]]
        kinds = {ty[v["f"][0][1]]["k"]: i for i, v in enumerate(st["vs"]) if len(v["f"]) == 1}
        if len(st["vs"]) != 2 or set(kinds) != {"ref", "adt"}:
            raise RuntimeError("the states of a lazy node are not known")
        self.unloaded, self.loaded = kinds["ref"], kinds["adt"]

    def cell(self, v, loaded):
        f = [None, None]
        f[self.lock] = Agg(0, (Term("raw"), Agg(0, (UNIT,))))
        f[self.data] = Agg(0, (Agg(self.loaded if loaded else self.unloaded, (v,)),))
        return Agg(0, tuple(f))

    def state(self, cell):
        """-> (loaded, content)"""
        if not isinstance(cell, Agg) or len(cell.f) != 2:
            raise Fork()
        d = cell.f[self.data]
        if not isinstance(d, Agg) or len(d.f) != 1 or not isinstance(d.f[0], Agg) or len(d.f[0].f) != 1:
            raise Fork()
        return d.f[0].v == self.loaded, d.f[0].f[0]


def text(b, name):
    n = b.st.fresh()
    b.st.add_con(n - 1)
    return Seq((Seg(Term("s", (name,)), n),))


def archived(b, values, deep=None):
    """archived children: prefix, value and children of their own, each of any content"""
    out = []
    for i, v in enumerate(values):
        ch = Seq((Seg(Term("akid", (f"g{i}",)), b.st.fresh()),))
        out.append(Seg(Agg(0, (text(b, f"q{i}"), SOME(Term(f"v{i}")) if v else NONE(), Agg("arc", (ch,)))), ONE))
    return Seq(out)


def expected(b, sh, root, path, seq):
    """the nodes that an archive's children are loaded as"""
    out = []
    for i, s in enumerate(seq.segs):
        p, v, c = s.t.f
        below = Ref(root, path + (("x", const(i)), 2, 0), (ZERO, c.f[0].length()))
        out.append(Seg(Agg(0, (Agg(0, (p,)), v, sh.cell(below, False))), ONE))
    return Seq(out)


def plain(e, sh, v):
    """a node with everything behind references made explicit"""
    if not isinstance(v, Agg) or len(v.f) != 3:
        raise Fork()
    p, val, c = v.f
    while isinstance(p, Agg) and len(p.f) == 1:
        p = p.f[0]
    if isinstance(val, Agg) and val.v == 1:
        val = SOME(models.deref_all(e, val.f[0]))
    loaded, x = sh.state(c)
    return (p, val, loaded, content(e, sh, loaded, x))


def content(e, sh, loaded, x):
    if not loaded:
        return models.sub_seq(e, models.as_slice(e, x)) if isinstance(x, Ref) else x
    if isinstance(x, Agg) and x.v == "arc":
        x = x.f[0]
    if not isinstance(x, Seq):
        raise Fork()
    return tuple((plain(e, sh, s.t), s.n) if isinstance(s.t, Agg) else (s.t, s.n) for s in x.segs)


def same(e, sh, what, got, want):
    for n, g, w in zip(("prefix", "value"), got, want):
        if g != w:
            raise Fail("member", f"{what}: {n} is {g}, expected {w}")
    nodes(e, sh, what, got[2], got[3], want[2], want[3])


def nodes(e, sh, what, l1, c1, l2, c2):
    if l1 != l2:
        # what matters is what they show
        n1, n2 = [c.length() if isinstance(c, Seq) else sum((n for _, n in c), ZERO) for c in (c1, c2)]
        if not e.ent_eq(n1 - n2):
            raise Fail("member", f"{what} has {n1} children, expected {n2}")
        if not e.ent_eq(n1):
            raise Fork()
        return
    if not l1:
        if c1 != c2:
            raise Fail("member", f"{what}: archived children {c1}, expected {c2}")
        return
    if len(c1) != len(c2):
        raise Fail("member", f"{what} has {len(c1)} children, expected {len(c2)}")
    for i, ((a, n), (b, m)) in enumerate(zip(c1, c2)):
        if n != m:
            raise Fail("member", f"{what}: child {i} occurs {n} times")
        if isinstance(a, tuple) and isinstance(b, tuple):
            same(e, sh, f"{what}, child {i}", a, b)
        elif a != b:
            raise Fail("member", f"{what}: child {i} is {a}, expected {b}")


WIDTHS = [(), (1,), (0,), (1, 0), (0, 1, 1), (1, 0, 0, 1, 1)] + [tuple(i % 3 != 1 for i in range(n)) for n in (17, 40, 140, 270)]


def setup(b, sh, values, loaded, own=True):
    """a node with the given children, loaded or not; -> Ref to the node"""
    kids = archived(b, values)
    at = b.heap(kids)
    want = expected(b, sh, at.root, at.path, kids)
    b.want = want
    x = Agg("arc", (want,)) if loaded else Ref(at.root, at.path, (ZERO, kids.length()))
    node = Agg(0, (Agg(0, (text(b, "p"),)), SOME(VP) if own else NONE(), sh.cell(x, loaded)))
    b.node = node
    return b.heap(node)


def watch(b, sh, r):
    """other threads can reach the node"""
    at = r.path + (2,)
    b.ghost("cell", Agg("cell", (Ref(r.root, at + (sh.data, 0)), Ref(r.root, at + (sh.lock,)), const(sh.loaded), Agg("arc", (b.want,)))))


def settle(e):
    """the call is over"""
    g = e.st.ghost
    g.pop("cell", None)
    if g.get("held"):
        raise Fail("panic", "a lock is held when the function returns")


def lazies(prog_roots=None):
    out = []
    for vals in WIDTHS:
        d0 = f"{len(vals)} children" + (" (" + "".join("v" if v else "-" for v in vals) + ")" if 0 < len(vals) < 9 else "")
        for loaded in (False, True):
            d = d0 + (", loaded" if loaded else ", not loaded")

            def ob(root, build, check, d=d):
                o = Ob(root, d, build, check)
                o.exact_only = True
                o.hard = 60
                out.append(o)

            def state_after(e, b, sh, shared, must=False):
                """the node after the call: as before, or loaded"""
                p, v, l, c = plain(e, sh, final(e, "t"))
                p0, v0, l0, c0 = plain(e, sh, b.node)
                if must or l and not l0:
                    l0, c0 = True, content(e, sh, True, b.want)
                same(e, sh, "the node afterwards", (p, v, l, c), (p0, v0, l0, c0))

            def b_kids(b, vals=vals, loaded=loaded, shared=True, cell=False, by=None):
                sh = b.sh = Shape(b.prog)
                r = setup(b, sh, vals, loaded)
                b.ghost("t", r)
                if shared:
                    watch(b, sh, r)
                b.arg(Ref(r.root, r.path + (2,)) if cell else r)

            def c_kids(e, b, v, shared=True):
                settle(e)
                s = models.sub_seq(e, models.as_slice(e, v))
                nodes(e, b.sh, "children()", True, content(e, b.sh, True, s), True, content(e, b.sh, True, b.want))
                state_after(e, b, b.sh, shared, True)

            def c_mut(e, b, v):
                settle(e)
                s = models.deref_all(e, v)
                nodes(e, b.sh, "children_mut()", True, content(e, b.sh, True, s), True, content(e, b.sh, True, b.want))
                state_after(e, b, b.sh, False, True)

            def c_get(e, b, v):
                settle(e)
                l, _ = b.sh.state(final(e, "t").f[2])
                if not isinstance(v, Agg) or v.v not in (0, 1):
                    raise Fork()
                if v.v == 0 and b.sh.state(b.node.f[2])[0]:
                    raise Fail("value", "a loaded node yields nothing")
                if v.v == 1:
                    if not l:
                        raise Fail("value", "a node that is not loaded yields children")
                    nodes(e, b.sh, "get()", True, content(e, b.sh, True, models.deref_all(e, v.f[0])), True, content(e, b.sh, True, b.want))
                state_after(e, b, b.sh, True)

            def c_clone(e, b, v):
                settle(e)
                got, want = plain(e, b.sh, v), plain(e, b.sh, b.node)
                if got[2] and not want[2]:
                    want = want[:2] + (True, content(e, b.sh, True, b.want))
                same(e, b.sh, "the clone", got, want)
                state_after(e, b, b.sh, True)

            def c_prefix(e, b, v):
                settle(e)
                s = models.sub_seq(e, models.as_slice(e, v))
                if s != b.node.f[0].f[0]:
                    raise Fail("value", f"prefix() is {s}")

            def c_value(e, b, v):
                settle(e)
                if models.deref_all(e, v.f[0] if v.f else v) != VP:
                    raise Fail("value", f"value() is {v}")
            ob("lz::children", b_kids, c_kids)
            ob("lz::clone", b_kids, c_clone)
            ob("fn:" + LZ + "Lazy::<A, B>::get", lambda b, f=b_kids: f(b, cell=True), c_get)
            ob(f"fn:<{TREE}<'a, K, V> as vec_collections::radix_tree::internals::AbstractRadixTreeMut<K, V>>::children_mut",
               lambda b, f=b_kids: f(b, shared=False), c_mut)
            if len(vals) < 3:
                ob("lz::prefix", b_kids, c_prefix)
                ob("lz::value", b_kids, c_value)
    return out


def as_archived(t):
    """a spelled-out tree as an archived one: the prefix is a vector, the children are shared"""
    return Agg(0, (t.f[0].f[0], t.f[1], Agg("arc", (Seq(Seg(as_archived(s.t), s.n) for s in t.f[2].segs),))))


def as_lazy(sh, t):
    return Agg(0, (t.f[0], t.f[1], sh.cell(Agg("arc", (Seq(Seg(as_lazy(sh, s.t), s.n) for s in t.f[2].segs),)), True)))


def wide(b, n):
    """a node with many leaves"""
    kids = [Agg(0, (Agg(0, (text(b, f"q{i}"),)), SOME(Term(f"v{i}")), Seq())) for i in range(n)]
    return Agg(0, (Agg(0, (text(b, "p"),)), NONE(), Seq(Seg(k, ONE) for k in kids)))


def conversions():
    out = []
    for t in trees(7) + [17, 40, 140, 270]:
        def spell(b, t, *rest):
            return X.spell(b, t, *rest) if not isinstance(t, int) else wide(b, t)
        for root in ("lz::from_tree", "lz::from_archived"):
            def build(b, t=t, root=root):
                b.sh = Shape(b.prog)
                b.tree = spell(b, t, "t", False, [], [])
                if root == "lz::from_tree":
                    b.arg(b.tree)
                else:
                    b.ref(as_archived(b.tree), "a")

            def chk(e, b, v):
                settle(e)
                same(e, b.sh, "the tree", plain(e, b.sh, v), plain(e, b.sh, as_lazy(b.sh, b.tree)))
            o = Ob(root, str(t), build, chk)
            o.exact_only = True
            out.append(o)
        for what in ("prefix", "value", "children"):
            def build(b, t=t):
                b.tree = as_archived(spell(b, t, "t", False, [], []))
                b.ref(b.tree, "a")

            def chk(e, b, v, what=what):
                p, val, c = b.tree.f
                if what == "value":
                    if not isinstance(v, Agg) or v.v != val.v or v.v and models.deref_all(e, v.f[0]) != val.f[0]:
                        raise Fail("value", f"value() is {v}, expected {val}")
                    return
                s = models.sub_seq(e, models.as_slice(e, v))
                if s.segs != (p if what == "prefix" else c.f[0]).segs:
                    raise Fail("member", f"{what}() is {s}")
            o = Ob("lz::archived_" + what, str(t), build, chk)
            o.exact_only = True
            out.append(o)

    def made(root, d, args, p, val):
        def build(b):
            b.sh = Shape(b.prog)
            for a in args(b):
                b.arg(a)

        def chk(e, b, v):
            settle(e)
            q, w, l, c = plain(e, b.sh, v)
            n = c.length() if isinstance(c, Seq) else const(len(c))
            if q.segs != tuple(p(b)) or w != val or not e.ent_eq(n):
                raise Fail("member", f"the tree is {v}")
        o = Ob(root, d, build, chk)
        o.exact_only = True
        out.append(o)

    def key(b):
        b.k = text(b, "k")
        r = b.heap(b.k)
        return [Ref(r.root, r.path, (ZERO, b.k.length())), VP]
    made("lz::default", "", lambda b: [], lambda b: (), NONE())
    made("lz::empty", "", lambda b: [], lambda b: (), NONE())
    made("lz::leaf", "", lambda b: [VP], lambda b: (), SOME(VP))
    made("lz::single", "", key, lambda b: b.k.segs, SOME(VP))
    return out


# ---------------------------------------------------------------- the algorithms on lazy trees
def unloaded(b, sh, t):
    """a spelled-out tree as a lazy one whose root is not loaded"""
    a = as_archived(t)
    r = b.heap(a)
    ch = a.f[2].f[0]
    return Agg(0, (t.f[0], t.f[1], sh.cell(Ref(r.root, r.path + (2, 0), (ZERO, ch.length())), False)))


def spelled(e, sh, v):
    """a lazy tree as a spelled-out one, whatever is loaded"""
    if not isinstance(v, Agg) or len(v.f) != 3:
        return v
    p, val, c = v.f
    if isinstance(c, Seq):
        return v                # it is one
    if not isinstance(p, Agg):
        p = Agg(0, (p,))        # a node of an archive
    if isinstance(val, Agg) and val.v == 1:
        val = SOME(models.deref_all(e, val.f[0]))
    if isinstance(c, Agg) and c.v == "arc":
        x = c.f[0]
    else:
        loaded, x = sh.state(c)
        x = (x.f[0] if isinstance(x, Agg) else x) if loaded else models.sub_seq(e, models.as_slice(e, x))
    if not isinstance(x, Seq):
        raise Fork()
    return Agg(0, (p, val, Seq(Seg(spelled(e, sh, s.t), s.n) for s in x.segs)))


def on_lazy(make, mode):
    """obligations for plain trees, restated for lazy ones"""
    out = []
    for o in make("rt"):
        if "260" in o.desc or "40 " in o.desc or o.ranked:
            continue

        def build(b, o=o):
            o.build(b)
            b.sh = Shape(b.prog)
            for i, n in enumerate("ab"):
                r = b.st.ghost.get(n)
                if r is not None:
                    t = b.st.mem[r.root]
                    b.st.mem[r.root] = unloaded(b, b.sh, t) if mode[i] == "u" else as_lazy(b.sh, t)

        def chk(e, b, v, o=o):
            settle(e)
            if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Ref):
                v = SOME(models.deref_all(e, v.f[0]))
            for n in "ab":
                r = e.st.ghost.get(n)
                if r is not None:
                    e.st.ghost[n] = Ref(e.alloc(spelled(e, b.sh, e.load(r.root, r.path))))
            if isinstance(v, Agg) and len(v.f) == 3:
                v = spelled(e, b.sh, v)
            o.check(e, b, v)
        x = Ob("lzt" + o.root[2:], f"{o.desc} {mode}", build, chk)
        x.exact_only = True
        out.append(x)
    return out


def algorithms():
    return [o for mode in ("uu", "lu") for f in (X.spelled_inplace, X.spelled_pure, X.spelled_prefixes, X.spelled_predicates, X.spelled_keys)
            for o in on_lazy(f, mode)]
