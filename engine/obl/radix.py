"""Obligations for radix trees: one level of the tree, the levels below by structural induction.

Both operands are seen relative to a common string P.  An operand is empty, a node at P (with or without
value, arbitrarily many children) or deep: its prefix continues after P with a component of class < = >
relative to the tracked component.  The subtree an operand holds below P followed by the tracked component
is called ca (cb); every other subtree is anonymous."""
from ..specs import *
from ..num import ZERO, ONE
from ..interp import Fork
from .. import radix
from .maps import VA, VB

CA, CB = Term("ca"), Term("cb")
P = Term("s", ("P",))


class Undecided(Exception):
    pass


class N:
    """node at P"""

    def __init__(self, v, c):
        self.v, self.c = v, c

    def __str__(self):
        return f"{'v' if self.v else '-'}{'c' if self.c else '-'}"


class D:
    """prefix continues after P with a component of class cls"""

    def __init__(self, cls):
        self.cls = cls
        self.v = False
        self.c = cls == "="

    def __str__(self):
        return "P" + self.cls


class E:
    """empty tree"""
    v = c = False

    def __str__(self):
        return "0"


def prefix(p):
    return [Seg(P, p)]


def node(b, side, name, p, arc=False):
    va, ca = (VA, CA) if name == "a" else (VB, CB)
    tag = "atree" if arc else "tree"

    def kids(s):
        return Agg("arc", (s,)) if arc else s

    if isinstance(side, E):
        return Agg(0, (Agg(0, (Seq(),)), NONE(), kids(Seq())))
    if isinstance(side, N):
        ch = b.seq(lambda k, pl: Agg(tag, (k, pl)), name, side.c, ca)
        if not side.v:
            n = ZERO
            for s in ch.segs:
                n = n + s.n
            b.st.add_con(n - 2)
        return Agg(0, (Agg(0, (Seq(prefix(p)),)), SOME(va) if side.v else NONE(), kids(ch)))
    id = ca if side.c else Term("r" + name)
    n, l = b.st.fresh(), b.st.fresh()
    b.st.ghost["n:" + repr(id)] = n
    b.st.ghost["len:" + repr(id)] = l
    return Agg(0, (Agg(0, (Seq(prefix(p) + [Seg(b.key(side.cls), ONE), Seg(Term("rest", (id,)), l)]),)), Term("opt", (id,)),
                   kids(Seq((Seg(Term("akid" if arc else "kid", (id,)), n),)))))


def parts(e, v, p, what="result", canonical=True):
    """(value, children, at P?) of a result, seen from P; checks the canonical form"""
    if radix.is_tree(v):
        v = radix.unfold(e, v)
    if not radix.looks_node(v):
        raise Fail("value", f"{what} is not a tree: {v}")
    val, ch = v.f[1], v.f[2]
    tag = "tree"
    if isinstance(ch, Agg):
        ch = ch.f[0]
        tag = "atree"
    segs = [s for s in radix.whole(e, v.f[0].f[0].segs) if not e.ent_eq(s.n)]
    nc = ZERO
    for s in ch.segs:
        nc = nc + s.n
    if not segs and val == NONE() and e.ent_eq(nc):
        return NONE(), Seq()
    at = False
    if e.ent_eq(p):
        at = not segs
        rest = segs
    else:
        if not segs or segs[0].t != P or not e.ent_eq(segs[0].n - p):
            raise Fail("value", f"{what} does not start at the common prefix: {segs}")
        rest = segs[1:]
        at = not rest
    if not at:
        t = radix.fold(e, v, Seq(rest))
        if t is None or has_any(t.f[1]) and e.exact:
            if has_any(v):
                raise Fork()
            raise Fail("value", f"{what} is not one of the subtrees below the common prefix: prefix {segs}, value {val}, children {ch}")
        return NONE(), Seq((Seg(t, ONE),))
    if isinstance(val, Term) and val.op == "opt" or not isinstance(val, Agg):
        raise Fork()
    if canonical and val.v == 0 and not e.ent(nc - 2):
        raise Fail("canonical", f"{what} is a node without value and with fewer than two children: {ch}")
    return val, Seq(Seg(radix.element(e, s.t), s.n, s.tok) for s in ch.segs)


def check(e, v, p, value, child, what="result", canonical=True):
    """value: expected value at P (None: none); child: expected subtree below x (None: none)"""
    val, ch = parts(e, v, p, what, canonical)
    if value is None:
        if val.v != 0:
            raise Fail("member", f"{what} holds {val} at the common prefix, expected no value")
    elif val.v != 1:
        raise Fail("member", f"{what} holds no value at the common prefix, expected {value}")
    elif not same_val(e, val.f[0], value):
        raise Fail("payload", f"{what} holds {val.f[0]} at the common prefix, expected {value}")
    check_shape(e, ch, child is not None, child, what)


# ---------------------------------------------------------------- combinations
def value_of(e, a, b, fname, inplace):
    """combined value of VA and VB under the callback"""
    args = (VA, VB)
    f = fact(e, fname, *args)
    if f is None:
        raise Fail("calls", f"the callback was not applied to the two values: {calls(e)}")
    check_calls(e, [(fname,) + args])
    if not f:
        return None
    return Term(fname + "!", args) if inplace else Term(fname, args)


def child_of(e, op):
    t = Term(op, (CA, CB))
    f = e.st.facts.get(("empty", t))
    if f is None:
        raise Fail("calls", "the subtrees below x were not combined")
    return None if f else t


def left_value(e, b, fname):
    """pure left_combine: the callback may or may not be asked about a value without counterpart"""
    w = Agg(1, (VB,)) if b else NONE()
    f = fact(e, fname, VA, w)
    if f is None:
        if b:
            raise Fail("calls", f"the callback was not applied to the two values: {calls(e)}")
        check_calls(e, [])
        return VA
    check_calls(e, [(fname, VA, w)])
    return Term(fname, (VA, w)) if f else None


def expected(e, op, fname, inplace, a, b):
    """-> (value, child)"""
    if op == "outer":
        if a.v and b.v:
            v = VA if fname == "left!" else value_of(e, a, b, fname, inplace)
        else:
            check_calls(e, [])
            v = VA if a.v else VB if b.v else None
        c = child_of(e, op) if a.c and b.c else CA if a.c else CB if b.c else None
    elif op == "inner":
        if a.v and b.v:
            v = VA if fname == "left!" else value_of(e, a, b, fname, inplace)
        else:
            check_calls(e, [])
            v = None
        c = child_of(e, op) if a.c and b.c else None
    elif op == "left":
        if fname == "drop":
            v = VA if a.v and not b.v else None
        elif not a.v:
            check_calls(e, [])
            v = None
        elif inplace:
            if b.v:
                v = value_of(e, a, b, fname, True)
            else:
                check_calls(e, [])
                v = VA
        else:
            v = left_value(e, b.v, fname)
        c = child_of(e, op) if a.c and b.c else CA if a.c else None
    else:
        hit = False
        if b.v:
            hit = fact(e, "pred_w", VB)
            if hit is None:
                if isinstance(a, E):
                    hit = False
                else:
                    raise Fail("calls", "the predicate was not applied to the value at the common prefix")
        if op == "remove":
            if hit:
                return None, None
            v = VA if a.v else None
            c = child_of(e, op) if a.c and b.c else CA if a.c else None
        else:
            if hit:
                return VA if a.v else None, CA if a.c else None
            v = None
            c = child_of(e, op) if a.c and b.c else None
    return v, c


TF = (False, True)
NODES = [N(v, c) for v in TF for c in TF]
DEEP = [D(c) for c in "<=>"]


def cases(deep=True):
    """(side a, side b, is P empty, distinct)"""
    out = [(a, b, False, False) for a in NODES for b in NODES]
    if deep:
        out += [(a, b, False, False) for a in NODES for b in DEEP]
        out += [(a, b, False, False) for a in DEEP for b in NODES]
        out += [(D(x), D(y), False, x == y) for x in "<=>" for y in "<=>" if (x, y) != ("=", "=")]
        out += [(E(), b, True, False) for b in [E()] + NODES + DEEP]
        out += [(a, E(), True, False) for a in NODES + DEEP]
    return out


def setup(b, a, o, zero, distinct, arc):
    p = ZERO if zero else b.st.fresh()
    b.ghost("p", p)
    if distinct:
        b.ghost("distinct", True)
    return node(b, a, "a", p, arc), node(b, o, "b", p, arc)


def combination(root, op, fname, inplace, deep=True):
    out = []
    for a, o, zero, distinct in cases(deep):
        def build(b, a=a, o=o, zero=zero, distinct=distinct):
            x, y = setup(b, a, o, zero, distinct, root.startswith("art"))
            b.ref(x, "a")
            b.ref(y, "b")

        def chk(e, b, v, a=a, o=o):
            v = final(e, "a") if inplace else v
            val, c = expected(e, op, fname, inplace, a, o)
            check(e, v, e.st.ghost["p"], val, c)
            check(e, final(e, "b"), e.st.ghost["p"], VB if o.v else None, CB if o.c else None, "the second operand", False)
            if not inplace:
                check(e, final(e, "a"), e.st.ghost["p"], VA if a.v else None, CA if a.c else None, "the first operand", False)
        out.append(Ob(root, f"{a}|{o}" + (" at the root" if zero else "") + (" apart" if distinct else ""), build, chk))
    return out


def inplace(m="rt"):
    return (combination(m + "::outer_with", "outer", "f_mut_rt", True) + combination(m + "::inner_with", "inner", "f_mut_rt_w", True) +
            combination(m + "::left_with", "left", "f_mut_rt_w", True))


def pure(m="rt"):
    return (combination(m + "::outer", "outer", "f_rt", False) + combination(m + "::inner", "inner", "f_rt_w", False) +
            combination(m + "::left", "left", "f_rt_left", False))


def prefixes(m="rt"):
    return combination(m + "::remove_prefix_with", "remove", None, True) + combination(m + "::retain_prefix_with", "retain", None, True)


NAMED = (("union", "outer", "left!"), ("intersection", "inner", "left!"), ("difference", "left", "drop"))


def wrappers_pure(m="rt"):
    """union, intersection, difference: the combination with the first operand's value kept (or dropped)"""
    return [o for n, op, f in NAMED for o in combination(f"{m}::{n}", op, f, False, False)]


def wrappers_inplace(m="rt"):
    return [o for n, op, f in NAMED for o in combination(f"{m}::{n}_with", op, f, True, False)]


# ---------------------------------------------------------------- predicates
class L(N):
    """node at P with nothing beside its value and the tracked subtree"""

    def __str__(self):
        return N.__str__(self) + "!"


def tight(b, v, side):
    """remove every other child"""
    ch = v.f[2]
    arc = isinstance(ch, Agg)
    q = ch.f[0] if arc else ch
    q = Seq(s for s in q.segs if s.n == ONE)
    return Agg(0, v.f[:2] + (Agg("arc", (q,)) if arc else q,))


LEAVES = [L(True, False), L(True, True)]


def pred_cases():
    T = NODES + LEAVES
    out = [(a, b, False, False) for a in T for b in T]
    out += [(a, b, False, False) for a in T for b in DEEP]
    out += [(a, b, False, False) for a in DEEP for b in T]
    out += [(D(x), D(y), False, x == y) for x in "<=>" for y in "<=>" if (x, y) != ("=", "=")]
    out += [(E(), b, True, False) for b in [E()] + T + DEEP]
    out += [(a, E(), True, False) for a in T + DEEP]
    return out


def only_x(s):
    """holds nothing but (possibly) its value at P and the subtree below x"""
    return isinstance(s, (L, E)) or isinstance(s, D) and s.cls == "="


def predicate(root, op, swap=False, negate=False):
    out = []
    for a, o, zero, distinct in pred_cases():
        def build(b, a=a, o=o, zero=zero, distinct=distinct):
            x, y = setup(b, a, o, zero, distinct, root.startswith("art"))
            x = tight(b, x, a) if isinstance(a, L) else x
            y = tight(b, y, o) if isinstance(o, L) else y
            b.ref(x)
            b.ref(y)

        def chk(e, b, v, a=a, o=o):
            if v not in (True, False):
                raise Fail("value", f"result is {v}")
            v = bool(v) != negate
            l, r, ids = (o, a, (CB, CA)) if swap else (a, o, (CA, CB))
            f = e.st.facts.get((op,) + ids)
            if op == "subset":
                bad = l.v and not r.v or l.c and (not r.c or f is False)
                if v and (bad or l.c and r.c and f is None):
                    raise Fail("value", "true although a value of the first tree has no counterpart in the second")
                if v and isinstance(r, E) and not isinstance(l, E):
                    raise Fail("value", "a tree that holds something is a subset of the empty tree")
                if not v and only_x(l) and not bad:
                    raise Fail("value", "false although every key of the first tree is in the second")
            else:
                hit = l.v and r.v or l.c and r.c and f is True
                if not v and (hit or l.c and r.c and f is None):
                    raise Fail("value", "false although both trees hold a value at the same key")
                if v and not hit and (only_x(l) or only_x(r)):
                    raise Fail("value", "true although the trees have no key in common")
        out.append(Ob(root, f"{a}|{o}" + (" at the root" if zero else "") + (" apart" if distinct else ""), build, chk))
    return out


def predicates(m="rt"):
    return (predicate(m + "::is_subset", "subset") + predicate(m + "::is_superset", "subset", True) +
            predicate(m + "::intersects", "intersects") + predicate(m + "::is_disjoint", "intersects", negate=True))


# ---------------------------------------------------------------- lookup
Y = Term("s", ("Y",))
NIL = Term("nil")
QUERIES = ("P", "P=", "P=Y")


def query(b, q, p):
    segs = prefix(p)
    if q != "P":
        segs.append(Seg(Key("="), ONE))
    if q == "P=Y":
        n = b.st.fresh()
        b.st.add_con(n - 1)
        b.ghost("len:Y", n)
        segs.append(Seg(Y, n))
    return Seq(segs)


def slice_of(b, seq):
    r = b.heap(seq)
    n = ZERO
    for s in seq.segs:
        n = n + s.n
    return Ref(r.root, r.path, (ZERO, n))


def lookup(root, chk, mutable=False, extra=None):
    out = []
    arc = root.startswith("art")
    for a in NODES + DEEP + [E()]:
        for q in QUERIES:
            if isinstance(a, D) and a.c and q != "P":
                continue                                    # P is the whole common part
            for zero in (False, True):
                if isinstance(a, E) and not zero:
                    continue
                def build(b, a=a, q=q, zero=zero):
                    p = ZERO if zero else b.st.fresh()
                    b.ghost("p", p)
                    b.ref(node(b, a, "a", p, arc), "a")
                    b.arg(slice_of(b, query(b, q, p)))
                    if extra:
                        b.arg(extra)

                out.append(Ob(root, f"{a} at {q}" + (" in the root" if zero else ""), build,
                              lambda e, b, v, a=a, q=q: chk(e, v, a, q)))
    return out


def below(e, a, q):
    """outcome of looking for P=.. in a node: None (absent) or (how, term)"""
    if not a.c:
        return None
    name = NIL if q == "P=" else Y
    k = ("find", CA, name)
    f = e.st.facts.get(k)
    if f is None:
        raise Fail("value", "the subtree below x was not searched")
    return (f.c, Term("at", (CA, name))) if f.c != 2 else None


def c_get(e, v, a, q, has=False):
    if q == "P":
        want = VA if a.v else None
    else:
        r = below(e, a, q)
        want = None
        if r and r[0] == 0:
            s = e.st.facts.get(("some", r[1]))
            if s is None:
                raise Fail("value", "the value found was not looked at")
            want = Term("val", (r[1],)) if s else None
    if has:
        if v not in (True, False) or bool(v) != (want is not None):
            raise Fail("value", f"contains_key() is {v}, expected {want is not None}")
        return
    if isinstance(v, Ref):
        v = models.deref_all(e, v)
    if isinstance(v, Term) and v.op == "opt":
        raise Fork()
    if not isinstance(v, Agg) or v.v != (1 if want is not None else 0):
        raise Fail("value", f"get() is {v}, expected {want}")
    if want is not None:
        w = models.deref_all(e, v.f[0])
        if not same_val(e, w, want):
            raise Fail("value", f"get() yields {w}, expected {want}")


def c_filter(e, v, a, q):
    p = e.st.ghost["p"]
    if q == "P":
        check(e, v, p, VA if a.v else None, CA if a.c else None)
        if not isinstance(a, E) and pieces(v, e) == ([], NONE(), []):
            raise Fail("member", "the filtered tree is empty")
        return
    r = below(e, a, q)
    if r is None:
        check(e, v, p, None, None)
        pr, val, ch = pieces(v)
        if pr or val != NONE() or ch:
            raise Fail("member", f"a tree without the prefix is filtered to {v}")
        return
    how, at = r
    pr, val, ch = pieces(v, e)
    want = [x for x in query_segs(e, q)]
    if how == 1:
        want.append((Term("s", ("ftail",)), e.st.ghost["ftail"]))
    if len(pr) != len(want) or any(s.t != t or not e.ent_eq(s.n - n) for s, (t, n) in zip(pr, want)):
        raise Fail("value", f"prefix of the filtered tree is {pr}, expected {want}")
    n = radix.count(e, at)
    m = ZERO
    for s in ch:
        if not radix.is_kid(s.t) or s.t.a[0] != at:
            raise Fail("member", f"children of the filtered tree are {ch}")
        m = m + s.n
    some = e.st.facts.get(("some", at))
    ok = val == Term("opt", (at,)) or some is True and val == SOME(Term("val", (at,))) or some is False and val == NONE()
    if not ok or not e.ent_eq(n - m):
        raise Fail("member", f"the filtered tree is {v}")


def pieces(v, e=None):
    if radix.is_tree(v):
        raise Fork()
    if not radix.looks_node(v):
        raise Fail("value", f"result is not a tree: {v}")
    ch = v.f[2].f[0] if isinstance(v.f[2], Agg) else v.f[2]
    f = (lambda s: True) if e is None else (lambda s: not e.ent_eq(s.n))
    pre = v.f[0].f[0].segs if e is None else radix.whole(e, v.f[0].f[0].segs)
    return [s for s in pre if s.n != ZERO and f(s)], v.f[1], [s for s in ch.segs if s.n != ZERO and f(s)]


def query_segs(e, q):
    p = e.st.ghost["p"]
    if not e.ent_eq(p):
        yield (P, p)
    if q != "P":
        yield (Key("="), ONE)
    if q == "P=Y":
        yield (Y, e.st.ghost["len:Y"])


def c_insert(e, v, a, q):
    p = e.st.ghost["p"]
    t = final(e, "a")
    if q == "P":
        check(e, t, p, Term("vn"), CA if a.c else None)
        return
    leaf = Term("leaf", ("Y" if q == "P=Y" else "nil", Term("vn")))
    if a.c:
        k = Term("outer", (CA, leaf))
        f = e.st.facts.get(("empty", k))
        if f is None:
            raise Fail("calls", "the subtree below x was not combined with the new entry")
        c = None if f else k
    else:
        c = leaf
    check(e, t, p, VA if a.v else None, c)


def find_based(m="rt"):
    return (lookup(m + "::get", c_get) + lookup(m + "::contains_key", lambda e, v, a, q: c_get(e, v, a, q, True)) +
            lookup(m + "::filter_prefix", c_filter))


def inserts(m="rt"):
    return lookup(m + "::insert", c_insert, extra=Term("vn"))


# ---------------------------------------------------------------- construction
Q = Term("s", ("Q",))


def construction(m="rt"):
    out = []
    arc = m == "art"
    for a in NODES + DEEP + [E()]:
        for zero in (False, True):
            if isinstance(a, E) and not zero:
                continue

            def b_pre(b, a=a, zero=zero):
                p = ZERO if zero else b.st.fresh()
                q = b.st.fresh()
                b.ghost("p", p)
                b.ghost("q", q)
                b.ref(node(b, a, "a", p, arc), "a")
                b.arg(slice_of(b, Seq((Seg(Q, q),))))

            def c_pre(e, b, v, a=a):
                t = final(e, "a")
                if radix.is_tree(t):
                    t = radix.unfold(e, t)
                pr, val, ch = pieces(t, e)
                q = e.st.ghost["q"]
                if isinstance(a, E):
                    if pr or val != NONE() or ch:
                        raise Fail("value", f"prepending to the empty tree yields {t}")
                    return
                if not e.ent_eq(q):
                    if not pr or pr[0].t != Q or not e.ent_eq(pr[0].n - q):
                        raise Fail("value", f"prefix after prepend is {pr}")
                    pr = pr[1:]
                check(e, Agg(0, (Agg(0, (Seq(pr),)),) + t.f[1:]), e.st.ghost["p"], VA if a.v else None, CA if a.c else None)

            def b_one(b, a=a, zero=zero):
                p = ZERO if zero else b.st.fresh()
                b.ghost("p", p)
                b.ref(node(b, a, "a", p, arc), "a")

            def c_clone(e, b, v, a=a):
                check(e, v, e.st.ghost["p"], VA if a.v else None, CA if a.c else None)

            def b_mat(b, a=a, zero=zero, full=True):
                b_one(b, a, zero)
                b.arg(ZERO if full else b.st.ghost["p"])
                if full and isinstance(a, N):
                    b.st.add_con(b.st.ghost["p"] - 1)

            def c_mat(e, b, v, a=a, full=True):
                check(e, v, e.st.ghost["p"] if full else ZERO, VA if a.v else None, CA if a.c else None, canonical=False)
                n = [sum((s.n for s in pieces(t, e)[2]), ZERO) for t in (v, final(e, "a"))]
                if not e.ent_eq(n[0] - n[1]):
                    raise Fail("member", f"{n[1]} children were copied as {n[0]}")
            def b_from(b, a=a, zero=zero):
                b.ref(node(b, N(True, True), "b", ZERO, arc), "d")
                b_one(b, a, zero)

            def c_from(e, b, v, a=a):
                check(e, final(e, "d"), e.st.ghost["p"], VA if a.v else None, CA if a.c else None)
            d = f"{a}" + (" in the root" if zero else "")
            out.append(Ob(m + "::clone_from", d, b_from, c_from))
            out.append(Ob(m + "::prepend", d, b_pre, c_pre))
            out.append(Ob(m + "::clone", d, b_one, c_clone))
            if isinstance(a, D) or isinstance(a, N) and not zero:
                out.append(Ob(m + "::materialize_shortened", d + " whole", b_mat, c_mat))
            if isinstance(a, D):
                out.append(Ob(m + "::materialize_shortened", d + " shortened", lambda b, f=b_mat: f(b, full=False),
                              lambda e, b, v, f=c_mat: f(e, b, v, full=False)))

    def b_single(b):
        q = b.st.fresh()
        b.ghost("q", q)
        b.arg(slice_of(b, Seq((Seg(Q, q),))))
        b.arg(VA)

    def c_single(e, b, v):
        pr, val, ch = pieces(v, e)
        q = e.st.ghost["q"]
        if ch or val != SOME(VA) or [(s.t, True) for s in pr] != ([] if e.ent_eq(q) else [(Q, True)]) or pr and not e.ent_eq(pr[0].n - q):
            raise Fail("value", f"single() is {v}")

    def c_leaf(e, b, v):
        if pieces(v, e) != ([], SOME(VA), []):
            raise Fail("value", f"leaf() is {v}")

    def c_nil(e, b, v):
        if pieces(v, e) != ([], NONE(), []):
            raise Fail("value", f"the empty tree is {v}")
    out.append(Ob(m + "::single", "", b_single, c_single))
    out.append(Ob(m + "::leaf", "", lambda b: b.arg(VA), c_leaf))
    out.append(Ob(m + "::empty", "", lambda b: None, c_nil))
    out.append(Ob(m + "::default", "", lambda b: None, c_nil))
    return out


def emptiness(m="rt"):
    out = []
    for a in NODES + DEEP + [E()]:
        def build(b, a=a):
            b.ref(node(b, a, "a", ZERO if isinstance(a, E) else b.st.fresh(), m == "art"))

        def chk(e, b, v, a=a):
            expect(v, isinstance(a, E), "is_empty()")
        out.append(Ob(m + "::is_empty", f"{a}", build, chk))
    return out


# ---------------------------------------------------------------- common prefix
def common():
    """what every other obligation takes common_prefix to compute, shown of its body"""
    root = "fn:" + radix.MOD + "common_prefix"
    out = []
    for name, x, y in (("both end", None, None), ("first ends", None, "="), ("second ends", "=", None), ("<", "<", "="), (">", ">", "="),
                       ("=<", "=", "<"), ("apart", ">", ">"), ("same", "=", "=")):
        for zero in (False, True):
            def build(b, x=x, y=y, zero=zero, name=name):
                p = ZERO if zero else b.st.fresh()
                b.ghost("p", p)
                if name == "apart":
                    b.ghost("distinct", True)
                for c, t in ((x, "A"), (y, "B")):
                    segs = prefix(p)
                    if c:
                        segs += [Seg(b.key(c), ONE), Seg(Term("s", (t,)), b.st.fresh())]
                    q = Seq(segs)
                    b.ghost("n" + t, sum((s.n for s in segs), ZERO))
                    b.arg(slice_of(b, q))

            def chk(e, b, v, name=name):
                p = e.st.ghost["p"]
                if name != "same":
                    if not e.ent_eq(v - p):
                        raise Fail("value", f"length of the common prefix is {v}, expected {p}")
                    return
                for n in "AB":
                    if not e.ent(e.st.ghost["n" + n] - v):
                        raise Fail("value", "the common prefix is longer than one of the strings")
                if not e.ent(v - p - 1):
                    raise Fail("value", f"length of the common prefix is {v}, expected at least {p + 1}")
            out.append(Ob(root, name + (" at the start" if zero else ""), build, chk))
    # strings of known length, component by component
    for n in (0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257):
        for name, x, y, tail in (("both end", "", "", 0), ("first ends", "", "=", 0), ("first ends early", "", "=", 40), ("second ends", ">", "", 0),
                                 ("second ends early", "<", "", 40), ("<", "<", "=", 0), (">", "=", "<", 40)):
            def build(b, n=n, x=x, y=y, tail=tail):
                for c in (x, y):
                    q = some_string(n) + list(c) + (some_string(tail, 5) if c else [])
                    b.arg(slice_of(b, Seq(Seg(COMP[k], ONE) for k in q)))

            def chk(e, b, v, n=n):
                if not e.ent_eq(v - n):
                    raise Fail("value", f"length of the common prefix is {v}, expected {n}")
            o = Ob(root, f"{name}, {n} common components", build, chk)
            o.exact_only = True
            out.append(o)
    return out


def some_string(n, s=1):
    out = []
    for _ in range(n):
        s = (s * 1103515245 + 12345) % 2 ** 31
        out.append("<=>"[(s >> 16) % 3])
    return out


def conversion():
    """ArcRadixTree::from(RadixTree)"""
    out = []
    for a in NODES + DEEP + [E()]:
        def build(b, a=a):
            p = ZERO if isinstance(a, E) else b.st.fresh()
            b.ghost("p", p)
            b.arg(node(b, a, "a", p))

        def chk(e, b, v, a=a):
            check(e, v, e.st.ghost["p"], VA if a.v else None, CA if a.c else None, canonical=False)
        out.append(Ob("art_from", f"{a}", build, chk))
    return out


# ---------------------------------------------------------------- iteration
FRAMES = Term("frame", ("below",))


def iter_value(b, stack, path, values):
    """Iter / Values with the fields laid out as the library declares them"""
    t = b.prog.types[b.prog.fns[b.fid]["locals"][1]]
    t = b.prog.types[t["t"]]
    layout(t, values)
    s = Seq(stack)
    return Agg(0, (s, UNIT) if values else (Agg(0, (Agg("arc", (Seq(path),)),)), s, UNIT))


def layout(t, values):
    names = [x[0] for x in t["vs"][0]["f"]]
    if names != (["stack", "_p"] if values else ["path", "stack", "_v"]):
        raise Fail("value", f"fields of the iterator are {names}")


def iteration(m="rt"):
    """one step of the iterators: what is still to come is described by the stack and the path; a call of next
    either yields the first of it or leaves, at its loop head, a state that describes the same"""
    out = []
    arc = m == "art"
    for vals in (False, True):
        root = m + ("::values_next" if vals else "::iter_next")
        for val in (False, True):
            for where in ("first", "child", "last", "end"):
                for deep in (False, True):
                    def build(b, vals=vals, val=val, where=where, deep=deep):
                        if where == "end":
                            b.ref(iter_value(b, [], [Seg(P, b.st.fresh())], vals), "it")
                            return
                        p, k, n, l = (b.st.fresh() for _ in range(4))
                        tag = "atree" if arc else "tree"
                        kid = Term("akid" if arc else "kid", (Term("top"),))
                        segs = []
                        pos = ZERO
                        if where != "first":
                            segs = [Seg(kid, k)]
                            pos = k + 1
                        if where == "child":
                            segs.append(Seg(Agg(tag, (Key("="), CA)), ONE))
                        if where != "last":
                            segs.append(Seg(kid, n))
                        own = [Seg(Key("="), ONE), Seg(Term("rest", (Term("top"),)), l)] if deep else [Seg(Term("s", ("top",)), l)]
                        kids = Seq(segs)
                        nd = Agg(0, (Agg(0, (Seq(own),)), SOME(VA) if val else NONE(), Agg("arc", (kids,)) if arc else kids))
                        r = b.heap(nd)
                        stack = [Seg(FRAMES, b.st.fresh()), Seg(Agg(0, (Ref(r.root, r.path), pos)), ONE)]
                        b.ghost("p", p)
                        b.ghost("stack", Seq(stack))
                        b.ghost("path", Seq([Seg(P, p)] + own))
                        radix.length(b, CA)
                        b.ref(iter_value(b, stack, [Seg(P, p)] + own, vals), "it")

                    def chk(e, b, v, vals=vals, val=val, where=where, deep=deep):
                        c_next(e, b, v, vals, val, where)
                    o = Ob(root, f"{where}{' v' if val else ''}{' deep' if deep else ''}", build, chk)
                    o.cut = r"radix_tree::(Iter|Values)<.*Iterator>::next$"
                    o.prove_only = True
                    if where != "end" or not val and not deep:
                        out.append(o)
    return out


def same_string(e, got, want, what):
    g = [x for x in radix.whole(e, got) if not e.ent_eq(x.n)]
    w = [x for x in want if not e.ent_eq(x.n)]
    if len(g) != len(w) or any(x.t != y.t or not e.ent_eq(x.n - y.n) for x, y in zip(g, w)):
        raise Fail("value", f"{what} is {g}, expected {w}")


def c_next(e, b, v, vals, val, where):
    """the state a step leaves is the next one the reference iterator goes through"""
    it = final(e, "it")
    g = e.st.ghost
    stack = [s for s in it.f[0 if vals else 1].segs if not e.ent_eq(s.n)]
    path = [] if vals else it.f[0].f[0].f[0].segs
    if where == "end":
        if v != NONE() or stack:
            raise Fail("value", f"an exhausted iterator yields {v}")
        return
    want_path = list(g["path"].segs)
    below = [s for s in g["stack"].segs[:-1] if not e.ent_eq(s.n)]
    top = g["stack"].segs[-1].t
    if where == "last":
        want_path = want_path[:1]
        want = []
    else:
        want = [(top.f[0], top.f[1] + 1)]
        if where == "child":
            want_path = want_path + list(radix.unfold(e, Agg("tree", (Key("="), CA))).f[0].f[0].segs)
            want.append((None, ZERO))
    if len(stack) != len(below) + len(want) or stack[:len(below)] != below:
        raise Fail("value", f"stack after one step is {stack}")
    for s, (r, pos) in zip(stack[len(below):], want):
        if s.n != ONE or not isinstance(s.t, Agg) or not e.ent_eq(s.t.f[1] - pos):
            raise Fail("value", f"position after one step is {s}, expected {pos}")
        if r is not None and s.t.f[0] != r:
            raise Fail("value", f"node on the stack is {s.t.f[0]}")
        if r is None:
            c = e.load(s.t.f[0].root, s.t.f[0].path)
            if not radix.is_tree(c) or c.f != (Key("="), CA):
                raise Fail("value", f"the child pushed is {c}")
    if not vals:
        same_string(e, path, want_path, "path")
    if where == "first" and val:
        if not isinstance(v, Agg) or v.v != 1:
            raise Fail("value", f"the value of the node is not yielded: {v}")
        x = v.f[0]
        if not vals:
            same_string(e, x.f[0].f[0].f[0].segs, want_path, "key")
            x = x.f[1]
        if models.deref_all(e, x) != VA:
            raise Fail("payload", f"value yielded is {models.deref_all(e, x)}")
    elif v is not None:
        raise Fail("value", f"{v} is yielded")


def starts(m="rt"):
    """the state iteration starts from: the node the entries hang below, and its key"""
    out = []

    def frame(e, it, vals):
        if not isinstance(it, Agg) or len(it.f) != (2 if vals else 3):
            raise Fork()
        return [s for s in it.f[0 if vals else 1].segs if not e.ent_eq(s.n)], None if vals else it.f[0].f[0].f[0].segs

    def one(e, it, vals):
        st, path = frame(e, it, vals)
        if len(st) != 1 or st[0].n != ONE or not e.ent_eq(st[0].t.f[1]):
            raise Fail("value", f"iteration starts with {st}")
        r = st[0].t.f[0]
        return r, e.load(r.root, r.path), path

    for vals in (False, True):
        for a in NODES + DEEP + [E()]:
            def build(b, a=a, vals=vals):
                b.ghost("layout", layout_of(b, m, vals))
                p = ZERO if isinstance(a, E) else b.st.fresh()
                b.ghost("p", p)
                b.ref(node(b, a, "a", p, m == "art"), "a")

            def chk(e, b, v, a=a, vals=vals):
                r, t, path = one(e, v, vals)
                if r != e.st.ghost["a"]:
                    raise Fail("value", f"iteration starts at {r}")
                if not vals:
                    same_string(e, path, [s for s in t.f[0].f[0].segs], "path")
            o = Ob(m + ("::values" if vals else "::iter"), f"{a}", build, chk)
            o.prove_only = True
            out.append(o)

    def c_scan(e, v, a, q):
        if q == "P":
            r, t, path = one(e, v, False)
            same_string(e, path, t.f[0].f[0].segs, "path")
            check(e, t, e.st.ghost["p"], VA if a.v else None, CA if a.c else None)
            return
        r = below(e, a, q)
        if r is None:
            if frame(e, v, False)[0]:
                raise Fail("value", "something is found although no key has the prefix")
            return
        how, at = r
        want = [Seg(t, n) for t, n in query_segs(e, q)]
        if how == 1:
            want.append(Seg(Term("s", ("ftail",)), e.st.ghost["ftail"]))
        r, t, path = one(e, v, False)
        same_string(e, path, want, "path")
        if t.f[1] != Term("opt", (at,)):
            raise Fail("value", f"entries below {t}")
    for o in lookup(m + "::scan_prefix", c_scan):
        o.prove_only = True
        o.build = lambda b, f=o.build: (b.ghost("layout", layout_of(b, m, False)), f(b))
        out.append(o)
    return out


def layout_of(b, m, values):
    f = b.prog.fns[b.prog.roots[m + ("::values_next" if values else "::iter_next")]]
    layout(b.prog.types[b.prog.types[f["locals"][1]]["t"]], values)
    return True


COMP = {"<": Key("<", -1), "=": Key("="), ">": Key(">", -2)}     # three components of a known order


class T:
    """a tree that is spelled out: cls of the first component, extra string?, value?, children"""

    def __init__(self, v, *kids, cls=None, parts=1):
        self.cls, self.v, self.kids, self.parts = cls, v, kids, parts
        self.classes = [k.cls or c for k, c in zip(kids, "<=>" if len(kids) != 2 else "<>")]

    def __str__(self):
        return (self.cls or "") + ("v" if self.v else "-") + ("(" + " ".join(map(str, self.kids)) + ")" if self.kids else "") + ("" if self.parts == 1 else f"/{self.parts}")


def spell(b, t, name, arc, path, items, cls=None):
    """-> the node; items: [(key, value)] in the order of the keys"""
    segs = []
    if cls:
        segs.append(Seg(COMP[cls], ONE))
    for i in range(t.parts):
        if i:
            segs.append(Seg(COMP["="], ONE))
        n = b.st.fresh()
        b.st.add_con(n - 1)
        b.ghost(f"len:{name}{i}", n)
        segs.append(Seg(Term("s", (f"{name}{i}",)), n))
    path = path + segs
    val = Term(f"v{name}")
    if t.v:
        items.append((path, val))
    kids = [spell(b, k, f"{name}{c}", arc, path, items, c) for k, c in zip(t.kids, t.classes)]
    ch = Seq(Seg(k, ONE) for k in kids)
    return Agg(0, (Agg(0, (Seq(segs),)), SOME(val) if t.v else NONE(), Agg("arc", (ch,)) if arc else ch))


SPELLED = [T(False, parts=0), T(True), T(True, parts=0), T(False, T(True), T(True)), T(True, T(True)), T(False, T(True), T(True), T(True)),
           T(True, T(True, T(True), T(True)), T(False, T(True), T(True))),
           T(False, T(False, T(True), T(True)), T(True, T(True))),
           T(True, T(True, T(True, T(True), T(True)))),
           T(False, T(True, T(False, T(True), T(True)), T(True)), T(True))]


def shapes(n, root=True):
    """all canonical trees with exactly n nodes, at most three children each"""
    def forests(n, k):
        if k == 0:
            return [()] if n == 0 else []
        return [(t,) + r for i in range(1, n) if n - i >= k - 1 for t in shapes(i, False) for r in forests(n - i, k - 1)] if k > 1 else \
            [(t,) for t in shapes(n, False)]
    out = []
    for k in range(4):
        for f in (forests(n - 1, k) if n > 1 or k == 0 else []):
            for v in (True, False):
                if v or k >= 2 or root:
                    out += [T(v, *f, parts=p) for p in ((0, 1) if root else (1,))]
    return out


def trees(most):
    l = [t for n in range(1, most + 1) for t in shapes(n)]
    two = T(False, T(True), T(True))
    three = T(False, T(True), T(True), T(True))
    branch = T(False, two, two)
    return SPELLED + l + [T(True, T(True), branch), T(False, branch, T(True)), T(False, branch, branch), T(True, T(False, three, two), T(True)),
                          T(False, T(False, branch, two), T(True)), T(True, T(True, T(True, T(True, T(True, T(True, T(True))))))), T(False, three, three, three)]


def chain(n):
    t = T(True)
    for i in range(n):
        t = T(i % 3 == 0, t, cls="=") if i % 3 == 0 else T(False, t, T(True))
    return t


def wide(m, what, n):
    """a node with more children than a byte can count"""
    def build(b):
        items, kids = [], []
        for i in range(n):
            s = [Seg(Term("s", (f"t{i}",)), ONE)]
            kids.append(Agg(0, (Agg(0, (Seq(s),)), SOME(Term(f"v{i}")), Agg("arc", (Seq(),)) if m == "art" else Seq())))
            items.append((s, Term(f"v{i}")))
        ch = Seq(Seg(k, ONE) for k in kids)
        b.ref(Agg(0, (Agg(0, (Seq(),)), NONE(), Agg("arc", (ch,)) if m == "art" else ch)), "a")
        b.items = items
        b.ghost("most", const(n))
    o = Ob(f"{m}::{what}", f"{n} children", build, lambda e, b, v: same_items(e, b.items, what == "values_all"))
    o.exact_only = True
    return o


def runs(m="rt"):
    """whole iterations over trees of known shape, path by path"""
    out = [wide(m, what, 300) for what in ("iter_all", "values_all")]
    for what in ("iter_all", "values_all", "iter_late"):
        for t in trees(5) + [chain(40)]:
            def build(b, t=t):
                items = []
                b.ref(spell(b, t, "t", m == "art", [], items), "a")
                b.items = items
                b.ghost("most", const(len(items)))

            def chk(e, b, v, what=what):
                same_items(e, b.items, what == "values_all")
            o = Ob(f"{m}::{what}", str(t)[:40], build, chk)
            o.exact_only = True
            out.append(o)
    return out


def queries(t, cls=None, pre=()):
    """strings that reach into the tree, and strings that leave it: [(name, [what])], what: class or index of a string"""
    own = ([cls] if cls else []) + [x for i in range(t.parts) for x in (["="] if i else []) + [i]]
    out = []
    for i in range(len(own) + 1):
        at = pre + tuple(own[:i])
        if i or not pre:
            out.append(at)
        nxt = own[i:i + 1]
        if i == len(own):
            nxt = t.classes
        if i and not isinstance(nxt[:1] and nxt[0], int) or not nxt:
            out += [at + (c,) for c in "<=>" if c not in nxt]
    for k, c in zip(t.kids, t.classes):
        out += queries(k, c, pre + tuple(own) + ("/",))
    return out


def scans(m="rt"):
    """scan_prefix, whole iterations over trees of known shape"""
    out = []
    more = [T(True, T(False, T(True), T(True), parts=2), T(True, parts=2), parts=2)]
    more += [T(False, T(v, T(True), T(True), cls=c[0]), T(w, T(True), T(True), cls=c[1]), parts=p)
             for c in ("<=", "=>") for v in (0, 1) for w in (0, 1) for p in (0, 1)]
    for t in trees(5) + more:
        for q in sorted(set(queries(t)), key=str):
            def build(b, t=t, q=q):
                items = []
                b.ref(spell(b, t, "t", m == "art", [], items), "a")
                name = "t"
                segs = []
                for i, x in enumerate(q):
                    if isinstance(x, int):
                        segs.append(Seg(Term("s", (f"{name}{x}",)), b.st.ghost[f"len:{name}{x}"]))
                    elif x == "/":
                        name += q[i + 1]
                    else:
                        segs.append(Seg(COMP[x], ONE))
                b.arg(slice_of(b, Seq(segs)))
                b.items = [x for x in items if list(x[0][:len(segs)]) == segs]
                b.ghost("most", const(len(b.items)))

            def chk(e, b, v):
                same_items(e, b.items, False)
            o = Ob(f"{m}::scan_all", f"{t} at {''.join(map(str, q)) or 'the start'}", build, chk)
            o.exact_only = True
            out.append(o)
    return out


def same_items(e, items, vals):
    got = [x.a for x in e.st.log if isinstance(x, Term) and x.op == "item"]
    if len(got) != len(items):
        raise Fail("value", f"{len(got)} entries are yielded, expected {len(items)}")
    for x, (k, v) in zip(got, items):
        if not vals:
            same_string(e, x[0].f[0].segs, k, "key yielded")
        y = models.deref_all(e, x[-1])
        if y != v:
            raise Fail("payload", f"value yielded is {y}, expected {v}")


# ---------------------------------------------------------------- trees that are spelled out
KEYS = {"": [], "P": ["P"], "P=": ["P", "="], "P=Y": ["P", "=", "Y"], "P=Y<": ["P", "=", "Y", "<"], "P=Y>W": ["P", "=", "Y", ">", "W"],
        "P>": ["P", ">"], "P>Z": ["P", ">", "Z"], "P<": ["P", "<"]}


def lengths(b):
    b.ghost("spelled", True)
    n = {}
    for x in "PYZW":
        n[x] = b.st.fresh()
        b.ghost("len:" + x, n[x])
        b.st.add_con(n[x] - 1)
    return n


def comps(k):
    """components of a key: spelled in KEYS, or #i..: the i-th of many components in ascending order"""
    if k[:1] == "#":
        i, _, rest = k[1:].partition("/")
        return [int(i)] + list(rest)
    return list(k)


def rank(x):
    return (0, x) if isinstance(x, int) else ("<=>".find(x), 0)


def string(n, comps):
    return tuple(Seg(Key("<", RANK0 + x), ONE) if isinstance(x, int) else Seg(COMP[x], ONE) if x in COMP else Seg(Term("s", (x,)), n[x])
                 for x in comps)


def canon(n, entries, arc):
    """the canonical tree that holds the entries: [(components, value)]"""
    entries = [(list(k), v) for k, v in entries]
    pre = []
    while entries and all(k and k[0] == entries[0][0][:1][0] for k, _ in entries):
        pre.append(entries[0][0][0])
        entries = [(k[1:], v) for k, v in entries]
    val = [v for k, v in entries if not k]
    kids = []
    for c in sorted({k[0] for k, _ in entries if k}, key=rank):
        kids.append(Seg(canon(n, [(k, v) for k, v in entries if k[:1] == [c]], arc), ONE))
    ch = Seq(kids)
    return Agg(0, (Agg(0, (Seq(string(n, pre)),)), SOME(val[0]) if val else NONE(), Agg("arc", (ch,)) if arc else ch))


def flat(e, t, pre=(), root=True):
    """entries of a tree that is spelled out; its form is checked"""
    if radix.is_tree(t):
        t = radix.unfold(e, t)
    if not radix.looks_node(t):
        raise Fork()
    pr, val, ch = pieces(t, e)
    pre = pre + tuple(pr)
    out = []
    if isinstance(val, Term):
        raise Fork()
    if val.v == 1:
        out.append((pre, val.f[0]))
    elif len(ch) < 2 and not root:
        raise Fail("canonical", f"node without value and with {len(ch)} children")
    elif len(ch) == 1 or root and not ch and pr:
        raise Fail("canonical", f"root without value with prefix {pr} and {len(ch)} children")
    if not root and not pr:
        raise Fail("canonical", "child with an empty prefix")
    last = None
    for s in ch:
        if s.n != ONE:
            raise Fork()
        x = flat(e, s.t, pre, False)
        k = x[0][0][len(pre)].t
        if last is not None and isinstance(k, Key) and isinstance(last, Key) and \
                ("<=>".find(last.c), max(last.id or 0, 0)) >= ("<=>".find(k.c), max(k.id or 0, 0)):
            raise Fail("sorted", f"children {last} and {k} are out of order")
        last = k
        out += x
    return out


def same_entries(e, t, want, what="the result"):
    """want: {key: value}"""
    got = flat(e, t)
    if len(got) != len(want):
        raise Fail("member", f"{what} has {len(got)} entries, expected {len(want)}: {got}")
    for k, x in got:
        w = want.get(tuple(Seg(s.t, s.n) for s in k))
        if w is None:
            raise Fail("member", f"{what} holds {k}")
        if w != models.deref_all(e, x):
            raise Fail("payload", f"{what} has the value {x} for {k}, expected {w}")


SETS = ["", "P", "P=Y", "P=Y<", "P= P>", "P=Y P>Z", "P P=Y<", "P= P=Y P>", "P= P=Y< P=Y>W P>Z", "P< P=Y< P=Y>W", "nil P=Y", "P P< P= P>", "nil P=Y< P=Y>W"]
# nodes without a value below nodes without a value
SETS += ["P>Z", "P=Y<P< P=Y<P> P=Y>W", "P<Y< P<Y> P>Z< P>Z> P>Z>W"]


def keys_of(s):
    return ["" if k == "nil" else k for k in s.split()]


def value(side, k):
    """value of a key; with many children only a few are followed separately (see Engine.answer)"""
    return Term(("v" if k[:1] != "#" or k in ("#129", "#250/=") else "w") + side + ":" + k)


def has_prefix(k, q):
    return comps(k)[:len(comps(q))] == comps(q)


def merged(op, fname, ka, kb, facts):
    """{key: value} by definition; None: a comparison or callback the definition depends on was not made"""
    va = {k: value("a", k) for k in ka}
    vb = {k: value("b", k) for k in kb}
    out = {}
    for k in set(ka) | set(kb):
        v = None
        if op in ("remove", "retain"):
            if k not in va:
                continue
            hit = any(facts.get(("pred_w", vb[q])) for q in kb if has_prefix(k, q))
            v = va[k] if hit == (op == "retain") else None
        elif k in va and k in vb:
            if fname == "keep":
                v = va[k]
            elif fname == "drop":
                v = None
            else:
                a = (va[k], vb[k] if fname != "f_rt_left" else SOME(vb[k]))
                f = facts.get((fname,) + a)
                if f is None:
                    raise Fail("calls", f"the callback was not applied to the values of {k or 'the empty key'}")
                v = Term(fname + ("!" if "mut" in fname else ""), a) if f else None
        elif k in va:
            if op == "inner":
                continue
            v = va[k]
            if fname == "f_rt_left":
                f = facts.get((fname, va[k], NONE()))
                if f is not None:
                    v = Term(fname, (va[k], NONE())) if f else None
        elif op == "outer":
            v = vb[k]
        if v is not None:
            out[k] = v
    return out


def many(*ranges, also=""):
    """a node with many children"""
    return keys_of(also) + [f"#{i}" for r in ranges for i in r]


def wide_pairs():
    r = range
    l = [("130", many(r(130)), "the same 130", many(r(130))), ("260", many(r(260)), "3", many([0, 129, 259])),
         ("3", many([0, 129, 259]), "260", many(r(260))), ("260", many(r(260)), "60 that overlap", many(r(210, 270))),
         ("130", many(r(130)), "260 behind", many(r(1000, 1260))), ("40 even", many(r(0, 80, 2)), "40 odd", many(r(1, 80, 2))),
         ("260 with a value", many(r(260), also="nil"), "empty key", [""]), ("2 before 260", many([0, 1]), "260", many(r(2, 262))),
         ("260", many(r(260)), "5 below two of them", ["#10/=", "#10/Y", "#10/<", "#250/=", "#250/Y"])]
    return [(n1, n2, a, b) for n1, a, n2, b in l]


def two(m, name, op, fname, inplace):
    out = []
    for sa, sb, ka, kb in [(a, b, keys_of(a), keys_of(b)) for a in SETS for b in SETS] + wide_pairs():

        def build(b, ka=ka, kb=kb):
            n = lengths(b)
            b.n = n
            b.ref(canon(n, [(comps(k), value("a", k)) for k in ka], m == "art"), "a")
            b.ref(canon(n, [(comps(k), value("b", k)) for k in kb], m == "art"), "b")

        def chk(e, b, v, ka=ka, kb=kb):
            def at(d):
                return {string(b.n, comps(k)): x for k, x in d.items()}
            if op in ("subset", "superset", "intersects", "disjoint"):
                want = {"subset": set(ka) <= set(kb), "superset": set(kb) <= set(ka), "intersects": bool(set(ka) & set(kb)),
                        "disjoint": not set(ka) & set(kb)}[op]
                expect(v, want)
                return
            t = final(e, "a") if inplace else v
            got = [c.a for c in calls(e) if c.a[0] == fname]
            for c in got:
                k = c[1].op[3:] if isinstance(c[1], Term) else None
                if k not in ka or c[2] not in ((value("b", k), SOME(value("b", k))) if k in kb else (NONE(),)) or got.count(c) > 1:
                    raise Fail("calls", f"the callback is applied {got.count(c)} times to {c[1:]}")
            same_entries(e, t, at(merged(op, fname, ka, kb, e.st.facts)))
            same_entries(e, final(e, "b"), at({k: value("b", k) for k in kb}), "the second operand")
            if not inplace:
                same_entries(e, final(e, "a"), at({k: value("a", k) for k in ka}), "the first operand")
        o = Ob(f"{m}::{name}", f"{{{sa}}} {{{sb}}}", build, chk)
        o.exact_only = True
        o.ranked = len(ka) + len(kb) > 60
        o.hard = 60 if o.ranked else 0
        out.append(o)
    return out


def spelled_inplace(m="rt"):
    return (two(m, "outer_with", "outer", "f_mut_rt", True) + two(m, "inner_with", "inner", "f_mut_rt_w", True) +
            two(m, "left_with", "left", "f_mut_rt_w", True))


def spelled_pure(m="rt"):
    return two(m, "outer", "outer", "f_rt", False) + two(m, "inner", "inner", "f_rt_w", False) + two(m, "left", "left", "f_rt_left", False)


def spelled_prefixes(m="rt"):
    return two(m, "remove_prefix_with", "remove", None, True) + two(m, "retain_prefix_with", "retain", None, True)


def spelled_predicates(m="rt"):
    return (two(m, "is_subset", "subset", None, False) + two(m, "is_superset", "superset", None, False) +
            two(m, "intersects", "intersects", None, False) + two(m, "is_disjoint", "disjoint", None, False))


def spelled_keys(m="rt"):
    """operations that take a key"""
    out = []
    for name in ("get", "contains_key", "filter_prefix", "insert", "prepend"):
        for sa, ka, qs in [(x, keys_of(x), KEYS) for x in SETS] + [("260", many(range(0, 520, 2)), ["#0", "#1", "#259", "#260", "#518", "#519", "#260/Y"])]:
            for q in qs:
                if name == "prepend" and q[:1] == "#":
                    continue

                def build(b, ka=ka, q=q, name=name):
                    n = b.n = lengths(b)
                    b.ref(canon(n, [(comps(k), value("a", k)) for k in ka], m == "art"), "a")
                    if name == "prepend":
                        n["Q"] = b.st.fresh()
                        b.ghost("len:Q", n["Q"])
                        b.st.add_con(n["Q"] - 1)
                        b.arg(slice_of(b, Seq(string(n, ["Q" if x == "P" else x for x in comps(q)]))))
                    else:
                        b.arg(slice_of(b, Seq(string(n, comps(q)))))
                    if name == "insert":
                        b.arg(Term("vn"))

                def chk(e, b, v, ka=ka, q=q, name=name):
                    old = {k: value("a", k) for k in ka}

                    def at(d):
                        return {string(b.n, comps(k)): x for k, x in d.items()}
                    if name == "get":
                        x = models.deref_all(e, v.f[0]) if isinstance(v, Agg) and v.v == 1 else None
                        if x != old.get(q) or not isinstance(v, Agg):
                            raise Fail("value", f"get() is {v}, expected {old.get(q)}")
                    elif name == "contains_key":
                        expect(v, q in old)
                    elif name == "filter_prefix":
                        same_entries(e, v, at({k: x for k, x in old.items() if has_prefix(k, q)}))
                    elif name == "insert":
                        same_entries(e, final(e, "a"), at({**old, q: Term("vn")}))
                        return
                    else:
                        pre = ["Q" if x == "P" else x for x in comps(q)]
                        same_entries(e, final(e, "a"), {string(b.n, pre + comps(k)): x for k, x in old.items()})
                        return
                    same_entries(e, final(e, "a"), at(old), "the tree asked")
                o = Ob(f"{m}::{name}", f"{{{sa}}} {q or 'nil'}", build, chk)
                o.exact_only = True
                o.ranked = len(ka) > 60
                out.append(o)
    return out


def collecting():
    """RadixTree::from_iter: the last value given for each key"""
    import itertools
    out = []
    for n in range(4):
        for ks in itertools.product(KEYS, repeat=n):
            if n == 3 and not (len(set(ks)) == 2 and ks[0] == ks[2] or ks in (("P=Y", "P>Z", "P="), ("P>Z", "P=Y", ""), ("P=Y", "P=Y<", "P"), ("P>", "P", "P="))):
                continue

            def build(b, ks=ks):
                n = lengths(b)
                items = []
                b.want = {}
                for i, k in enumerate(ks):
                    segs = string(n, KEYS[k])
                    items.append(Seg(Agg(0, (Seq(segs), Term("v", (i,)))), ONE))
                    b.want[segs] = Term("v", (i,))
                b.arg(Seq(items))

            o = Ob("rt_collect", ", ".join(k or "nil" for k in ks) or "nothing", build, lambda e, b, v: same_entries(e, v, b.want))
            o.exact_only = True
            out.append(o)
    return out
