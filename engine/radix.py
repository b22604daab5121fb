"""Radix trees: structural induction.  A subtree below the node under analysis is an abstract value
`Agg("tree", (key, id))` (first component of its prefix, identity of the rest); the recursive operations
are applied to such subtrees only through their own specification (the induction hypothesis), so that one
node with arbitrarily many children stands for trees of every depth."""
from .num import ZERO, ONE, const
from .vals import *
from . import interp
from .interp import Unsupported

TREES = ("tree", "atree")
MOD = "vec_collections::radix_tree::"


def is_tree(v):
    return isinstance(v, Agg) and v.v in TREES


def is_kid(v):
    return isinstance(v, Term) and v.op in ("kid", "akid")


def length(e, id):
    """number of components of subtree `id` after its first one"""
    return ghost(e, "len:" + repr(id), id)


def count(e, id):
    """number of children of subtree `id`"""
    return ghost(e, "n:" + repr(id), id)


def ghost(e, k, id):
    if has_any(id):
        return e.st.fresh()
    g = e.st.ghost
    if k not in g:
        g[k] = e.st.fresh()
    return g[k]


def kids(e, v, flavour):
    return Agg("arc", (v,)) if flavour == "atree" else v


def unfold(e, v):
    """the node a subtree stands for"""
    k, id = v.f
    if isinstance(id, Term) and id.op == "leaf":
        pre = (Seg(k, ONE),)
        if id.a[0] != "nil":
            pre += (Seg(Term("s", (id.a[0],)), e.st.ghost["len:" + id.a[0]]),)
        return Agg(0, (Agg(0, (Seq(pre),)), SOME(id.a[1]), kids(e, Seq(), v.v)))
    if has_any(id):
        id = ANY
    pre = (Seg(k, ONE), Seg(Term("rest", (id,)), length(e, id)))
    return Agg(0, (Agg(0, (Seq(pre),)), Term("opt", (id,)),
                   kids(e, Seq((Seg(Term("akid" if v.v == "atree" else "kid", (id,)), count(e, id)),)), v.v)))


def named(e, v):
    """give an anonymous subtree held in a variable an identity of its own"""
    if has_any(v.f[1]):
        e.st.nid += 1
        return Agg(v.v, (v.f[0], Term("u", (e.st.nid,))))
    return v


def is_some(e, id):
    """does the root of subtree `id` hold a value?"""
    if has_any(id):
        return bool(e.choice(2))
    f = e.st.facts
    k = ("some", id)
    if k not in f:
        f[k] = bool(e.choice(2))
        if not f[k]:
            e.st.add_con(count(e, id) - 2)
            if not e.st.feasible():
                raise interp.Prune()
    return f[k]


def discr(e, v, t):
    if isinstance(v, Term) and v.op == "opt":
        return ONE if is_some(e, v.a[0]) else ZERO
    return None


def looks_node(v):
    return isinstance(v, Agg) and v.v == 0 and len(v.f) == 3 and isinstance(v.f[0], Agg) and len(v.f[0].f) == 1 and \
        isinstance(v.f[0].f[0], Seq) and (isinstance(v.f[2], Seq) or isinstance(v.f[2], Agg) and v.f[2].v == "arc")


def fold(e, v, prefix=None):
    """the subtree a node stands for, if it is one; `prefix` overrides the node's own"""
    if is_tree(v):
        return v
    if not looks_node(v):
        return None
    arc = isinstance(v.f[2], Agg)
    ch = v.f[2].f[0] if arc else v.f[2]
    segs = [s for s in whole(e, (prefix or v.f[0].f[0]).segs) if not e.ent_eq(s.n)]
    if not segs or not isinstance(segs[0].t, Key) or segs[0].n != ONE:
        return None
    k, rest, val = segs[0].t, segs[1:], v.f[1]
    ch = [s for s in ch.segs if not e.ent_eq(s.n)]
    tag = "atree" if arc else "tree"
    id = None
    if len(rest) == 1 and isinstance(rest[0].t, Term) and rest[0].t.op == "rest":
        id = rest[0].t.a[0]
    elif isinstance(val, Term) and val.op == "opt":
        id = val.a[0]
    elif ch and is_kid(ch[0].t):
        id = ch[0].t.a[0]
    if id is None:
        if isinstance(val, Agg) and val.v == 1 and not ch:
            name = None
            if not rest:
                name = "nil"
            elif len(rest) == 1 and isinstance(rest[0].t, Term) and rest[0].t.op == "s" and \
                    e.ent_eq(rest[0].n - e.st.ghost.get("len:" + rest[0].t.a[0], ZERO - 1)):
                name = rest[0].t.a[0]
            if name:
                return Agg(tag, (k, ANY if has_any(val) else Term("leaf", (name, val.f[0]))))
        return None
    if has_any(id):
        if all(isinstance(s.t, Term) for s in rest) and all(is_kid(s.t) for s in ch):
            return Agg(tag, (k, ANY))
        return None
    # rest
    if rest:
        if len(rest) != 1 or rest[0].t != Term("rest", (id,)) or not e.ent_eq(rest[0].n - length(e, id)):
            return None
    elif not e.ent_eq(length(e, id)):
        return None
    # value
    if not (val == Term("opt", (id,)) or val == SOME(Term("val", (id,))) and e.st.facts.get(("some", id)) is True or
            val == NONE() and e.st.facts.get(("some", id)) is False):
        return None
    # children
    if ch:
        n = ZERO
        for s in ch:
            if not is_kid(s.t) or s.t.a[0] != id:
                return None
            n = n + s.n
        if not e.ent_eq(n - count(e, id)):
            return None
    elif not e.ent_eq(count(e, id)):
        return None
    return Agg(tag, (k, id))


def element(e, v):
    """a node stored into a sequence"""
    if looks_node(v) and "spelled" not in e.st.ghost:
        t = fold(e, v)
        if t is not None:
            return t
    return v


def symbolic(v):
    """template that mentions lengths: cannot be joined"""
    if isinstance(v, Seq):
        return any(not s.n.is_const() or symbolic(s.t) for s in v.segs)
    if isinstance(v, Agg):
        return any(symbolic(x) for x in v.f)
    return False


EMPTY = Agg(0, (Agg(0, (Seq(),)), Agg(0, ()), Seq()))
AEMPTY = Agg(0, (Agg(0, (Seq(),)), Agg(0, ()), Agg("arc", (Seq(),))))


# ---------------------------------------------------------------- strings
STRINGS = ("s", "rest", "sub")


def is_string(t):
    return isinstance(t, Term) and t.op in STRINGS


def split_string(e, s, n1, n2):
    """cut an unknown string in two (only when paths are kept apart: every other occurrence is cut at the same place when it is looked at)"""
    if not e.exact or has_any(s.t):
        raise Unsupported(f"split inside the string {s.t}")
    r = (Seg(Term("sub", (s.t, const(0))), n1), Seg(Term("sub", (s.t, const(1))), n2))
    e.st.ghost["split:" + repr(s.t)] = Agg("split", (s.t, Seq(r)))
    return r


def expand(e, segs):
    """the strings that have been cut, in their parts"""
    g = e.st.ghost
    out = []
    for s in segs:
        k = "split:" + repr(s.t) if is_string(s.t) else None
        if k in g:
            out += expand(e, g[k].f[1].segs)
        else:
            out.append(s)
    return out


def whole(e, segs):
    """parts of strings put together again"""
    cut = [v for k, v in e.st.ghost.items() if k.startswith("split:")]
    if not cut:
        return list(segs)
    out = [s for s in expand(e, segs) if not e.ent_eq(s.n)]
    for c in reversed(cut):
        parts = [s for s in c.f[1].segs if not e.ent_eq(s.n)]
        i = 0
        while parts and i + len(parts) <= len(out):
            if all(out[i + j].t == q.t and e.ent_eq(out[i + j].n - q.n) for j, q in enumerate(parts)):
                n = ZERO
                for q in parts:
                    n = n + q.n
                out[i:i + len(parts)] = [Seg(c.f[0], n)]
            i += 1
    return out


def string_cmp(e, args):
    """comparison of two components that lie in unknown strings: -1/0/1 or None"""
    from . import models
    r = [models.last_ref(e, a) for a in args]
    v = [models.deref_all(e, a) for a in args]
    if not any(is_string(x) for x in v):
        return None
    if e.exact and not any(has_any(x) for x in v):
        if v[0] == v[1]:
            return 0            # one component
        # components of unknown strings: free, the first time each of them is looked at
        f = e.st.facts
        if ("ccmp", v[0], v[1]) in f:
            return f[("ccmp", v[0], v[1])]
        if ("ccmp", v[1], v[0]) in f:
            return -f[("ccmp", v[1], v[0])]
        if any(x in k[1:] for k in f if isinstance(k, tuple) and k[:1] == ("ccmp",) for x in v):
            e.st.lossy = True
        r = f[("ccmp", v[0], v[1])] = (-1, 0, 1)[e.choice(3)]
        return r
    if v[0] == v[1] and not has_any(v[0]):
        # the same component of the same string?
        off = []
        for x in r:
            if not isinstance(x, Ref) or not x.path or not isinstance(x.path[-1], tuple):
                break
            q = e.load(x.root, x.path[:-1])
            b = ZERO
            for s in q.segs:
                if s.t == v[0]:
                    break
                b = b + s.n
            off.append(x.path[-1][1] - b)
        if len(off) == 2 and e.ent_eq(off[0] - off[1]):
            return 0
    return (-1, 0, 1)[e.choice(3)]


def common_prefix(e, fn, args):
    from . import models
    a, b = [models.as_slice(e, x) for x in args]
    x, y = [[s for s in whole(e, models.sub_seq(e, r).segs) if not e.ent_eq(s.n)] for r in (a, b)]
    n = ZERO
    i = 0
    while i < len(x) and i < len(y):
        s, t = x[i], y[i]
        if isinstance(s.t, Key) and isinstance(t.t, Key) and s.n == ONE and t.n == ONE:
            if models.key_cmp(e, s.t, t.t) != 0:
                return n
            n = n + 1
        elif s.t == t.t and isinstance(s.t, Term) and not has_any(s.t) and e.ent_eq(s.n - t.n):
            n = n + s.n
        else:
            r = e.st.fresh()
            e.st.lossy = True
            for q in (x, y):
                m = ZERO
                for z in q[i:]:
                    m = m + z.n
                e.st.add_con(m - r)
            return n + r
        i += 1
    return n


# ---------------------------------------------------------------- induction hypothesis
BINARY = {"outer_combine_with": "outer", "inner_combine_with": "inner", "left_combine_with": "left",
          "remove_prefix_with": "remove", "retain_prefix_with": "retain",
          "outer_combine": "outer", "inner_combine": "inner", "left_combine": "left",
          "is_subset": "subset", "is_subset0": "subset", "intersects": "intersects", "intersects0": "intersects"}
SAME = ("materialize", "materialize_shortened", "clone", "from")


def operand(e, v):
    """tree behind a reference (or a child of a child)"""
    n = 0
    while isinstance(v, Ref) and n < 4:
        v = e.load(v.root, v.path)
        n += 1
    return v


def with_prefix(e, r, p):
    """subtree described by a node and the remaining part of its prefix"""
    from . import models
    v = operand(e, r)
    p = models.as_slice(e, p)
    if is_tree(v):
        if isinstance(r, Ref) and p.root == r.root and p.path[:len(r.path)] == r.path and p.fat[0] == ZERO:
            return v
        return None
    if looks_node(v):
        return fold(e, v, models.sub_seq(e, p))
    return None


def flavour(e, fn, t):
    """representation of the result: with shared or with owned children"""
    n = e.ty(fn["ret"])["name"]
    return Agg("atree" if "::ArcRadixTree<" in n else "tree", t.f) if "RadixTree<" in n else t


def inspected(e):
    """what a specification says about subtrees is not related to what was seen of their prefixes before"""
    if any(isinstance(k, tuple) and k[:1] == ("ccmp",) for k in e.st.facts):
        e.st.lossy = True


def answer(e, op, a, b):
    k = (op, a.f[1], b.f[1])
    if any(has_any(x) for x in k[1:]):
        return bool(e.choice(2))
    f = e.st.facts
    if k not in f:
        f[k] = bool(e.choice(2))
    return f[k]


def contract(e, fn, args):
    """-> None (analyse the body) or (result,)"""
    path = fn["path"]
    if "radix_tree" not in path or "{closure" in path:
        return None
    last = path.split("::")[-1]
    if last == "common_prefix" and path == MOD + "common_prefix" and len(e.st.frames) > 1:
        if any(models_string(e, a) for a in args):
            return (common_prefix(e, fn, args),)
        return None
    if last == "is_empty" and len(args) == 1:
        v = operand(e, args[0])
        if is_tree(v) or is_kid(v):
            return (False,)
        return None
    if last == "empty_arc" and not args:
        return (Agg("arc", (Seq(),)),)
    if last in SAME and args:
        v = operand(e, args[0]) if isinstance(args[0], Ref) else args[0]
        if not (is_tree(v) or is_kid(v)):
            return None
        if last == "materialize_shortened" and not e.ent_eq(args[1]):
            return None
        if "RadixTree<" not in e.ty(fn["ret"])["name"]:
            return None
        if is_kid(v):
            return (Term("akid" if "::ArcRadixTree<" in e.ty(fn["ret"])["name"] else "kid", v.a),)
        return (flavour(e, fn, v),)
    if last == "find" and len(args) == 2:
        return find(e, fn, args)
    op = BINARY.get(last)
    if op is None:
        return None
    # the operation under analysis is never replaced by its own contract: one operand lies below the node
    strict = is_tree(operand(e, args[0])) or len(args) > 1 and is_tree(operand(e, args[-2 if last.endswith("0") else 1]))
    if last.endswith("0") and len(args) == 4:
        a, b = with_prefix(e, args[0], args[1]), with_prefix(e, args[2], args[3])
    else:
        a, b = operand(e, args[0]), operand(e, args[1])
        if op in ("subset", "intersects"):
            a, b = fold(e, a), fold(e, b)
    if not (is_tree(a) and is_tree(b)) or not strict:
        return None
    e.visited_fns.add(fn["id"])
    inspected(e)
    same = a.f[0].c == b.f[0].c
    if not same:
        e.st.lossy = True
    if op in ("subset", "intersects"):
        return (same and answer(e, op, a, b),)
    if not same_callback(e, op, args[2]):
        op = "other " + op
    inplace = last.endswith("_with")
    arc = a.v == "atree" if inplace else "::ArcRadixTree<" in e.ty(fn["ret"])["name"]
    if not same:
        res = Agg("atree" if arc else "tree", (Key("?"), ANY))
    else:
        unk = has_any(a.f[1]) or has_any(b.f[1])
        t = ANY if unk else Term(op, (a.f[1], b.f[1]))
        if unk:
            empty = bool(e.choice(2))
        else:
            k = ("empty", t)
            if k not in e.st.facts:
                e.st.facts[k] = bool(e.choice(2))
            empty = e.st.facts[k]
        res = (AEMPTY if arc else EMPTY) if empty else Agg("atree" if arc else "tree", (a.f[0], t))
    if inplace:
        e.store(args[0].root, args[0].path, res)
        return (UNIT,)
    return (res,)


def same_callback(e, op, f):
    """the recursive call passes on the callback the operation was given"""
    for fr in e.st.frames:
        f0 = e.p.fns[fr.fn]
        p = f0["path"]
        if "radix_tree" in p and "{closure" not in p and BINARY.get(p.split("::")[-1]) == op and f0["argc"] == 3:
            g = e.st.mem.get(("L", fr.depth, 3))
            if g is not None:
                return g == f
    return True


def models_string(e, a):
    """slice of components that are not all single known keys"""
    from . import models
    return any(isinstance(s.t, Term) for s in models.seq_at(e, models.as_slice(e, a)).segs)


def find(e, fn, args):
    from . import models
    v = operand(e, args[0])
    if not is_tree(v):
        return None
    q = [s for s in whole(e, models.sub_seq(e, models.as_slice(e, args[1])).segs) if not e.ent_eq(s.n)]
    if not q or not isinstance(q[0].t, Key) or q[0].n != ONE:
        return None
    t = e.ty(fn["ret"])
    if [(x["n"], [y[0] for y in x["f"]]) for x in t["vs"]] != [("Found", ["0"]), ("Prefix", ["tree", "rt"]), ("NotFound", ["closest", "rt", "rp"])]:
        return None
    inspected(e)
    id = v.f[1]
    if len(q) == 1:
        name = Term("nil")
    elif len(q) == 2 and isinstance(q[1].t, Term) and q[1].t.op == "s":
        name = q[1].t
    else:
        return None
    e.visited_fns.add(fn["id"])
    if v.f[0].c != q[0].t.c:
        how = 2
    elif has_any(id) or v.f[0].c != "=":
        how = e.choice(3)
    else:
        k = ("find", id, name)
        if k not in e.st.facts:
            e.st.facts[k] = const(e.choice(3))
        how = e.st.facts[k].c
    if how == 2:
        r = args[0]
        return (Agg(2, (r, e.st.fresh(), e.st.fresh())),)
    at = ANY if has_any(id) or v.f[0].c != "=" else Term("at", (id, name))
    head, tail = e.st.fresh(), e.st.fresh()
    segs = [Seg(Term("s", ("fhead",)), head)]
    if how == 1:
        e.st.add_con(tail - 1)
        segs.append(Seg(Term("s", ("ftail",)), tail))
        e.st.ghost["ftail"] = tail
    n = count(e, at)
    node = Agg(0, (Agg(0, (Seq(segs),)), Term("opt", (at,)), kids(e, Seq((Seg(Term("akid" if v.v == "atree" else "kid", (at,)), n),)), v.v)))
    r = Ref(e.alloc(node))
    return (Agg(0, (r,)) if how == 0 else Agg(1, (r, tail)),)
