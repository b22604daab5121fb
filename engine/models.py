"""Meaning of the functions whose bodies are not analysed: the opaque element types of the
harness (total order on keys, congruence on values, uninterpreted callbacks) and the documented
contracts of SmallVec / Vec / slices / the in-place builders."""
import re
from .num import Aff, ZERO, ONE, const, entails
from .vals import *
from .interp import Unsupported, Panic, Prune, Fork, Tail

EXACT = {}
PATS = []


def model(*paths):
    def deco(f):
        for p in paths:
            EXACT[p] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATS.append((re.compile(rx), f))
        return f
    return deco


MISS = object()


def lookup(prog, fn):
    c = prog.model_cache
    i = fn["id"]
    r = c.get(i, MISS)
    if r is not MISS:
        return r
    r = None
    if "bbs" not in fn:
        p = fn["path"]
        r = EXACT.get(p)
        if r is None:
            for rx, f in PATS:
                if rx.search(p):
                    r = f
                    break
        if r is None and fn["kind"] == "virtual":
            r = None
    c[i] = r
    return r


# ---------------------------------------------------------------- helpers
def target(e, v):
    """value -> Ref, looking through Box / NonNull wrappers"""
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    if not isinstance(v, Ref):
        raise Unsupported(f"expected a reference, got {v}")
    return v


def seq_at(e, r):
    v = e.load(r.root, r.path)
    if not isinstance(v, Seq):
        raise Unsupported(f"expected a sequence, got {v}")
    return v


def as_slice(e, r):
    """reference to SmallVec / Vec / array / slice -> fat reference"""
    r = target(e, r)
    if r.fat is not None:
        return r
    s = seq_at(e, r)
    return Ref(r.root, r.path, (ZERO, s.length()))


def deref_all(e, v):
    """value behind any number of references"""
    n = 0
    while isinstance(v, Ref):
        v = e.load(v.root, v.path)
        n += 1
        if n > 8:
            raise Unsupported("reference chain")
    return v


def elem_ref(e, r, i):
    return Ref(r.root, r.path + (("x", r.fat[0] + i),))


def write_seq(e, r, s):
    e.store(r.root, r.path, e.simp(s))


def arg_ty(e, fn, i):
    a = fn.get("args") or []
    return e.ty(a[i]) if i < len(a) else None


# ---------------------------------------------------------------- keys
FLIP = {-1: 1, 0: 0, 1: -1}
CLS = {"<": 0, "=": 1, ">": 2}


def closure_order(facts):
    """transitive closure of (a, rel, b) facts -> dict (a,b) -> '<' | '='"""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for a, r, b in facts:
        if r == "=":
            parent[find(a)] = find(b)
    lt = {(find(a), find(b)) for a, r, b in facts if r == "<"}
    ch = True
    while ch:
        ch = False
        for a, b in list(lt):
            for c, d in list(lt):
                if b == c and (a, d) not in lt:
                    lt.add((a, d))
                    ch = True
    return find, lt


def chain_facts(st):
    out = []
    for ch, items in st.chains.items():
        es = [i for k, i in items if k == "e"]
        out += [(a, "<", b) for a, b in zip(es, es[1:])]
    return out


def order_of(e, a, b):
    """-1/0/1 or None for two same-class elements with identities"""
    st = e.st
    if a == b:
        return 0
    if a >= RANK0 // 2 and b >= RANK0 // 2:
        return -1 if a < b else 1
    find, lt = closure_order(tuple(chain_facts(st)) + st.order)
    x, y = find(a), find(b)
    if x == y:
        return 0
    if (x, y) in lt:
        return -1
    if (y, x) in lt:
        return 1
    return None


def consistent(facts):
    find, lt = closure_order(facts)
    return all(a != b for a, b in lt)


def key_cmp(e, a, b):
    """-> -1, 0, 1 (forks)"""
    if not isinstance(a, Key) or not isinstance(b, Key):
        raise Unsupported(f"comparison of {a} and {b}")
    if a.c not in CLS or b.c not in CLS:
        raise Unsupported(f"comparison of keys of unknown class {a} {b}")
    ca, cb = CLS[a.c], CLS[b.c]
    if ca != cb:
        return -1 if ca < cb else 1
    if a.c == "=":
        return 0
    if not e.exact and "distinct" in e.st.ghost:
        return (-1, 1)[e.choice(2)]
    if e.exact and a.id is not None and b.id is not None:
        o = order_of(e, a.id, b.id)
        if o is not None:
            return o
        opts = []
        base = tuple(chain_facts(e.st)) + e.st.order
        for o, f in ((-1, (a.id, "<", b.id)), (0, (a.id, "=", b.id)), (1, (b.id, "<", a.id))):
            if not (o == 0 and "distinct" in e.st.ghost) and consistent(base + (f,)):
                opts.append((o, f))
        o, f = e.choose_of(opts)
        e.st.order = e.st.order + (f,)
        return o
    e.st.lossy = True
    return (-1, 0, 1)[e.choice(3)]


K = "<harness::opaque::K as core::"


def keys(e, args):
    return deref_all(e, args[0]), deref_all(e, args[1])


def kcmp(e, args):
    if same_place(e, args):
        return 0
    r = archive_order(e, args)
    if r is not None:
        return r
    r = e.radix.string_cmp(e, args)
    if r is not None:
        return r
    return key_cmp(e, *keys(e, args))


@model(K + "cmp::Ord>::cmp")
def _(e, fn, args):
    return ORD[kcmp(e, args)]


@model(K + "cmp::PartialOrd>::partial_cmp")
def _(e, fn, args):
    return SOME(ORD[kcmp(e, args)])


for _n, _f in (("lt", lambda o: o < 0), ("le", lambda o: o <= 0), ("gt", lambda o: o > 0), ("ge", lambda o: o >= 0)):
    EXACT[K + f"cmp::PartialOrd>::{_n}"] = (lambda g: lambda e, fn, args: g(kcmp(e, args)))(_f)


@model(K + "cmp::PartialEq>::eq")
def _(e, fn, args):
    return kcmp(e, args) == 0


@model(K + "cmp::PartialEq>::ne")
def _(e, fn, args):
    return kcmp(e, args) != 0


@model(K + "cmp::Ord>::max")
def _(e, fn, args):
    return args[0] if key_cmp(e, args[0], args[1]) > 0 else args[1]


@model(K + "cmp::Ord>::min")
def _(e, fn, args):
    return args[1] if key_cmp(e, args[0], args[1]) > 0 else args[0]


@pattern(r"^<harness::opaque::\w+ as core::clone::Clone>::clone$")
def _(e, fn, args):
    return deref_all(e, args[0])


for _p in [p for p in EXACT if p.startswith(K)]:
    EXACT[_p.replace("::K as", "::C as")] = EXACT[_p]


# ---------------------------------------------------------------- values
# facts ("v", a, b) with repr(a) < repr(b): '<' '=' '>' or '!' (different, order unknown)
VP = r"^<harness::opaque::[VWR] as "


def vfacts(facts):
    eq, lt, ne = [], [], []
    for k, r in facts.items():
        if k[0] != "v":
            continue
        _, a, b = k
        if r == "=":
            eq.append((a, "=", b))
        elif r == "<":
            lt.append((a, "<", b))
        elif r == ">":
            lt.append((b, "<", a))
        else:
            ne.append((a, b))
    return eq, lt, ne


def vconsistent(facts):
    eq, lt, ne = vfacts(facts)
    find, less = closure_order(eq + lt)
    return all(a != b for a, b in less) and all(find(a) != find(b) for a, b in ne)


def vrel(e, a, b, what):
    """relation between two values: what = 'eq' -> bool, 'cmp' -> -1/0/1 (forks, remembered)"""
    if has_any(a) or has_any(b):
        return bool(e.choice(2)) if what == "eq" else (-1, 0, 1)[e.choice(3)]
    if a == b:
        return True if what == "eq" else 0
    flip = repr(a) > repr(b)
    k = ("v",) + ((b, a) if flip else (a, b))
    f = e.st.facts
    cur = f.get(k)
    if cur is None or (cur == "!" and what == "cmp"):
        opts = []
        for r in (("=", "!") if what == "eq" else ("<", "=", ">") if cur is None else ("<", ">")):
            g = dict(f)
            g[k] = r
            if vconsistent(g):
                opts.append(r)
        if not opts:
            raise Prune()
        cur = opts[e.answer(len(opts), k, tracked_leaf(a) or tracked_leaf(b))]
        f[k] = cur
    if what == "eq":
        return cur == "="
    o = {"<": -1, "=": 0, ">": 1}[cur]
    return -o if flip else o


def val_eq(e, a, b):
    return vrel(e, a, b, "eq")


def last_ref(e, v):
    """innermost reference of a chain of references"""
    while isinstance(v, Ref):
        w = e.load(v.root, v.path)
        if not isinstance(w, Ref):
            return v
        v = w
    return None


def same_place(e, args):
    a, b = last_ref(e, args[0]), last_ref(e, args[1])
    return a is not None and a == b


@pattern(VP + r"core::cmp::PartialEq>::(eq|ne)$")
def _(e, fn, args):
    r = True if same_place(e, args) else val_eq(e, *keys(e, args))
    return (not r) if fn["path"].endswith("::ne") else r


@pattern(VP + r"core::cmp::(Ord>::cmp|PartialOrd>::(partial_cmp|lt|le|gt|ge))$")
def _(e, fn, args):
    o = 0 if same_place(e, args) else vrel(e, *keys(e, args), "cmp")
    n = fn["path"].split("::")[-1]
    if n == "cmp":
        return ORD[o]
    if n == "partial_cmp":
        return SOME(ORD[o])
    return {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[n]


@pattern(VP + r"core::ops::arith::(Add|Sub|Mul|Div)>::\w+$")
def _(e, fn, args):
    return mk(fn["path"].split("::")[-1], *args)


@pattern(VP + r"core::ops::arith::Neg>::neg$")
def _(e, fn, args):
    return mk("neg", args[0])


@pattern(VP + r"(num_traits::\w+::|core::default::)+(Zero>::zero|One>::one|Bounded>::min_value|Bounded>::max_value|Default>::default)$")
def _(e, fn, args):
    return Term("c_" + fn["path"].split("::")[-1])


@pattern(VP + r"num_traits::\w+::\w+>::is_(zero|one)$")
def _(e, fn, args):
    return val_eq(e, deref_all(e, args[0]), Term("c_" + fn["path"].split("is_")[-1]))


@pattern(r"^(<harness::opaque::\w+ as core::hash::Hash>::hash|core::hash::impls::<impl core::hash::Hash for \w+>::hash)$")
def _(e, fn, args):
    log(e, Term("hash", (target(e, args[1]), deref_all(e, args[0]) if not isinstance(deref_all(e, args[0]), Seq) else as_slice(e, args[0]))))
    return UNIT


@pattern(r"^(<smallvec::SmallVec<A> as core::hash::Hash>::hash|<alloc::vec::Vec<T, A> as core::hash::Hash>::hash|core::hash::impls::<impl core::hash::Hash for \[T\]>::hash)$")
def _(e, fn, args):
    log(e, Term("hash", (target(e, args[1]), as_slice(e, args[0]))))
    return UNIT


@pattern(r"^<harness::opaque::AnyHasher as core::hash::Hasher>::write\w*$")
def _(e, fn, args):
    v = args[1]
    if isinstance(v, Ref):
        v = as_slice(e, v)
    log(e, Term("hash", (target(e, args[0]), v if not isinstance(v, bool) else const(int(v)))))
    return UNIT


# ---------------------------------------------------------------- whole sequences
def sub_seq(e, r):
    _, rest = e.take(seq_at(e, r), r.fat[0])
    return e.take(rest, r.fat[1])[0]


def elem_rel(e, a, b, what):
    """relation of two elements (keys or (key, value) pairs)"""
    if isinstance(a, Agg) and isinstance(b, Agg):
        for x, y in zip(a.f, b.f):
            o = elem_rel(e, x, y, what)
            if what == "eq" and not o:
                return False
            if what == "cmp" and o:
                return o
        return True if what == "eq" else 0
    if isinstance(a, Key):
        o = key_cmp(e, a, b)
        return o == 0 if what == "eq" else o
    return vrel(e, a, b, what)


def seq_rel(e, x, y, what):
    """equality / lexicographic order of two whole sequences"""
    a, b = as_slice(e, inner_ref(e, x)), as_slice(e, inner_ref(e, y))
    if a == b:
        return True if what == "eq" else 0
    if e.exact:
        i = 0
        while True:
            if not e.ge0(a.fat[1] - i - 1):
                end = not e.ge0(b.fat[1] - i - 1)
                return end if what == "eq" else (0 if end else -1)
            if not e.ge0(b.fat[1] - i - 1):
                return False if what == "eq" else 1
            if i >= max(3, e.unroll):
                e.truncated = True
                raise Prune()
            p = e.load(a.root, a.path + (("x", a.fat[0] + i),))
            q = e.load(b.root, b.path + (("x", b.fat[0] + i),))
            o = elem_rel(e, p, q, what)
            if what == "eq" and not o:
                return False
            if what == "cmp" and o:
                return o
            i += 1
    flip = repr(a) > repr(b)
    k = ("seq",) + ((repr(b), repr(a)) if flip else (repr(a), repr(b)))
    f = e.st.facts
    cur = f.get(k)
    if cur is None or (cur == "!" and what == "cmp"):
        opts = {"<", "=", ">"} if cur is None else {"<", ">"}
        sa, sb = sub_seq(e, a), sub_seq(e, b)
        ta = [s for s in sa.segs if e.tracked(s)]
        tb = [s for s in sb.segs if e.tracked(s)]
        if len(ta) != len(tb) or e.ent(sa.length() - sb.length() - 1) or e.ent(sb.length() - sa.length() - 1):
            opts.discard("=")
        elif ta and not all(elem_rel(e, p.t, q.t, "eq") for p, q in zip(ta, tb)):
            opts.discard("=")
        ea, eb = e.is_empty(sa), e.is_empty(sb)
        if ea or eb:
            opts = {"=" if ea and eb else "<" if ea else ">"}
        else:
            ha = e.elem(sa, ZERO)
            hb = e.elem(sb, ZERO)
            ka, kb = tkey(ha[0].segs[ha[1]].t), tkey(hb[0].segs[hb[1]].t)
            if ka and kb and ka.c in CLS and kb.c in CLS and ka.c != kb.c:
                opts = {"<" if CLS[ka.c] < CLS[kb.c] else ">"}
        if flip:
            opts = {{"<": ">", ">": "<", "=": "="}[o] for o in opts}
        if cur == "!":
            opts.discard("=")
        opts = sorted(opts)
        if what == "eq":
            opts = sorted({"=" if o == "=" else "!" for o in opts}) if len(opts) > 1 else opts
        cur = e.choose_of(opts)
        f[k] = cur
    if what == "eq":
        return cur == "="
    o = {"<": -1, "=": 0, ">": 1}[cur]
    return -o if flip else o


def inner_ref(e, v):
    while isinstance(v, Ref) and v.fat is None:
        w = e.load(v.root, v.path)
        if not isinstance(w, Ref):
            return v
        v = w
    return v


SEQCMP = r"^(<smallvec::SmallVec<A> as core::cmp::X>|<alloc::vec::Vec<T, A> as core::cmp::X>|core::slice::cmp::<impl core::cmp::X for \[T\]>|alloc::vec::partial_eq::<impl core::cmp::X for \S+>)"


@pattern(SEQCMP.replace("X", r"PartialEq(<.*>)?") + r"::(eq|ne)$")
def _(e, fn, args):
    r = seq_rel(e, args[0], args[1], "eq")
    return (not r) if fn["path"].endswith("::ne") else r


@pattern(SEQCMP.replace("X", "(Partial)?Ord(<.*>)?") + r"::(cmp|partial_cmp|lt|le|gt|ge)$")
def _(e, fn, args):
    o = seq_rel(e, args[0], args[1], "cmp")
    n = fn["path"].split("::")[-1]
    if n == "cmp":
        return ORD[o]
    if n == "partial_cmp":
        return SOME(ORD[o])
    return {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[n]


def log(e, t):
    e.st.log = e.st.log + (t,)


# ---------------------------------------------------------------- harness primitives
H = "harness::opaque::"


@model(H + "choose")
def _(e, fn, args):
    lo, hi = args
    n = e.st.fresh()
    e.st.add_con(n - lo)
    e.st.add_con(hi - n - 1)
    if not e.st.feasible():
        raise Prune()
    return n


@model(H + "exact")
def _(e, fn, args):
    return e.exact


@model(H + "concrete")
def _(e, fn, args):
    return e.ranked


@model(H + "coarse")
def _(e, fn, args):
    g = e.st.ghost
    if "coarse" not in g:
        g["coarse"] = const(e.choice(2))
    return g["coarse"].c == 1


@model(H + "nondet")
def _(e, fn, args):
    return bool(e.choice(2))


@model(H + "assume")
def _(e, fn, args):
    if args[0] is not True:
        raise Prune()
    return UNIT


def any_template(e, t, c, pay, key=None):
    """element of type t whose (first) key has class c and whose payloads are `pay`"""
    ty = e.ty(t)
    if ty["k"] == "adt" and ty["path"] == "harness::opaque::K":
        if key is not None:
            return key
        if e.exact and c != "=":
            i = e.st.nid
            e.st.nid += 1
            return Key(c, i)
        return Key(c)
    if ty["k"] == "adt" and ty["crate"] == "harness":
        return pay
    if ty["k"] == "tuple":
        return Agg(0, tuple(any_template(e, x, c, pay, key) for x in ty["ts"]))
    raise Unsupported(f"element type {ty['name']}")


@pattern(r"^<harness::opaque::AnyIter<T> as core::iter::traits::iterator::Iterator>::next$")
def _(e, fn, args):
    t = any_elem(e, e.ty(fn["self"])["args"][0], False)
    return NONE() if t is None else SOME(t)


@pattern(r"^<harness::opaque::AnyIter<T> as core::iter::traits::iterator::Iterator>::size_hint$")
def _(e, fn, args):
    return Agg(0, (ZERO if e.ranked else e.st.fresh(), NONE()))


def any_elem(e, t, name):
    """next element of an arbitrary sequence; the occurrences of the tracked key are numbered"""
    st = e.st
    if "ended" in st.ghost and not name:
        return None
    if "script" in st.ghost and not name:
        # a sequence whose elements stand in a known order
        l = st.ghost["script"].f
        if not l:
            st.ghost["ended"] = UNIT
            return None
        st.ghost["script"] = Agg("script", l[1:])
        k, n = l[0].f
        if k.c == "=":
            st.ghost["any"] = Term("done")
            st.ghost["lasteq"] = Term("v_s%d" % n)
        return any_template(e, t, k.c, Term("v_s%d" % n), k)
    ph = st.ghost.get("any", Term("none"))
    opts = ["<", ">"]
    if ph.op == "none":
        opts += ["only", "first"]
    elif ph.op == "open":
        opts += ["mid", "last"]
    if not name:
        if ph.op != "open":
            opts += ["end"]
    o = e.choose_of(opts)
    if o == "end":
        st.ghost["ended"] = UNIT
        return None
    if o in "<>":
        return any_template(e, t, o, ANY)
    st.ghost["any"] = Term("done") if o in ("only", "last") else Term("open")
    st.ghost["lasteq"] = Term("v_" + o)
    return any_template(e, t, "=", Term("v_" + o))


@pattern(r"^<harness::opaque::K as serde::de::Deserialize<'de>>::deserialize$")
def _(e, fn, args):
    k = any_elem(e, fn["self"], True)
    e.st.ghost["key"] = k
    return Agg(0, (k,))


@pattern(r"^<harness::opaque::[VWR] as serde::de::Deserialize<'de>>::deserialize$")
def _(e, fn, args):
    k = e.st.ghost.pop("key", None)
    if k is None:
        return Agg(0, (Term("dv"),))
    if k.c == "=":
        ph = e.st.ghost["any"].op
        n = e.st.ghost.get("lasteq", Term("v_first"))
        return Agg(0, (n,))
    if e.exact:
        return Agg(0, (Term("v", (k.id,)),))
    return Agg(0, (ANY,))


@model(H + "any_err")
def _(e, fn, args):
    log(e, Term("custom_error"))
    return Term("err")


@model(H + "seq_end")
def _(e, fn, args):
    e.st.ghost["ended"] = UNIT
    return UNIT


@model(H + "input_err")
def _(e, fn, args):
    log(e, Term("input_error"))
    return Term("err")


@model(H + "any_bool")
def _(e, fn, args):
    k = ("any_bool",)
    if k not in e.st.facts:
        e.st.facts[k] = bool(e.choice(2))
    return e.st.facts[k]


def sink(e, t):
    s = e.st.ghost.get("sink", Seq())
    e.st.ghost["sink"] = Seq(s.segs + (Seg(t, ONE),))


@pattern(r"^<harness::opaque::K as serde::ser::Serialize>::serialize$")
def _(e, fn, args):
    k = deref_all(e, args[0])
    m = e.st.ghost.get("mode")
    if m == Term("map"):
        if "key" in e.st.ghost:
            sink(e, Agg("lone", (e.st.ghost["key"],)))
        e.st.ghost["key"] = k
    elif m == Term("seq"):
        sink(e, k)
    else:
        log(e, Term("emit", (k,)))
    return Agg(0, (UNIT,))


@pattern(r"^<harness::opaque::[VWR] as serde::ser::Serialize>::serialize$")
def _(e, fn, args):
    v = deref_all(e, args[0])
    m = e.st.ghost.get("mode")
    if m == Term("map"):
        k = e.st.ghost.pop("key", None)
        sink(e, Agg(0, (k, v)) if k is not None else Agg("lone", (v,)))
    elif m == Term("seq"):
        sink(e, v)
    else:
        log(e, Term("emit", (v,)))
    return Agg(0, (UNIT,))


@pattern(r"^harness::opaque_ser::begin_(seq|map|tuple)$")
def _(e, fn, args):
    n = fn["path"].split("_")[-1]
    n = args[0] if n == "tuple" else args[0].f[0] if args[0].v == 1 else const(-1)
    k = fn["path"].split("_")[-1]
    log(e, Term("begin_" + k, (n,)))
    if k != "tuple":
        e.st.ghost["mode"] = Term(k)
    return UNIT


@model("harness::opaque_ser::end")
def _(e, fn, args):
    e.st.ghost.pop("mode", None)
    log(e, Term("end"))
    return UNIT


@model("harness::opaque_ser::emit_bool")
def _(e, fn, args):
    log(e, Term("emit_bool", (const(int(args[0])),)))
    return UNIT


def template_class(t):
    if isinstance(t, Key):
        return t.c
    if isinstance(t, Agg):
        for x in t.f:
            c = template_class(x)
            if c is not None:
                return c
    return None


def set_class(t, c):
    if isinstance(t, Key):
        return Key(c)
    if isinstance(t, Agg):
        return Agg(t.v, tuple(set_class(x, c) for x in t.f))
    if isinstance(t, Term):
        return ANY
    return t


@model(H + "sample")
def _(e, fn, args):
    r = as_slice(e, args[0])
    s = seq_at(e, r)
    for x in s.segs:
        if template_class(x.t) is not None:
            for i, c in enumerate("<=>"):
                if e.eq0(args[1] - i):
                    return set_class(x.t, c)
    raise Prune()


@model(H + "probe")
def _(e, fn, args):
    i, j, o = args
    for a in range(3):
        for b in range(3):
            if e.eq0(i - a) and e.eq0(j - b):
                want = (a > b) - (a < b)
                if a == b != 1:
                    return UNIT
                if ORD[want] != o:
                    raise Unsupported("comparator does not follow the key order")
                return UNIT
    return UNIT


@model(H + "class_sort")
def _(e, fn, args):
    r = as_slice(e, args[0])
    whole = seq_at(e, r)
    pre, rest = e.take(whole, r.fat[0])
    mid, post = e.take(rest, r.fat[1])
    lo, eq, hi = [], [], []
    for s in mid.segs:
        c = template_class(s.t)
        if c == "<":
            lo.append(s)
        elif c == "=":
            eq.append(s)
        elif c == ">":
            hi.append(s)
        else:
            # a mixture: n elements split into unknown numbers below / equal / above
            a, b = e.st.fresh(), e.st.fresh()
            e.st.add_con(s.n - a - b)
            h = s.n - a
            if c in ("?=", "*"):
                q = e.st.fresh()
                e.st.add_con(s.n - a - q)
                h = s.n - a - q
                eq.append(Seg(set_class(s.t, "="), q))
            lo.append(Seg(set_class(s.t, "<"), a))
            hi.append(Seg(set_class(s.t, ">"), h))
    if args[1] is False and any(s.t != eq[0].t for s in eq[1:]):
        # not stable: the occurrences of the tracked key end up in any order
        eq = [Seg(set_class(s.t, "="), s.n) for s in eq]
    write_seq(e, Ref(r.root, r.path), Seq(pre.segs + tuple(lo + eq + hi) + post.segs))
    return UNIT


def tkey(t):
    if isinstance(t, Key):
        return t
    if isinstance(t, Agg):
        for x in t.f:
            k = tkey(x)
            if k is not None:
                return k
    return None


@pattern(r"^harness::opaque::pred_\w+$")
def _(e, fn, args):
    vals = tuple(deref_all(e, a) for a in args)
    if any(has_any(v) for v in vals):
        return bool(e.choice(2))
    k = (fn["path"].split("::")[-1],) + vals
    f = e.st.facts
    if k not in f:
        f[k] = bool(e.answer(2, k, any(tracked_leaf(v) for v in vals)))
    log_call(e, fn["path"].split("::")[-1], vals)
    return f[k]


def resolve_vals(e, v):
    """replace references by the values they point to (for uninterpreted applications)"""
    if isinstance(v, Ref):
        return resolve_vals(e, e.load(v.root, v.path))
    if isinstance(v, Agg):
        return Agg(v.v, tuple(resolve_vals(e, x) for x in v.f))
    return v


def log_call(e, name, vals):
    """remember callback applications that involve the tracked element"""
    if any(tracked_leaf(v) for v in vals):
        log(e, Term("mixed" if any(untracked_leaf(v) for v in vals) else "call", (name,) + vals))


def opaque_result(e, t, name, vals):
    """uninterpreted value of type t"""
    ty = e.ty(t)
    unk = any(has_any(v) for v in vals)
    if ty["k"] == "bool":
        if unk:
            return bool(e.choice(2))
        k = (name,) + vals
        if k not in e.st.facts:
            e.st.facts[k] = bool(e.answer(2, k, any(tracked_leaf(v) for v in vals)))
        return e.st.facts[k]
    if ty["k"] == "adt" and ty["path"] == "core::option::Option":
        if unk:
            some = bool(e.choice(2))
        else:
            k = (name,) + vals
            if k not in e.st.facts:
                e.st.facts[k] = bool(e.answer(2, k, any(tracked_leaf(v) for v in vals)))
            some = e.st.facts[k]
        return SOME(ANY if unk else Term(name, vals)) if some else NONE()
    if ty["k"] == "tuple" and not ty["ts"]:
        return UNIT
    if ty["k"] == "adt" and ty["crate"] == "harness":
        return ANY if unk else Term(name, vals)
    raise Unsupported(f"opaque result of type {ty['name']}")


@pattern(r"^harness::opaque::f_\w+$")
def _(e, fn, args):
    name = fn["path"].split("::")[-1]
    vals = tuple(resolve_vals(e, a) for a in args)
    log_call(e, name, vals)
    r = opaque_result(e, fn["ret"], name, vals)
    if name.startswith("f_mut_"):
        # first argument is a mutable reference that is updated
        a = args[0]
        unk = any(has_any(v) for v in vals)
        e.store(a.root, a.path, ANY if unk else Term(name + "!", vals))
    return r


@pattern(r"^harness::opaque::sink_\w+$")
def _(e, fn, args):
    """an item an iterator yields"""
    out = []
    for a in args:
        if isinstance(a, Ref) and a.fat is not None:
            out.append(Agg("key", (Seq(s for s in e.radix.whole(e, sub_seq(e, a).segs) if not e.ent_eq(s.n)),)))
        else:
            out.append(deref_all(e, a))
    log(e, Term("item", tuple(out)))
    most = e.st.ghost.get("most")
    if most is not None and sum(isinstance(x, Term) and x.op == "item" for x in e.st.log) > most.c:
        raise Panic(f"more than the {most.c} entries of the tree are yielded")
    return UNIT


# ---------------------------------------------------------------- panics
@pattern(r"^(core::panicking::|std::panicking::|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|"
         r"core::slice::index::slice_|std::rt::|alloc::vec::Vec<.*>::(remove|insert|swap_remove)::assert_failed)")
def panic(e, fn, args):
    msg = fn["path"]
    for a in args:
        try:
            a = deref_all(e, a)
        except Unsupported:
            continue
        if isinstance(a, Term) and a.op == "str":
            msg += f" {a.a[0]!r}"
    raise Panic(msg)


@pattern(r"^core::fmt::")
def _(e, fn, args):
    return Term("fmt")


# ---------------------------------------------------------------- vectors
SV = "smallvec::SmallVec::<A>::"
VEC = "alloc::vec::Vec::<T, A>::"
VEC1 = "alloc::vec::Vec::<T>::"


def both(n):
    return (SV + n, VEC + n, VEC1 + n)


@model(*both("new"), *both("with_capacity"))
def _(e, fn, args):
    return Seq()


@pattern(r"^<\[T; \d+\] as smallvec::Array>::size$")
def _(e, fn, args):
    # any size, always the same
    g, k = e.st.ghost, "size:" + re.search(r"; (\d+)\]", fn["path"]).group(1)
    if k not in g:
        g[k] = e.st.fresh()
    return g[k]


@model("smallvec::SmallVec::<A>::inline_size", *both("capacity"))
def _(e, fn, args):
    return e.st.fresh()


@model("alloc::boxed::Box::<T>::new_uninit")
def _(e, fn, args):
    return Ref(e.alloc(UNINIT))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(e, fn, args):
    r = target(e, args[0])
    v = e.load(r.root, r.path)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if not isinstance(v, Seq):
        raise Unsupported(f"boxed array {v}")
    return v


@model(*both("reserve"), *both("shrink_to_fit"), *both("reserve_exact"), *both("grow"))
def _(e, fn, args):
    return UNIT


@model(*both("push"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    write_seq(e, r, Seq(s.segs + (Seg(e.radix.element(e, args[1]), ONE),)))
    return UNIT


@model(*both("pop"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    if e.is_empty(s):
        return NONE()
    n = s.length() - 1
    s, i = e.elem(s, n)
    write_seq(e, r, Seq(s.segs[:i]))
    return SOME(s.segs[i].t)


@model(*both("insert"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    if not e.ge0(s.length() - args[1]):
        raise Panic("insertion index out of bounds")
    a, b = e.take(s, args[1])
    write_seq(e, r, Seq(a.segs + (Seg(args[2], ONE),) + b.segs))
    return UNIT


@model(*both("remove"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    if not e.ge0(s.length() - args[1] - 1):
        raise Panic("removal index out of bounds")
    s, i = e.elem(s, args[1])
    write_seq(e, r, Seq(s.segs[:i] + s.segs[i + 1:]))
    return s.segs[i].t


@model(*both("swap_remove"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    n = s.length()
    if not e.ge0(n - args[1] - 1):
        raise Panic("removal index out of bounds")
    s, i = e.elem(s, args[1])
    x = s.segs[i].t
    if not e.ge0(n - args[1] - 2):
        write_seq(e, r, Seq(s.segs[:i]))
        return x
    s, j = e.elem(s, n - 1)
    segs = list(s.segs)
    s2, i = e.elem(s, args[1])
    segs = list(s2.segs)
    last = segs[-1]
    segs[i] = Seg(last.t, ONE, last.tok)
    write_seq(e, r, Seq(segs[:-1]))
    return x


@model(*both("truncate"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    if e.ge0(args[1] - s.length()):
        return UNIT
    a, b = e.take(s, args[1])
    write_seq(e, r, a)
    return UNIT


@model(*both("clear"))
def _(e, fn, args):
    r = target(e, args[0])
    write_seq(e, r, Seq())
    return UNIT


@model(*both("len"))
def _(e, fn, args):
    return seq_at(e, target(e, args[0])).length()


@model(*both("is_empty"))
def _(e, fn, args):
    return e.is_empty(seq_at(e, target(e, args[0])))


def range_arg(e, fn, args, ln):
    for a in fn["args"]:
        t = e.ty(a)
        if t["k"] == "adt" and t["path"].startswith("core::ops::range"):
            a, b = range_of(e, t, args[1], ln)
            if not e.ge0(b - a) or not e.ge0(ln - b):
                raise Panic("drain range out of bounds")
            return a, b
    raise Unsupported(f"range type in {fn['name']}")


@model(*both("drain"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    a, b = range_arg(e, fn, args, s.length())
    pre, rest = e.take(s, a)
    mid, post = e.take(rest, b - a)
    write_seq(e, r, Seq(pre.segs + post.segs))
    return Agg("it", (mid,))


@model(*both("split_off"))
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    if not e.ge0(s.length() - args[1]):
        raise Panic("split_off out of bounds")
    a, b = e.take(s, args[1])
    write_seq(e, r, a)
    return b


@model("smallvec::SmallVec::<A>::spilled")
def _(e, fn, args):
    return bool(e.choice(2))


@model(*both("into_boxed_slice"))
def _(e, fn, args):
    return Ref(e.alloc(args[0]), (), (ZERO, args[0].length()))


@pattern(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend_(one|reserve)$")
def _(e, fn, args):
    if fn["path"].endswith("one"):
        r = target(e, args[0])
        write_seq(e, r, Seq(seq_at(e, r).segs + (Seg(args[1], ONE),)))
    return UNIT


@pattern(r"^<(smallvec::SmallVec<A>|alloc::vec::Vec<T>|alloc::vec::Vec<T, A>) as core::clone::Clone>::clone_from$")
def _(e, fn, args):
    r = target(e, args[0])
    write_seq(e, r, seq_at(e, target(e, args[1])))
    return UNIT


@model(*both("append"))
def _(e, fn, args):
    a, b = target(e, args[0]), target(e, args[1])
    x, y = seq_at(e, a), seq_at(e, b)
    write_seq(e, a, Seq(x.segs + y.segs))
    write_seq(e, b, Seq())
    return UNIT


@model("<smallvec::SmallVec<A> as core::ops::deref::Deref>::deref",
       "<smallvec::SmallVec<A> as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
       "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<smallvec::SmallVec<A> as core::convert::AsRef<[<A as smallvec::Array>::Item]>>::as_ref",
       "<smallvec::SmallVec<A> as core::convert::AsMut<[<A as smallvec::Array>::Item]>>::as_mut",
       "<smallvec::SmallVec<A> as core::borrow::Borrow<[<A as smallvec::Array>::Item]>>::borrow",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref",
       "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut",
       "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow",
       "<[T] as core::convert::AsRef<[T]>>::as_ref",
       "<[T] as core::convert::AsMut<[T]>>::as_mut",
       *both("as_slice"), *both("as_mut_slice"))
def deref(e, fn, args):
    return as_slice(e, args[0])


# a partly consumed owned sequence: Agg("it", (remaining elements,))
def cursor(e, a):
    r = target(e, a)
    v = e.load(r.root, r.path)
    if isinstance(v, Agg) and v.v == "it":
        return Ref(r.root, r.path + (0,))
    return r


@pattern(r"^<(smallvec::SmallVec<A>|alloc::vec::Vec<T, A>|alloc::vec::Vec<T>|alloc::collections::btree::(map::BTreeMap|set::BTreeSet)<.*>) as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(e, fn, args):
    return Agg("it", (args[0],))


@pattern(r"^<&'a (mut )?(smallvec::SmallVec<A>|alloc::vec::Vec<T, A>) as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(e, fn, args):
    return as_slice(e, args[0])


@pattern(r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter$")
def _(e, fn, args):
    return as_slice(e, args[0])


@pattern(r"^<(smallvec::IntoIter<A>|alloc::vec::into_iter::IntoIter<T, A>|alloc::collections::btree::\w+::IntoIter<.*>|smallvec::Drain<'a, T>|alloc::vec::drain::Drain<'_, T, A>) as core::iter::traits::iterator::Iterator>::next$")
def _(e, fn, args):
    r = cursor(e, args[0])
    s = seq_at(e, r)
    if e.is_empty(s):
        return NONE()
    s, i = e.elem(s, ZERO)
    write_seq(e, r, Seq(s.segs[i + 1:]))
    return SOME(s.segs[i].t)


@pattern(r"^<(smallvec::IntoIter<A>|alloc::vec::into_iter::IntoIter<T, A>) as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
def _(e, fn, args):
    r = cursor(e, args[0])
    s = seq_at(e, r)
    if e.is_empty(s):
        return NONE()
    s, i = e.elem(s, s.length() - 1)
    write_seq(e, r, Seq(s.segs[:i]))
    return SOME(s.segs[i].t)


@pattern(r"^<(smallvec::IntoIter<A>|alloc::vec::into_iter::IntoIter<T, A>|alloc::collections::btree::\w+::IntoIter<.*>) as core::iter::traits::iterator::Iterator>::size_hint$")
def _(e, fn, args):
    n = seq_at(e, cursor(e, args[0])).length()
    return Agg(0, (n, SOME(n)))


@pattern(r"^<(smallvec::IntoIter<A>|alloc::vec::into_iter::IntoIter<T, A>) as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def _(e, fn, args):
    return seq_at(e, cursor(e, args[0])).length()


@model("smallvec::IntoIter::<A>::as_slice", "smallvec::IntoIter::<A>::as_mut_slice",
       "alloc::vec::into_iter::IntoIter::<T, A>::as_slice", "alloc::vec::into_iter::IntoIter::<T, A>::as_mut_slice")
def _(e, fn, args):
    return as_slice(e, cursor(e, args[0]))


@pattern(r"^<(smallvec::SmallVec<A>|alloc::vec::Vec<T, A>|alloc::vec::Vec<T>) as core::clone::Clone>::clone$")
def _(e, fn, args):
    return seq_at(e, target(e, args[0]))


@pattern(r"^<(smallvec::SmallVec<A>|alloc::vec::Vec<T>|alloc::vec::Vec<T, A>) as core::default::Default>::default$")
def _(e, fn, args):
    return Seq()


@model("<smallvec::SmallVec<A> as core::convert::From<alloc::vec::Vec<<A as smallvec::Array>::Item>>>::from",
       "smallvec::SmallVec::<A>::from_vec", "smallvec::SmallVec::<A>::into_vec",
       "<smallvec::SmallVec<A> as core::convert::From<A>>::from", "smallvec::SmallVec::<A>::from_buf",
       "alloc::slice::<impl [T]>::into_vec")
def _(e, fn, args):
    v = args[0]
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    if isinstance(v, Ref):
        v = e.load(v.root, v.path)
    if isinstance(v, Agg) and not v.f:
        return Seq()
    if not isinstance(v, Seq):
        raise Unsupported(f"into vec of {v}")
    return v


@model("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned", "<smallvec::SmallVec<A> as core::convert::From<&'a [<A as smallvec::Array>::Item]>>::from",
       "<smallvec::SmallVec<A> as smallvec::ToSmallVec<A>>::to_smallvec", "smallvec::SmallVec::<A>::from_slice")
def _(e, fn, args):
    r = as_slice(e, args[0])
    _, rest = e.take(seq_at(e, r), r.fat[0])
    return e.take(rest, r.fat[1])[0]


@model(*both("extend_from_slice"))
def _(e, fn, args):
    r = target(e, args[0])
    t = as_slice(e, args[1])
    _, rest = e.take(seq_at(e, t), t.fat[0])
    add = e.take(rest, t.fat[1])[0]
    s = seq_at(e, r)
    write_seq(e, r, Seq(s.segs + tuple(Seg(x.t, x.n) for x in add.segs)))
    return UNIT


# indexing ------------------------------------------------------------------
def range_of(e, ty, v, ln):
    """-> (start, end) with bounds checks, or None when v is a single index"""
    n = ty["name"] if ty["k"] != "adt" else ty["path"]
    if isinstance(v, Aff):
        return None
    if n.endswith("RangeFull"):
        return ZERO, ln
    if n.endswith("RangeFrom"):
        return v.f[0], ln
    if n.endswith("RangeToInclusive"):
        return ZERO, v.f[0] + 1
    if n.endswith("RangeTo"):
        return ZERO, v.f[0]
    if n.endswith("RangeInclusive"):
        return v.f[0], v.f[1] + 1
    if n.endswith("Range"):
        return v.f[0], v.f[1]
    raise Unsupported(f"index by {n}")


def index(e, fn, args, ity):
    r = as_slice(e, args[0])
    ln = r.fat[1]
    rg = range_of(e, ity, args[1], ln)
    if rg is None:
        if not e.ge0(ln - args[1] - 1):
            raise Panic("index out of bounds")
        return elem_ref(e, r, args[1])
    a, b = rg
    if not e.ge0(b - a) or not e.ge0(ln - b):
        raise Panic("slice index out of bounds")
    return Ref(r.root, r.path, (r.fat[0] + a, b - a))


@pattern(r"^(<smallvec::SmallVec<A> as core::ops::index::Index(Mut)?<I>>|<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>|"
         r"core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>|core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>)::index(_mut)?$")
def _(e, fn, args):
    for a in fn["args"]:
        t = e.ty(a)
        if t["k"] == "uint" or (t["k"] == "adt" and t["path"].startswith("core::ops::range")):
            return index(e, fn, args, t)
    raise Unsupported(f"index type in {fn['name']}")


SL = "core::slice::<impl [T]>::"


@model(SL + "len")
def _(e, fn, args):
    return as_slice(e, args[0]).fat[1]


@model(SL + "is_empty")
def _(e, fn, args):
    return not e.ge0(as_slice(e, args[0]).fat[1] - 1)


@model(SL + "iter", SL + "iter_mut")
def _(e, fn, args):
    return as_slice(e, args[0])


@model(SL + "first", SL + "first_mut")
def _(e, fn, args):
    r = as_slice(e, args[0])
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    return SOME(elem_ref(e, r, ZERO))


@model(SL + "last", SL + "last_mut")
def _(e, fn, args):
    r = as_slice(e, args[0])
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    return SOME(elem_ref(e, r, r.fat[1] - 1))


@model(SL + "split_first", SL + "split_first_mut")
def _(e, fn, args):
    r = as_slice(e, args[0])
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    return SOME(Agg(0, (elem_ref(e, r, ZERO), Ref(r.root, r.path, (r.fat[0] + 1, r.fat[1] - 1)))))


@model(SL + "split_last", SL + "split_last_mut")
def _(e, fn, args):
    r = as_slice(e, args[0])
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    return SOME(Agg(0, (elem_ref(e, r, r.fat[1] - 1), Ref(r.root, r.path, (r.fat[0], r.fat[1] - 1)))))


@model(SL + "windows")
def _(e, fn, args):
    return Agg("win", (as_slice(e, args[0]), args[1]))


@pattern(r"^<core::slice::iter::Windows<'a, T> as core::iter::traits::iterator::Iterator>::next$")
def _(e, fn, args):
    p = target(e, args[0])
    v = e.load(p.root, p.path)
    r, n = v.f
    if not e.ge0(r.fat[1] - n):
        return NONE()
    e.store(p.root, p.path, Agg("win", (Ref(r.root, r.path, (r.fat[0] + 1, r.fat[1] - 1)), n)))
    return SOME(Ref(r.root, r.path, (r.fat[0], n)))


@model(SL + "chunks")
def _(e, fn, args):
    return Agg("chk", (as_slice(e, args[0]), args[1]))


@pattern(r"^<core::slice::iter::Chunks<'a, T> as core::iter::traits::iterator::Iterator>::next$")
def _(e, fn, args):
    p = target(e, args[0])
    v = e.load(p.root, p.path)
    r, n = v.f
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    k = n if e.ge0(r.fat[1] - n) else r.fat[1]
    e.store(p.root, p.path, Agg("chk", (Ref(r.root, r.path, (r.fat[0] + k, r.fat[1] - k)), n)))
    return SOME(Ref(r.root, r.path, (r.fat[0], k)))


@model(SL + "split_at", SL + "split_at_mut")
def _(e, fn, args):
    r = as_slice(e, args[0])
    if not e.ge0(r.fat[1] - args[1]):
        raise Panic("split_at out of bounds")
    return Agg(0, (Ref(r.root, r.path, (r.fat[0], args[1])), Ref(r.root, r.path, (r.fat[0] + args[1], r.fat[1] - args[1]))))


@model(SL + "get", SL + "get_mut")
def _(e, fn, args):
    ity = [e.ty(a) for a in fn["args"]]
    t = ity[-1]
    r = as_slice(e, args[0])
    rg = range_of(e, t, args[1], r.fat[1])
    if rg is None:
        if not e.ge0(r.fat[1] - args[1] - 1):
            return NONE()
        return SOME(elem_ref(e, r, args[1]))
    a, b = rg
    if not e.ge0(b - a) or not e.ge0(r.fat[1] - b):
        return NONE()
    return SOME(Ref(r.root, r.path, (r.fat[0] + a, b - a)))


@model(SL + "get_unchecked", SL + "get_unchecked_mut")
def _(e, fn, args):
    ity = [e.ty(a) for a in fn["args"]]
    return index(e, fn, args, ity[-1])


@model(SL + "swap")
def _(e, fn, args):
    r = as_slice(e, args[0])
    i, j = args[1], args[2]
    if not e.ge0(r.fat[1] - i - 1) or not e.ge0(r.fat[1] - j - 1):
        raise Panic("swap index out of bounds")
    if e.eq0(i - j):
        return UNIT
    base = Ref(r.root, r.path)
    s = seq_at(e, base)
    s, a = e.elem(s, r.fat[0] + i)
    n0 = len(s.segs)
    s, b = e.elem(s, r.fat[0] + j)
    if b <= a:
        a += len(s.segs) - n0
    s, a = e.elem(s, r.fat[0] + i)
    segs = list(s.segs)
    segs[a], segs[b] = segs[b], segs[a]
    write_seq(e, base, Seq(segs))
    return UNIT


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::next$")
def _(e, fn, args):
    p = target(e, args[0])
    r = e.load(p.root, p.path)
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    e.store(p.root, p.path, Ref(r.root, r.path, (r.fat[0] + 1, r.fat[1] - 1)))
    return SOME(elem_ref(e, r, ZERO))


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked$")
def _(e, fn, args):
    p = target(e, args[0])
    return elem_ref(e, e.load(p.root, p.path), args[1])


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
def _(e, fn, args):
    p = target(e, args[0])
    r = e.load(p.root, p.path)
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    e.store(p.root, p.path, Ref(r.root, r.path, (r.fat[0], r.fat[1] - 1)))
    return SOME(elem_ref(e, r, r.fat[1] - 1))


@pattern(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::size_hint$")
def _(e, fn, args):
    p = target(e, args[0])
    r = e.load(p.root, p.path)
    return Agg(0, (r.fat[1], SOME(r.fat[1])))


@pattern(r"^<core::slice::iter::Iter(Mut)?<.*> as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def _(e, fn, args):
    p = target(e, args[0])
    return e.load(p.root, p.path).fat[1]


@model("core::slice::iter::Iter::<'a, T>::as_slice")
def _(e, fn, args):
    p = target(e, args[0])
    return e.load(p.root, p.path)


@pattern(r"^<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone$")
def _(e, fn, args):
    p = target(e, args[0])
    return e.load(p.root, p.path)


# ---------------------------------------------------------------- mem / num
@model("core::mem::replace")
def _(e, fn, args):
    r = target(e, args[0])
    v = e.load(r.root, r.path)
    e.store(r.root, r.path, args[1])
    return v


@model("core::mem::swap")
def _(e, fn, args):
    a, b = target(e, args[0]), target(e, args[1])
    x, y = e.load(a.root, a.path), e.load(b.root, b.path)
    e.store(a.root, a.path, y)
    e.store(b.root, b.path, x)
    return UNIT


@model("core::ptr::eq", "core::ptr::addr_eq")
def _(e, fn, args):
    return e.binop("Eq", args[0], args[1], None, None)


@model("core::intrinsics::cold_path", "core::intrinsics::assume")
def _(e, fn, args):
    return UNIT


@model("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::<T>::drop")
def _(e, fn, args):
    return UNIT


@model("core::mem::size_of", "core::mem::align_of", "core::intrinsics::size_of")
def _(e, fn, args):
    n = e.st.fresh()
    return n


@model("core::intrinsics::integer_min")
def _(e, fn, args):
    return args[0] if e.ge0(args[1] - args[0]) else args[1]


@model("core::intrinsics::integer_max")
def _(e, fn, args):
    return args[1] if e.ge0(args[1] - args[0]) else args[0]


NUM = r"^core::num::<impl (usize|u64|u32|u16|u8)>::"


@pattern(NUM + r"(wrapping|saturating|unchecked|checked|overflowing)_(add|sub)$|^core::intrinsics::saturating_(add|sub)$")
def _(e, fn, args):
    a, b = args
    w = re.search(r"impl (\w+)>", fn["path"])
    top = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1}.get(w.group(1)) if w else None
    how, op = fn["path"].split("::")[-1].split("_")
    if top:
        for x in args:
            e.st.add_con(const(top) - x)
        if not e.st.feasible():
            raise Prune()
    v = a + b if op == "add" else a - b
    ok = not top or e.ge0(const(top) - v) if op == "add" else e.ge0(v)
    if how == "checked":
        return SOME(v) if ok else NONE()
    if how == "saturating":
        return v if ok else const(top) if op == "add" else ZERO
    if ok:
        return Agg(0, (v, False)) if how == "overflowing" else v
    if top and how != "unchecked":
        v = v - (top + 1) if op == "add" else v + (top + 1)
        return Agg(0, (v, True)) if how == "overflowing" else v
    raise Unsupported("wrap-around arithmetic")


@pattern(r"^core::num::<impl usize>::checked_mul$")
def _(e, fn, args):
    a, b = args
    if a.is_const() or b.is_const():
        return SOME(b.scale(a.c) if a.is_const() else a.scale(b.c))
    e.st.lossy = True
    return SOME(e.st.fresh())


@pattern(r"^core::num::<impl usize>::(next_power_of_two|pow|isqrt|ilog2|count_ones|leading_zeros|trailing_zeros|div_ceil)$|^core::num::<impl usize>::saturating_mul$")
def _(e, fn, args):
    e.st.lossy = True
    return e.st.fresh()


@pattern(r"precondition_check$|^core::hint::(assert_unchecked|black_box)$")
def _(e, fn, args):
    return UNIT


# ---------------------------------------------------------------- in-place builders
# value: Agg(0, (reference to the vector, target part, source part))
B1 = "inplace_vec_builder::small_vec_builder::InPlaceSmallVecBuilder"
B2 = "inplace_vec_builder::vec_builder::InPlaceVecBuilder"


def bpaths(n):
    return (f"{B1}::<'a, A>::{n}", f"{B2}::<'a, T>::{n}")


@model(f"<{B1}<'a, A> as core::convert::From<&'a mut smallvec::SmallVec<A>>>::from",
       f"<{B2}<'a, T> as core::convert::From<&'a mut alloc::vec::Vec<T>>>::from")
def _(e, fn, args):
    r = target(e, args[0])
    s = seq_at(e, r)
    e.store(r.root, r.path, Term("moved"))
    return Agg("bl", (r, Seq(), Agg("it", (s,))))


def builder(e, a):
    r = target(e, a)
    v = e.load(r.root, r.path)
    if not (isinstance(v, Agg) and v.v == "bl"):
        raise Unsupported(f"builder {v}")
    return r, v


@model(*bpaths("source_slice"), *bpaths("source_slice_mut"))
def _(e, fn, args):
    r, v = builder(e, args[0])
    return Ref(r.root, r.path + (2, 0), (ZERO, v.f[2].f[0].length()))


@model(*bpaths("target_slice"))
def _(e, fn, args):
    r, v = builder(e, args[0])
    return Ref(r.root, r.path + (1,), (ZERO, v.f[1].length()))


@model(*bpaths("push"))
def _(e, fn, args):
    r, v = builder(e, args[0])
    e.store(r.root, r.path, Agg("bl", (v.f[0], Seq(v.f[1].segs + (Seg(args[1], ONE),)), v.f[2])))
    return UNIT


def consume(e, a, n, take):
    r, v = builder(e, a)
    src = v.f[2].f[0]
    if not e.ge0(src.length() - n):
        n = src.length()
    f, rest = e.take(src, n)
    tgt = Seq(v.f[1].segs + f.segs) if take else v.f[1]
    e.store(r.root, r.path, Agg("bl", (v.f[0], e.simp(tgt), Agg("it", (e.simp(rest),)))))
    return UNIT


@model(*bpaths("consume"))
def _(e, fn, args):
    return consume(e, args[0], args[1], args[2])


@model(*bpaths("take"))
def _(e, fn, args):
    return consume(e, args[0], args[1], True)


@model(*bpaths("skip"))
def _(e, fn, args):
    return consume(e, args[0], args[1], False)


@model(*bpaths("pop_front"))
def _(e, fn, args):
    r, v = builder(e, args[0])
    if e.is_empty(v.f[2].f[0]):
        return NONE()
    s, i = e.elem(v.f[2].f[0], ZERO)
    e.store(r.root, r.path, Agg("bl", (v.f[0], v.f[1], Agg("it", (Seq(s.segs[i + 1:]),)))))
    return SOME(s.segs[i].t)


# ---------------------------------------------------------------- drops
def drop_interesting(prog, ty, seen=None):
    c = prog.__dict__.setdefault("drop_cache", {})
    if ty in c:
        return c[ty]
    seen = seen or set()
    if ty in seen:
        return False
    seen.add(ty)
    t = prog.types[ty]
    r = False
    if t["k"] == "adt":
        if t["path"] in (B1, B2, GUARD):
            r = True
        elif t["crate"] in ("vec_collections", "core", "harness") and t["path"] not in SKIP_DROP:
            if t["drop"] is not None and t["drop"] >= 0 and t["crate"] == "vec_collections":
                r = True
            for v in t["vs"]:
                for n, ft in v["f"]:
                    r = r or drop_interesting(prog, ft, seen)
    elif t["k"] in ("tuple", "closure"):
        for ft in t["ts"]:
            r = r or drop_interesting(prog, ft, seen)
    c[ty] = r
    return r


GUARD = "lock_api::mutex::MutexGuard"
SKIP_DROP = {"core::marker::PhantomData", "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit"}


def drop_model(e, root, path, t, v):
    if t["k"] == "adt" and t["path"] in (B1, B2):
        if not isinstance(v, Agg):
            return True
        r = v.f[0]
        e.store(r.root, r.path, v.f[1])
        e.store(root, path, Term("uninit"))
        return True
    if t["k"] == "adt" and t["path"] == GUARD:
        release(e, v)
        e.store(root, path, Term("uninit"))
        return True
    if t["k"] == "adt" and t["path"] in SKIP_DROP:
        return True
    return False


# ---------------------------------------------------------------- tree maps (sorted sequences of pairs)
@model(H + "bt_slice", H + "bt_slice_mut", H + "abt_slice")
def _(e, fn, args):
    return as_slice(e, args[0])


@model(H + "bt_vec")
def _(e, fn, args):
    return args[0]


BT = "alloc::collections::btree::map::BTreeMap::<K, V"


@model(BT + ">::new", "<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default")
def _(e, fn, args):
    return Seq()


@model(BT + ", A>::iter", BT + ", A>::iter_mut", "rkyv::collections::btree_map::ArchivedBTreeMap::<K, V>::iter",
       "<&'a alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut alloc::collections::btree::map::BTreeMap<K, V, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a rkyv::collections::btree_map::ArchivedBTreeMap<K, V> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(e, fn, args):
    return as_slice(e, args[0])


@model(BT + ", A>::keys", BT + ", A>::values", BT + ", A>::values_mut", "rkyv::collections::btree_map::ArchivedBTreeMap::<K, V>::keys",
       "rkyv::collections::btree_map::ArchivedBTreeMap::<K, V>::values")
def _(e, fn, args):
    return as_slice(e, args[0])


@model(BT + ", A>::len", "rkyv::collections::btree_map::ArchivedBTreeMap::<K, V>::len")
def _(e, fn, args):
    return seq_at(e, target(e, args[0])).length()


@model(BT + ", A>::is_empty", "rkyv::collections::btree_map::ArchivedBTreeMap::<K, V>::is_empty")
def _(e, fn, args):
    return e.is_empty(seq_at(e, target(e, args[0])))


@model(BT + ", A>::clear")
def _(e, fn, args):
    write_seq(e, target(e, args[0]), Seq())
    return UNIT


@pattern(r"^<alloc::collections::btree::map::BTreeMap<K, V(, A)?> as core::clone::Clone>::clone$")
def _(e, fn, args):
    return seq_at(e, target(e, args[0]))


BTI = r"^<(alloc::collections::btree::map|rkyv::collections::btree_map)::(Iter|IterMut|Keys|Values|ValuesMut)<'(a|_), K, V> as "


@pattern(BTI + r"core::iter::traits::(iterator::Iterator>::next|double_ended::DoubleEndedIterator>::next_back)$")
def _(e, fn, args):
    p = target(e, args[0])
    r = e.load(p.root, p.path)
    if not e.ge0(r.fat[1] - 1):
        return NONE()
    back = fn["path"].endswith("_back")
    e.store(p.root, p.path, Ref(r.root, r.path, (r.fat[0] if back else r.fat[0] + 1, r.fat[1] - 1)))
    x = elem_ref(e, r, r.fat[1] - 1 if back else ZERO)
    k, v = Ref(x.root, x.path + (0,)), Ref(x.root, x.path + (1,))
    n = fn["path"]
    return SOME(k if "::Keys<" in n else v if "::Values" in n else Agg(0, (k, v)))


@pattern(BTI + r"core::iter::traits::iterator::Iterator>::size_hint$")
def _(e, fn, args):
    p = target(e, args[0])
    r = e.load(p.root, p.path)
    return Agg(0, (r.fat[1], SOME(r.fat[1])))


@pattern(BTI + r"core::iter::traits::exact_size::ExactSizeIterator>::len$")
def _(e, fn, args):
    p = target(e, args[0])
    return e.load(p.root, p.path).fat[1]


# ---------------------------------------------------------------- Arc: a value that is copied when it is written while shared
@model("alloc::rcs::arc::Arc::<T>::new")
def _(e, fn, args):
    return Agg("arc", (args[0],))


@model("<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone")
def _(e, fn, args):
    r = last_ref(e, args[0])
    return e.load(r.root, r.path) if isinstance(r, Ref) else r


@model("<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref",
       "alloc::rcs::arc::Arc::<T, A>::make_mut")
def _(e, fn, args):
    r = last_ref(e, args[0])
    return Ref(r.root, r.path + (0,))


def arc_inner(e, a):
    return a.f[0] if isinstance(a, Agg) and a.v == "arc" else None


@model("alloc::rcs::arc::Arc::<T, A>::get_mut", "alloc::rcs::arc::Arc::<T>::get_mut")
def _(e, fn, args):
    # somebody else may hold the same value
    r = last_ref(e, args[0])
    g, k = e.st.ghost, f"arc:{r.root}{r.path}"
    if k in g and not g[k].c:
        raise Unsupported("whether an Arc is shared after it has been replaced")
    a = k in g or e.choose_of([True, False])
    g[k] = const(1 if a else 0)
    return SOME(Ref(r.root, r.path + (0,))) if a else NONE()


@model("alloc::rcs::arc::Arc::<T, A>::try_unwrap", "alloc::rcs::arc::Arc::<T, A>::into_inner", "alloc::rcs::arc::Arc::<T, A>::unwrap_or_clone")
def _(e, fn, args):
    v = arc_inner(e, args[0])
    if v is None:
        raise Unsupported(f"Arc {args[0]}")
    how = fn["path"].split("::")[-1]
    if how == "unwrap_or_clone":
        return v
    if e.choose_of([True, False]):
        return Agg(0, (v,)) if how == "try_unwrap" else SOME(v)
    return Agg(1, (args[0],)) if how == "try_unwrap" else NONE()


@model("alloc::rcs::arc::Arc::<T, A>::strong_count", "alloc::rcs::arc::Arc::<T, A>::weak_count")
def _(e, fn, args):
    return e.st.fresh() + (1 if "strong" in fn["path"] else 0)


@model("alloc::rcs::arc::Arc::<T, A>::ptr_eq")
def _(e, fn, args):
    a, b = last_ref(e, args[0]), last_ref(e, args[1])
    if a == b:
        return True
    if e.choose_of([False, True]):
        e.st.lossy = True
        return True
    return False


# ---------------------------------------------------------------- locks
# A cell that other threads can reach may be read or changed only while its lock is held, or read after this thread has seen under
# the lock that it is loaded.  The other threads do one thing to it: load it, completely, while this thread does not hold the lock.
LOCK = "lock_api::mutex::Mutex::<R, T>::"


def access(e, root, path, write):
    """root, path is at or below the state of the cell"""
    g = e.st.ghost
    cell = g["cell"]
    if cell.f[1] in g.get("held", ()):
        return
    if write:
        raise Panic("the state of a shared node is changed without holding its lock")
    if not g.get("seen"):
        raise Panic("the state of a shared node is read without holding its lock, before it is known to be loaded")


@model(LOCK + "lock", LOCK + "try_lock")
def _(e, fn, args):
    r = target(e, args[0])
    g = e.st.ghost
    held = g.get("held", ())
    tried = fn["path"].endswith("try_lock")
    if r in held:
        if tried:
            return NONE()
        raise Panic("locks a mutex that it already holds")
    if tried and "cell" in g and e.choice(2):
        return NONE()
    if "cell" in g:
        at, lock, loaded, want = g["cell"].f
        if lock != r:
            raise Unsupported("lock of something else than the node")
    g["held"] = held + (r,)
    if "cell" in g:
        v = e.load(at.root, at.path)
        if v.v != loaded.c and e.choice(2):
            # another thread has loaded it in the meantime
            v = Agg(loaded.c, (want,))
            e.store(at.root, at.path, v)
        g["acquired"] = v
    guard = Agg(0, (r, UNIT))
    return SOME(guard) if tried else guard


def release(e, guard):
    g = e.st.ghost
    if not isinstance(guard, Agg):
        raise Unsupported(f"guard {guard}")
    r = guard.f[0]
    if "cell" in g and g["cell"].f[1] == r:
        at, lock, loaded, want = g["cell"].f
        v, old = e.load(at.root, at.path), g["acquired"]
        if not isinstance(v, Agg) or v.v not in (0, 1):
            raise Panic(f"the lock is released while the state of the node is {v}")
        if old.v == loaded.c and v != old:
            raise Panic("a loaded node is changed while other threads may read its children")
        if v.v == loaded.c:
            g["seen"] = True
            if old.v != loaded.c:
                g["made"] = True
    g["held"] = tuple(x for x in g.get("held", ()) if x != r)


@model(LOCK + "new", "<lock_api::mutex::Mutex<R, T> as core::default::Default>::default")
def _(e, fn, args):
    return Agg(0, (Term("raw"), Agg(0, (args[0] if args else UNIT,))))


@model("rkyv::option::ArchivedOption::<T>::as_ref", "rkyv::option::ArchivedOption::<T>::as_mut")
def _(e, fn, args):
    r = target(e, args[0])
    v = e.load(r.root, r.path)
    if not isinstance(v, Agg) or v.v not in (0, 1):
        raise Unsupported(f"option {v}")
    return SOME(Ref(r.root, r.path + (0,))) if v.v else NONE()


@model("rkyv::option::ArchivedOption::<T>::is_some", "rkyv::option::ArchivedOption::<T>::is_none")
def _(e, fn, args):
    v = deref_all(e, args[0])
    if not isinstance(v, Agg) or v.v not in (0, 1):
        raise Unsupported(f"option {v}")
    return (v.v == 1) == fn["path"].endswith("some")


@model("<rkyv::vec::ArchivedVec<T> as core::convert::AsRef<[T]>>::as_ref")
def _(e, fn, args):
    return as_slice(e, args[0])


@model("<rkyv::rc::ArchivedRc<T, F> as core::convert::AsRef<T>>::as_ref", "rkyv::rc::ArchivedRc::<T, F>::get")
def _(e, fn, args):
    r = target(e, args[0])
    if not isinstance(e.load(r.root, r.path), Agg):
        raise Unsupported("ArchivedRc")
    return Ref(r.root, r.path + (0,))


@model("core::slice::<impl core::default::Default for &[T]>::default")
def _(e, fn, args):
    return Ref(e.alloc(Seq()), (), (ZERO, ZERO))


@model(LOCK + "is_locked")
def _(e, fn, args):
    return bool(e.choice(2))


@model("core::cell::UnsafeCell::<T>::get", "core::cell::UnsafeCell::<T>::get_mut")
def _(e, fn, args):
    r = target(e, args[0])
    return Ref(r.root, r.path + (0,))


@model("core::mem::drop")
def _(e, fn, args):
    root = e.alloc(args[0])
    e.drop_at(root.root if isinstance(root, Ref) else root, (), fn["args"][0])
    return UNIT


# ---------------------------------------------------------------- validation of archives
ARC = r"(rkyv::vec::ArchivedVec<T>|rkyv::rc::ArchivedRc<T, F>)"


def place(r):
    """where a part of an archive lies: the parts of a path up to the first element of a sequence"""
    out = []
    for p in r.path:
        out.append("x" if isinstance(p, tuple) else p)
    return r.root, tuple(out)


def check_key(root, path):
    return "checked:" + repr((root, path))


def validated(e, r):
    root, path = place(r)
    return any(check_key(root, path[:i]) in e.st.ghost for i in range(len(path) + 1))


@pattern(r"^.*<impl bytecheck::CheckBytes<\w+> for rkyv::(vec::ArchivedVec<T>|option::ArchivedOption<T>|rc::ArchivedRc<T, F>)>::check_bytes$")
def _(e, fn, args):
    r = target(e, args[0])
    r = Ref(r.root, r.path)
    if "archive" not in e.st.ghost:
        raise Unsupported("validation of an unknown value")
    if validated(e, r) or not e.choice(2):
        e.st.ghost[check_key(*place(r))] = ONE
        return Agg(0, (r,))
    e.st.ghost["invalid"] = ONE
    return Agg(1, (ANY,))


def read_archive(e, r):
    r = target(e, r)
    if "archive" in e.st.ghost and not validated(e, r):
        raise Panic("a part of the archive is read before it has been validated")
    v = e.load(r.root, r.path)
    while isinstance(v, Agg) and v.v in (0, "arc") and len(v.f) == 1:
        r, v = Ref(r.root, r.path + (0,)), v.f[0]
    return r


@pattern(r"^<" + ARC + r" as core::ops::deref::Deref>::deref$")
def _(e, fn, args):
    r = read_archive(e, args[0])
    return r if "ArchivedRc" in fn["path"] else as_slice(e, r)


@model("rkyv::vec::ArchivedVec::<T>::as_slice")
def _(e, fn, args):
    return as_slice(e, read_archive(e, args[0]))


@model("rkyv::vec::ArchivedVec::<T>::is_empty")
def _(e, fn, args):
    return not e.ge0(as_slice(e, read_archive(e, args[0])).fat[1] - 1)


@model("rkyv::vec::ArchivedVec::<T>::len")
def _(e, fn, args):
    return as_slice(e, read_archive(e, args[0])).fat[1]


@pattern(r"^<rkyv::vec::ArchivedVec<T> as core::ops::index::Index<I>>::index$")
def _(e, fn, args):
    args = [read_archive(e, args[0])] + list(args[1:])
    for a in fn["args"]:
        t = e.ty(a)
        if t["k"] == "uint" or (t["k"] == "adt" and t["path"].startswith("core::ops::range")):
            return index(e, fn, args, t)
    raise Unsupported(f"index type in {fn['name']}")


@pattern(r"^(<.* as (alloc::string::SpecToString|alloc::string::ToString)>::(spec_)?to_string|<alloc::string::String as core::convert::From<&('\w+ )?str>>::from|"
         r"alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned)$")
def _(e, fn, args):
    return ANY


def archive_order(e, args):
    """order of two keys of an archive whose keys are known to ascend"""
    if "ascending" not in e.st.ghost:
        return None
    r = [last_ref(e, a) for a in args]
    if any(x is None for x in r) or r[0].root != r[1].root:
        return None
    for p, q in zip(r[0].path, r[1].path):
        if p == q:
            continue
        if not (isinstance(p, tuple) and isinstance(q, tuple)):
            return None
        d = p[1] - q[1]
        if e.ent_eq(d):
            continue
        for o, x in ((1, d - 1), (-1, ZERO - d - 1)):
            if entails(e.st.cons, x):
                return o
        return None
    return None
