"""Obligations for VecMap and TotalVecMap."""
from ..specs import *
from .sets import pres, CLASSES, exact_copy, empty_seq, fail_len, any_arg, phase

VA, VB, DA, DB = Term("va"), Term("vb"), Term("da"), Term("db")
X = Key("=")


def opt(v):
    return SOME(v) if v is not None else NONE()


# ------------------------------------------------------------------ joins
# kind -> (is x visited, argument list of the callback)
def outer_args(pa, pb):
    if pa and pb:
        return (Agg(2, (X, VA, VB)),)
    return (Agg(0, (X, VA)),) if pa else (Agg(1, (X, VB)),)


JOINS = {
    "outer": (lambda a, b: a or b, outer_args),
    "left": (lambda a, b: a, lambda a, b: (X, VA, opt(VB if b else None))),
    "right": (lambda a, b: b, lambda a, b: (X, opt(VA if a else None), VB)),
    "inner": (lambda a, b: a and b, lambda a, b: (X, VA, VB)),
}


def join(root, fname, kind, mode):
    visited, args = JOINS[kind]
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                A, Bm = b.map("a", pa, VA), b.map("b", pb, VB)
                b.ref(A, "a" if mode == "mut" else None)
                b.ref(Bm)

            def check(e, b, v, pa=pa, pb=pb):
                res = final(e, "a") if mode == "mut" else v
                if not visited(pa, pb):
                    check_shape(e, res, False)
                    check_calls(e, [])
                    return
                w = args(pa, pb)
                f = fact(e, fname, *w)
                if f is None:
                    check_shape(e, res, None)
                    raise Fail("calls", f"the callback was not applied to x: {calls(e)}")
                check_calls(e, [(fname,) + w])
                check_shape(e, res, bool(f), Term(fname, w) if f else None)
            out.append(Ob(root, pres(pa, pb), build, check))
    return out


def joins_pure():
    out = []
    for k in JOINS:
        out += join(f"map_{k}_join", f"f_{k}", k, "pure")
    return out


def joins_inplace():
    out = []
    for k in JOINS:
        out += join(f"map_{k}_join_with", f"f_{k}_w", k, "mut")
    return out


def combine():
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                b.ref(b.map("a", pa, VA), "a")
                b.arg(b.map("b", pb, VB))

            def c_comb(e, b, v, pa=pa, pb=pb):
                pl = Term("f_combine", (VA, VB)) if pa and pb else VA if pa else VB
                check_shape(e, final(e, "a"), pa or pb, pl)
                check_calls(e, [("f_combine", VA, VB)] if pa and pb else [])

            def c_merge(e, b, v, pa=pa, pb=pb):
                check_shape(e, final(e, "a"), pa or pb, VB if pb else VA)
            out.append(Ob("map_combine_with", pres(pa, pb), build, c_comb))
            out.append(Ob("map_merge_with", pres(pa, pb), build, c_merge))
    return out


# ------------------------------------------------------------------ points
def value_ref(e, v, want, what):
    """v is Some(reference to x's value) / None"""
    if not isinstance(v, Agg) or v.v not in (0, 1):
        raise Fail("value", f"{what} is {v}")
    if want is None:
        if v.v != 0:
            raise Fail("value", f"{what} is {v}, expected None")
        return
    if v.v != 1:
        raise Fail("value", f"{what} is None although x is mapped")
    w = v.f[0]
    if isinstance(w, Ref):
        w = models.deref_all(e, w)
    if not same_val(e, w, want):
        raise Fail("value", f"{what} yields {w}, expected {want}")


def points():
    out = []
    for p in (False, True):
        for d, c in CLASSES:
            def b_get(b, p=p, c=c):
                b.ref(b.map("a", p, VA), "a")
                b.ref(b.key(c))

            def b_ins(b, p=p, c=c):
                b.ref(b.map("a", p, VA), "a")
                b.arg(b.key(c))
                b.arg(b.val(c, "vn"))

            def c_get(e, b, v, p=p, c=c):
                if c == "=":
                    value_ref(e, v, VA if p else None, "get()")

            def c_gm(e, b, v, p=p, c=c):
                if c == "=":
                    value_ref(e, v, VA if p else None, "get_mut()")
                    if p:
                        # the reference must point into the map: writing through it changes x's value
                        r = models.target(e, v.f[0])
                        e.store(r.root, r.path, Term("vw"))
                        check_shape(e, final(e, "a"), True, Term("vw"))
                else:
                    check_shape(e, final(e, "a"), p, VA if p else None)

            def c_ins(e, b, v, p=p, c=c):
                if c == "=":
                    value_ref(e, v, VA if p else None, "insert()")
                    check_shape(e, final(e, "a"), True, Term("vn"))
                else:
                    check_shape(e, final(e, "a"), p, VA if p else None)
            out.append(Ob("map_get", f"{pres(p)}, {d}", b_get, c_get))
            out.append(Ob("map_get_mut", f"{pres(p)}, {d}", b_get, c_gm))
            out.append(Ob("map_insert", f"{pres(p)}, {d}", b_ins, c_ins))

        def b_ret(b, p=p):
            b.ref(b.map("a", p, VA), "a")

        def c_ret(e, b, v, p=p):
            kv = Agg(0, (X, VA))
            keep = fact(e, "pred_kv", kv)
            if p and keep is None:
                raise Fail("calls", "retain did not ask the predicate about x")
            check_shape(e, final(e, "a"), bool(p and keep), VA if p and keep else None)
            check_calls(e, [("pred_kv", kv)] if p else [])
        out.append(Ob("map_retain", pres(p), b_ret, c_ret))

        def c_mv(e, b, v, p=p):
            check_shape(e, v, p, Term("f_map", (VA,)) if p else None)
            check_calls(e, [("f_map", VA)] if p else [])
        out.append(Ob("map_map_values", pres(p), (lambda p: lambda b: b.arg(b.map("a", p, VA)))(p), c_mv))
        out.append(Ob("map_len", pres(p), b_ret,
                      lambda e, b, v: None if e.ent_eq(v - unwrap(final(e, "a")).length()) else fail_len(v)))
        for r in ("map_is_empty", "map_t_is_empty"):
            out.append(Ob(r, pres(p), b_ret, (lambda p: lambda e, b, v: expect(v, False) if p else None)(p)))
    for r in ("map_is_empty", "map_t_is_empty"):
        out.append(Ob(r, "a={}", lambda b: b.ref(wrap(Seq())), lambda e, b, v: expect(v, True)))
    return out


def conversions():
    out = []
    for r in ("map_clone", "map_iter", "map_ref_into_iter", "map_as_ref", "map_as_slice"):
        out += exact_copy(r, "ref", tmpl="map")
    for r in ("map_into_inner", "map_into_smallvec", "map_into_iter"):
        out += exact_copy(r, "val", tmpl="map")
    out += exact_copy("map_clone_from", "from", tmpl="map")
    out += exact_copy("map_from_btree", "val", tmpl="mapseq")
    out.append(Ob("map_single", "k=x", lambda b: b.arg(Agg(0, (X, VA))), lambda e, b, v: check_shape(e, v, True, VA)))
    for d, c in (("k<x", "<"), ("k>x", ">")):
        out.append(Ob("map_single", d, (lambda c: lambda b: b.arg(Agg(0, (b.key(c), b.val(c, "")))))(c),
                      lambda e, b, v: check_shape(e, v, False)))
    for r in ("map_empty", "map_default"):
        out.append(Ob(r, "", lambda b: None, lambda e, b, v: None if empty_seq(e, v) else fail_len(v)))
    return out


# ------------------------------------------------------------------ TotalVecMap
def tmap_parts(v):
    if not (isinstance(v, Agg) and len(v.f) == 2):
        raise Fail("value", f"not a total map: {v}")
    return v.f


def check_tmap(e, v, default, value):
    """pointwise meaning and canonical form: value(x) = `value`, other keys `default`,
    nothing equal to the default is stored"""
    el, d = tmap_parts(v)
    if not same_val(e, d, default):
        raise Fail("value", f"default value is {d}, expected {default}")
    eq = same_val(e, value, default)
    if not eq and value != default:
        if not diff_val(e, value, default):
            # the code never compared them: storing is right only when they differ
            present = check_shape(e, el, None, None)
            if present:
                raise Fail("member", f"x is stored with {value} without comparing it to the default {default}")
            raise Fail("member", f"x is not stored although {value} may differ from the default {default}")
    check_shape(e, el, not eq, None if eq else value)


def tm(b, name, p, payload, d):
    return b.tmap(name, p, payload, d)


def tmap_binary(root, fn, mode):
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                A, Bm = b.tmap("a", pa, VA, DA), b.tmap("b", pb, VB, DB)
                for m in (A, Bm):
                    b.ref(m) if mode == "ref" else b.arg(m)

            def check(e, b, v, pa=pa, pb=pb):
                d = fn(e, DA, DB)
                t = fn(e, VA if pa else DA, VB if pb else DB)
                check_tmap(e, v, d, t)
            out.append(Ob(root, pres(pa, pb), build, check))
    return out


def extreme(sign):
    def f(e, a, b):
        """max / min of two values as far as the recorded comparisons tell"""
        if same_val(e, a, b):
            return a
        if not le_val(e, a, b) and not le_val(e, b, a):
            raise Fail("value", f"{a} and {b} were not compared")
        less = le_val(e, a, b)
        return (b if less else a) if sign > 0 else (a if less else b)
    return f


def app(op):
    return lambda e, a, b: Term(op, (a, b))


def tmap_ops():
    out = tmap_binary("tmap_combine_ref", app("f_combine_ref"), "ref")
    out += tmap_binary("tmap_supremum", extreme(1), "ref")
    out += tmap_binary("tmap_infimum", extreme(-1), "ref")
    for n in ("add", "sub", "mul", "div"):
        out += tmap_binary("tmap_" + n, app(n), "val")
    for p in (False, True):
        out.append(Ob("tmap_neg", pres(p), (lambda p: lambda b: b.arg(b.tmap("a", p, VA, DA)))(p),
                      (lambda p: lambda e, b, v: check_tmap(e, v, Term("neg", (DA,)), Term("neg", (VA if p else DA,))))(p)))
        out.append(Ob("tmap_map_values", pres(p), (lambda p: lambda b: b.ref(b.tmap("a", p, VA, DA)))(p),
                      (lambda p: lambda e, b, v: check_tmap(e, v, Term("f_map_ref", (DA,)), Term("f_map_ref", (VA if p else DA,))))(p)))
    return out


def tmap_points():
    out = []
    C = lambda n: Term("c_" + n)
    for p in (False, True):
        def b_new(b, p=p):
            b.arg(b.map("a", p, VA))
            b.arg(DA)
        out.append(Ob("tmap_new", pres(p), b_new, (lambda p: lambda e, b, v: check_tmap(e, v, DA, VA if p else DA))(p)))
        for d, c in CLASSES:
            def b_idx(b, p=p, c=c):
                b.ref(b.tmap("a", p, VA, DA))
                b.ref(b.key(c))

            def c_idx(e, b, v, p=p, c=c):
                if c == "=":
                    w = models.deref_all(e, v)
                    if not same_val(e, w, VA if p else DA):
                        raise Fail("value", f"index yields {w}")
            out.append(Ob("tmap_index", f"{pres(p)}, {d}", b_idx, c_idx))

        def b_ref(b, p=p):
            b.ref(b.tmap("a", p, VA, DA), "a")
        out.append(Ob("tmap_clone", pres(p), b_ref, (lambda p: lambda e, b, v: check_tmap(e, v, DA, VA if p else DA))(p)))
        out.append(Ob("tmap_clone_from", pres(p), (lambda p: lambda b: (b.ref(b.tmap("d", not p, Term("vd"), Term("dd")), "d"), b.ref(b.tmap("a", p, VA, DA))))(p),
                      (lambda p: lambda e, b, v: check_tmap(e, final(e, "d"), DA, VA if p else DA))(p)))
        out.append(Ob("tmap_non_default", pres(p), b_ref,
                      (lambda p: lambda e, b, v: check_shape(e, models.deref_all(e, v), p, VA if p else None))(p)))
        for r, n in (("tmap_is_zero", "zero"), ("tmap_is_one", "one")):
            def c_is(e, b, v, p=p, n=n):
                # x's value must be the constant when the answer is yes; with no stored mapping and an
                # equal default the answer must be yes
                if v not in (True, False):
                    raise Fail("value", f"{n} test is {v}")
                if v and not same_val(e, DA, C(n)):
                    raise Fail("value", f"answers yes without the default being {n}")
                if v and p:
                    raise Fail("value", f"answers yes although a stored mapping differs from the default")
            out.append(Ob(r, pres(p), b_ref, c_is))
    for r, n in (("tmap_is_zero", "zero"), ("tmap_is_one", "one")):
        def c_e(e, b, v, n=n):
            expect(v, same_val(e, DA, C(n)), r)
        out.append(Ob(r, "no mappings", lambda b: b.ref(Agg(0, (wrap(Seq()), DA))), c_e))
    for r in ("tmap_constant", "tmap_from"):
        out.append(Ob(r, "", lambda b: b.arg(DA), lambda e, b, v: check_tmap(e, v, DA, DA)))
    for r, n in (("tmap_zero", "zero"), ("tmap_one", "one"), ("tmap_min", "min_value"), ("tmap_max", "max_value"), ("tmap_default", "default")):
        out.append(Ob(r, "", lambda b: None, (lambda n: lambda e, b, v: check_tmap(e, v, C(n), C(n)))(n)))
    return out


# ------------------------------------------------------------------ arbitrary input
def from_any():
    def last(e):
        return e.st.ghost.get("lasteq", None)

    def c_from(e, b, v):
        p = phase(e) != "none"
        check_shape(e, v, p, last(e) if p else None)

    def c_ext(p):
        def f(e, b, v):
            q = phase(e) != "none"
            check_shape(e, final(e, "a"), p or q, last(e) if q else VA if p else None)
        return f
    out = [Ob("map_from_iter", "any input", any_arg, c_from)]
    for p in (False, True):
        def build(b, p=p):
            b.ref(b.map("a", p, VA), "a")
            any_arg(b)
        out.append(Ob("map_extend", f"any input, {pres(p)}", build, c_ext(p)))
    for o in out:
        o.hard = 20
    return out
