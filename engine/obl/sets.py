"""Obligations for VecSet and TotalVecSet."""
import operator
from ..specs import *

BOOL = {
    "and": lambda a, b: a and b,
    "or": lambda a, b: a or b,
    "xor": lambda a, b: a != b,
    "sub": lambda a, b: a and not b,
}
NAMES = {"and": "intersection", "or": "union", "xor": "symmetric_difference", "sub": "difference"}


def pres(*ps):
    return ", ".join(f"x{'∈' if p else '∉'}{n}" for n, p in zip("abc", ps))


def binary(root, op, mode):
    """mode: pure | mut_val | mut_ref | bool"""
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                A, Bs = b.set("a", pa), b.set("b", pb)
                b.ref(A, "a" if mode.startswith("mut") else None)
                if mode == "mut_val":
                    b.arg(Bs)
                else:
                    b.ref(Bs)

            def check(e, b, v, pa=pa, pb=pb):
                want = op(pa, pb)
                check_shape(e, v if mode == "pure" else final(e, "a"), want)
            out.append(Ob(root, pres(pa, pb), build, check))
    return out


def algebra_pure():
    out = []
    for n, f in BOOL.items():
        out += binary("set_" + n, f, "pure")
        out += binary("set_" + NAMES[n], f, "pure")
        out += binary("set_t_" + NAMES[n], f, "pure")
    return out


def algebra_inplace():
    out = []
    for n, f in BOOL.items():
        out += binary(f"set_{n}_assign", f, "mut_val")
        out += binary(f"set_{n}_assign_ref", f, "mut_ref")
    for n, m in (("and", "intersection_with"), ("or", "union_with"), ("xor", "xor_with"), ("sub", "difference_with")):
        out += binary("set_" + m, BOOL[n], "mut_ref")
    return out


def empty_seq(e, v):
    return all(e.ent_eq(s.n) for s in unwrap(v).segs)


# A predicate over two sets: `bad(pa, pb)` = membership of x that contradicts it.  False must be
# justified: in the abstract state of a `false` return some compared element is such a witness;
# decided by `witness` on the tracked key when it is the only element of both sets.
def predicate(root, bad, tight):
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                b.ref(b.set("a", pa))
                b.ref(b.set("b", pb))

            def check(e, b, v, pa=pa, pb=pb):
                if bad(pa, pb) and v is not False:
                    raise Fail("value", f"{root} returned {v} although x is a counterexample")
                if v not in (True, False):
                    raise Fail("value", f"{root} returned {v}")
            out.append(Ob(root, pres(pa, pb), build, check))
    # completeness: sets whose elements all agree with the predicate
    for c, (mk) in tight.items():
        def build(b, mk=mk):
            A, Bs = mk(b)
            b.ref(A)
            b.ref(Bs)

        def check(e, b, v):
            if v is not True:
                raise Fail("value", f"{root} returned {v} although no element contradicts it")
        out.append(Ob(root, c, build, check))
    return out


def one_sided(b, name, c, n=None):
    """a set whose elements are all of class c"""
    st = b.st
    n = n or st.fresh()
    tok = None
    if b.exact:
        st.nid += 1
        st.chains[name] = (("p", st.nid - 1),)
        tok = (name, st.nid - 1)
    return wrap(Seq([Seg(Key(c), n, tok)]))


def only_x(b):
    return wrap(Seq([Seg(Key("="), ONE)]))


def predicates():
    out = []
    empty = lambda b: wrap(Seq())
    out += predicate("set_is_subset", lambda a, b: a and not b, {
        "a={}": lambda b: (empty(b), b.set("b", True)),
        "a={x}, x∈b": lambda b: (only_x(b), b.set("b", True)),
        "a={x}=b": lambda b: (only_x(b), only_x(b))})
    out += predicate("set_is_superset", lambda a, b: b and not a, {
        "b={}": lambda b: (b.set("a", True), empty(b)),
        "b={x}, x∈a": lambda b: (b.set("a", True), only_x(b))})
    out += predicate("set_is_disjoint", lambda a, b: a and b, {
        "a={}": lambda b: (empty(b), b.set("b", True)),
        "b={}": lambda b: (b.set("a", True), empty(b)),
        "a<x<b": lambda b: (one_sided(b, "a", "<"), one_sided(b, "b", ">")),
        "b<x<a": lambda b: (one_sided(b, "a", ">"), one_sided(b, "b", "<")),
        "a={x}, x∉b": lambda b: (only_x(b), b.set("b", False)),
        "b={x}, x∉a": lambda b: (b.set("a", False), only_x(b))})
    for r, w in (("set_is_empty", True), ("set_t_is_empty", True)):
        out += unary_value(r, lambda p, n: (False if p else None))
        out.append(Ob(r, "a={}", lambda b: b.ref(wrap(Seq())), lambda e, b, v: expect(v, True)))
    out += [Ob("set_len", pres(p), (lambda p: lambda b: b.ref(b.set("a", p), "a"))(p),
               lambda e, b, v: None if e.ent_eq(v - unwrap(final(e, "a")).length()) else fail_len(v)) for p in (False, True)]
    return out


def fail_len(v):
    raise Fail("value", f"len() is {v}")


def unary_value(root, want):
    out = []
    for p in (False, True):
        def build(b, p=p):
            b.ref(b.set("a", p))

        def check(e, b, v, p=p):
            w = want(p, None)
            if w is not None:
                expect(v, w)
        out.append(Ob(root, pres(p), build, check))
    return out


CLASSES = (("k<x", "<"), ("k=x", "="), ("k>x", ">"))


def points():
    out = []
    for p in (False, True):
        for d, c in CLASSES:
            def b_ins(b, p=p, c=c):
                b.ref(b.set("a", p), "a")
                b.arg(b.key(c))

            def b_ref(b, p=p, c=c):
                b.ref(b.set("a", p), "a")
                b.ref(b.key(c))

            def c_ins(e, b, v, p=p, c=c):
                check_shape(e, final(e, "a"), p or c == "=")
                if c == "=":
                    expect(v, not p, "insert()")

            def c_rem(e, b, v, p=p, c=c):
                check_shape(e, final(e, "a"), p and c != "=")
                if c == "=":
                    expect(v, p, "remove()")

            def c_con(e, b, v, p=p, c=c):
                if c == "=":
                    expect(v, p, "contains()")
            out.append(Ob("set_insert", f"{pres(p)}, {d}", b_ins, c_ins))
            out.append(Ob("set_remove", f"{pres(p)}, {d}", b_ref, c_rem))
            out.append(Ob("set_contains", f"{pres(p)}, {d}", b_ref, c_con))

        def c_ret(e, b, v, p=p):
            keep = fact(e, "pred_k", Key("="))
            if p and keep is None:
                raise Fail("calls", "retain did not ask the predicate about x")
            check_shape(e, final(e, "a"), bool(p and keep))
            check_calls(e, [("pred_k", Key("="))] if p else [])
        out.append(Ob("set_retain", pres(p), (lambda p: lambda b: b.ref(b.set("a", p), "a"))(p), c_ret))
    return out


def exact_copy(root, by, refs=False, tmpl="set", payload=None):
    """the result holds exactly the elements of the argument, in order"""
    out = []
    for p in (False, True):
        def build(b, p=p):
            if by == "from":
                # onto a collection that holds something else
                b.ref(b.set("d", not p) if tmpl == "set" else b.map("d", not p, Term("vd")), "d")
            v = b.set("a", p) if tmpl == "set" else b.map("a", p, Term("va")) if tmpl == "map" else \
                b.seq(set_t, "a", p) if tmpl == "seq" else b.seq(map_t, "a", p, Term("va"))
            b.n1 = unwrap(v).segs[0].n
            b.n2 = unwrap(v).segs[-1].n
            b.st.ghost["n"] = Agg(0, (b.n1, b.n2))
            if by in ("ref", "from"):
                b.ref(v)
            elif by == "mut":
                b.ref(v, "a")
            else:
                b.arg(v)

        def check(e, b, v, p=p):
            if by == "from":
                v = final(e, "d")
            if by == "mut":
                v = final(e, "a")
            if isinstance(v, Ref):
                v = models.sub_seq(e, models.as_slice(e, v))
            pl = Term("va") if p and "map" in tmpl else None
            check_shape(e, v, p, pl)
            n = e.st.ghost["n"].f
            same_ordered(e, v, n[0], n[1], p)
        out.append(Ob(root, pres(p), build, check))
    return out


def conversions():
    out = []
    for r in ("set_clone", "set_iter", "set_t_iter", "set_ref_into_iter", "set_as_ref", "set_as_slice"):
        out += exact_copy(r, "ref")
    for r in ("set_into_inner", "set_into_vec", "set_into_smallvec", "set_into_iter"):
        out += exact_copy(r, "val")
    out += exact_copy("set_shrink", "mut")
    out += exact_copy("set_clone_from", "from")
    out += exact_copy("set_from_btree", "val", tmpl="seq")
    out += exact_copy("set_from_map", "val", tmpl="map")
    out.append(Ob("set_single", "k=x", lambda b: b.arg(Key("=")), lambda e, b, v: check_shape(e, v, True)))
    for d, c in (("k<x", "<"), ("k>x", ">")):
        out.append(Ob("set_single", d, (lambda c: lambda b: b.arg(b.key(c)))(c), lambda e, b, v: check_shape(e, v, False)))
    for r in ("set_empty", "set_default"):
        out.append(Ob(r, "", lambda b: None, lambda e, b, v: None if empty_seq(e, v) else fail_len(v)))
    return out


def any_arg(b):
    if b.profile is not None and "script" in b.profile:
        b.profiled = True
        l = b.profile["script"]
        b.ghost("script", Agg("script", tuple(Agg(0, (Key("=") if x == 0 else Key("<" if x < 0 else ">", RANK0 + x), i))
                                              for i, x in enumerate(l))))
    b.arg(Agg(0, (Agg(0, ()),)))


def given_x(e):
    """whether x has been given so far"""
    return e.st.ghost.get("any", Term("none")).op


def phase(e):
    """whether x was given, by a sequence that has been read to its end"""
    if "ended" not in e.st.ghost:
        raise Fail("member", "the sequence is not read to its end")
    return given_x(e)


def from_any():
    def check(e, b, v):
        check_shape(e, v, phase(e) != "none")

    def cext(p):
        def f(e, b, v):
            check_shape(e, final(e, "a"), p or phase(e) != "none")
        return f
    out = [Ob("set_from_iter", "any input", any_arg, check)]
    for p in (False, True):
        def build(b, p=p):
            b.ref(b.set("a", p), "a")
            any_arg(b)
        out.append(Ob("set_extend", f"any input, {pres(p)}", build, cext(p)))
    for o in out:
        o.hard = 20
    for n in (0, 1, 2):
        def build(b, n=n):
            b.arg(unsorted(b, n))
        out.append(Ob("set_from_vec", f"{n} copies of x", build, (lambda n: lambda e, b, v: check_shape(e, v, n > 0))(n)))
    return out


def unsorted(b, n):
    """arbitrary vector with n occurrences of x: blocks of arbitrary elements in between"""
    segs = []
    if b.profile is not None and b.profile.get("script", []).count(0) == n:
        b.profiled = b.listed = "script" in b.profile
        return Seq(Seg(Key("=") if x == 0 else Key("<" if x < 0 else ">", RANK0 + x), ONE) for x in b.profile.get("script", []))
    for i in range(n + 1):
        if b.exact:
            # at most one element on either side per block
            for c in "<>":
                segs.append(Seg(b.key(c), ONE))
        else:
            segs.append(Seg(Key("?"), b.st.fresh()))
        if i < n:
            segs.append(Seg(Key("="), ONE))
    return Seq(segs)


# ------------------------------------------------------------------ TotalVecSet
def tset_parts(v):
    if not (isinstance(v, Agg) and len(v.f) == 2):
        raise Fail("value", f"not a total set: {v}")
    return v.f


def check_tset(e, v, want):
    el, neg = tset_parts(v)
    if neg not in (True, False):
        raise Fail("value", f"negated flag is {neg}")
    check_shape(e, el, want != neg)


def total_algebra():
    out = []
    flags = [(pa, na, pb, nb) for pa in (False, True) for na in (False, True) for pb in (False, True) for nb in (False, True)]
    for n, f in BOOL.items():
        for mode in ("pure", "mut_val"):
            root = f"tset_{n}" + ("_assign" if mode != "pure" else "")
            for pa, na, pb, nb in flags:
                def build(b, pa=pa, na=na, pb=pb, nb=nb, mode=mode):
                    A, Bs = b.tset("a", pa, na), b.tset("b", pb, nb)
                    b.ref(A, "a" if mode != "pure" else None)
                    if mode == "pure":
                        b.ref(Bs)
                    else:
                        b.arg(Bs)

                def check(e, b, v, pa=pa, na=na, pb=pb, nb=nb, mode=mode, f=f):
                    check_tset(e, v if mode == "pure" else final(e, "a"), f(pa != na, pb != nb))
                out.append(Ob(root, f"{pres(pa, pb)}, neg=({int(na)},{int(nb)})", build, check))
    for p in (False, True):
        for n in (False, True):
            d = f"{pres(p)}, neg={int(n)}"
            out.append(Ob("tset_not", d, (lambda p, n: lambda b: b.arg(b.tset("a", p, n)))(p, n),
                          (lambda w: lambda e, b, v: check_tset(e, v, w))(p == n)))
            out.append(Ob("tset_not_ref", d, (lambda p, n: lambda b: b.ref(b.tset("a", p, n)))(p, n),
                          (lambda w: lambda e, b, v: check_tset(e, v, w))(p == n)))
    return out


def total_points():
    out = []
    for p in (False, True):
        for n in (False, True):
            d0 = f"{pres(p)}, neg={int(n)}"
            m = p != n
            for d, c in CLASSES:
                def b_val(b, p=p, n=n, c=c):
                    b.ref(b.tset("a", p, n), "a")
                    b.arg(b.key(c))

                def b_ref(b, p=p, n=n, c=c):
                    b.ref(b.tset("a", p, n), "a")
                    b.ref(b.key(c))
                out.append(Ob("tset_contains", f"{d0}, {d}", b_ref,
                              (lambda m, c: lambda e, b, v: expect(v, m) if c == "=" else None)(m, c)))
                out.append(Ob("tset_insert", f"{d0}, {d}", b_val,
                              (lambda w: lambda e, b, v: check_tset(e, final(e, "a"), w))(m or c == "=")))
                out.append(Ob("tset_remove", f"{d0}, {d}", b_ref,
                              (lambda w: lambda e, b, v: check_tset(e, final(e, "a"), w))(m and c != "=")))
            out.append(Ob("tset_clone", d0, (lambda p, n: lambda b: b.ref(b.tset("a", p, n)))(p, n),
                          (lambda m: lambda e, b, v: check_tset(e, v, m))(m)))
            out.append(Ob("tset_clone_from", d0, (lambda p, n: lambda b: (b.ref(b.tset("d", not p, not n), "d"), b.ref(b.tset("a", p, n))))(p, n),
                          (lambda m: lambda e, b, v: check_tset(e, final(e, "d"), m))(m)))
            for r, bad in (("tset_is_empty", m), ("tset_is_all", not m)):
                out.append(Ob(r, d0, (lambda p, n: lambda b: b.ref(b.tset("a", p, n)))(p, n),
                              (lambda bad: lambda e, b, v: expect(v, False) if bad else None)(bad)))
    for n in (False, True):
        mkc = (lambda n: lambda b: b.ref(Agg(0, (wrap(Seq()), n))))(n)
        out.append(Ob("tset_is_empty", f"no elements, neg={int(n)}", mkc, (lambda n: lambda e, b, v: expect(v, not n))(n)))
        out.append(Ob("tset_is_all", f"no elements, neg={int(n)}", mkc, (lambda n: lambda e, b, v: expect(v, n))(n)))
        for r in ("tset_constant", "tset_from_bool"):
            out.append(Ob(r, f"{n}", (lambda n: lambda b: b.arg(n))(n), (lambda n: lambda e, b, v: check_tset(e, v, n))(n)))
    out.append(Ob("tset_empty", "", lambda b: None, lambda e, b, v: check_tset(e, v, False)))
    out.append(Ob("tset_all", "", lambda b: None, lambda e, b, v: check_tset(e, v, True)))
    for p in (False, True):
        out.append(Ob("tset_from_set", pres(p), (lambda p: lambda b: b.arg(b.set("a", p)))(p),
                      (lambda p: lambda e, b, v: check_tset(e, v, p))(p)))
    return out


def total_predicates():
    out = []
    for root, bad in (("tset_is_subset", lambda a, b: a and not b), ("tset_is_superset", lambda a, b: b and not a),
                      ("tset_is_disjoint", lambda a, b: a and b)):
        for na in (False, True):
            for nb in (False, True):
                for pa in (False, True):
                    for pb in (False, True):
                        def build(b, pa=pa, na=na, pb=pb, nb=nb):
                            b.ref(b.tset("a", pa, na))
                            b.ref(b.tset("b", pb, nb))

                        def check(e, b, v, pa=pa, na=na, pb=pb, nb=nb, bad=bad, root=root):
                            if v not in (True, False):
                                raise Fail("value", f"{root} returned {v}")
                            if bad(pa != na, pb != nb) and v is not False:
                                raise Fail("value", f"{root} returned {v} although x is a counterexample")
                        out.append(Ob(root, f"{pres(pa, pb)}, neg=({int(na)},{int(nb)})", build, check))
                # tight: all elements the two sets store are x
                for pa in (False, True):
                    for pb in (False, True):
                        ma, mb = pa != na, pb != nb
                        # every key other than x has membership na / nb; keys other than x exist
                        holds = not bad(ma, mb) and not bad(na, nb)

                        def build(b, pa=pa, na=na, pb=pb, nb=nb):
                            b.ref(Agg(0, (only_x(b) if pa else wrap(Seq()), na)))
                            b.ref(Agg(0, (only_x(b) if pb else wrap(Seq()), nb)))
                        out.append(Ob(root, f"a={'{x}' if pa else '{}'}, b={'{x}' if pb else '{}'}, neg=({int(na)},{int(nb)})", build,
                                      (lambda h, root: lambda e, b, v: expect(v, h, root))(holds, root)))
    return out
