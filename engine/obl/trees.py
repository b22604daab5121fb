"""Obligations for tree maps (btree_map.rs) and their archived form."""
from ..specs import *
from .sets import pres, exact_copy, CLASSES
from .maps import JOINS, VA, VB, X, opt, value_ref


def tree(b, name, present, payload):
    return b.seq(map_t, name, present, payload)


def joins_pure():
    out = []
    for pre in ("bt", "bx", "xb"):
        for kind in JOINS:
            out += join_pure(f"{pre}_{kind}_join", f"f_{kind}", kind)
    return out


def join_pure(root, fname, kind):
    visited, args = JOINS[kind]
    out = []
    for pa in (False, True):
        for pb in (False, True):
            def build(b, pa=pa, pb=pb):
                b.ref(tree(b, "a", pa, VA))
                b.ref(tree(b, "b", pb, VB))

            def check(e, b, v, pa=pa, pb=pb):
                if not visited(pa, pb):
                    check_shape(e, v, False)
                    check_calls(e, [])
                    return
                w = args(pa, pb)
                f = fact(e, fname, *w)
                if f is None:
                    check_shape(e, v, None)
                    raise Fail("calls", f"the callback was not applied to x: {calls(e)}")
                check_calls(e, [(fname,) + w])
                check_shape(e, v, bool(f), Term(fname, w) if f else None)
            out.append(Ob(root, pres(pa, pb), build, check))
    return out


def with_spec(kind, pa, pb):
    """callback name, its arguments and the shape of the answer: keep-and-update | make | ask-only | drop | same"""
    if kind == "inner":
        return ("f_mut_inner", (VA, X, VB), "upd") if pa and pb else (None, None, "drop")
    if kind == "left":
        return ("f_mut_left", (VA, X, opt(VB if pb else None)), "upd") if pa else (None, None, "drop")
    if kind == "right":
        if not pb:
            return None, None, "drop"
        return ("f_mut_right", (VA, X, VB), "upd") if pa else ("f_rightonly", (X, VB), "ask")
    if pa:
        return "f_mut_l", (VA, X, opt(VB if pb else None)), "upd"
    return ("f_newr", (X, VB), "make") if pb else (None, None, "drop")


def joins_inplace():
    out = []
    for pre in ("bt", "bx"):
        for kind in ("outer", "left", "right", "inner"):
            for pa in (False, True):
                for pb in (False, True):
                    def build(b, pa=pa, pb=pb):
                        b.ref(tree(b, "a", pa, VA), "a")
                        b.ref(tree(b, "b", pb, VB))

                    def check(e, b, v, pa=pa, pb=pb, kind=kind):
                        res = final(e, "a")
                        f, w, how = with_spec(kind, pa, pb)
                        if f is None:
                            check_shape(e, res, False)
                            check_calls(e, [])
                            return
                        ans = fact(e, f, *w)
                        if ans is None:
                            check_shape(e, res, None)
                            raise Fail("calls", f"{f} was not applied to x: {calls(e)}")
                        check_calls(e, [(f,) + w])
                        keep = bool(ans) and how != "ask"
                        check_shape(e, res, keep, (Term(f + "!", w) if how == "upd" else Term(f, w)) if keep else None)
                    out.append(Ob(f"{pre}_{kind}_join_with", pres(pa, pb), build, check))
    return out


def access():
    out = []
    for r in ("bt_t_get", "xt_t_get"):
        for p in (False, True):
            for d, c in CLASSES:
                def build(b, p=p, c=c):
                    b.ref(tree(b, "a", p, VA), "a")
                    b.ref(b.key(c))

                def check(e, b, v, p=p, c=c):
                    if c == "=":
                        value_ref(e, v, VA if p else None, "get()")
                out.append(Ob(r, f"{pres(p)}, {d}", build, check))
    for r in ("bt_t_iter", "xt_t_iter"):
        out += exact_copy(r, "ref", tmpl="mapseq")
    return out
