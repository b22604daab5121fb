"""Obligations for the serde implementations."""
from ..specs import *
from .sets import pres, phase, check_tset, tset_parts
from .maps import tmap_parts
from . import maps


def log_terms(e, *ops):
    return [x for x in e.st.log if isinstance(x, Term) and x.op in ops]


def result(e, v):
    """Ok(payload) / Err: an error is reported exactly when the input is malformed"""
    if not (isinstance(v, Agg) and v.v in (0, 1)):
        raise Fail("value", f"not a Result: {v}")
    bad = bool(log_terms(e, "input_error"))
    if v.v == 1:
        if not bad:
            raise Fail("value", "well-formed input is rejected")
        return None
    if bad:
        raise Fail("value", "malformed input is accepted")
    return v.f[0]


def given(e):
    """values that may stand for x: the only one given, or one of several"""
    ph = phase(e)
    l = e.st.ghost.get("lasteq")
    if ph == "none":
        return []
    if l is not None and l.op == "v_only":
        return [Term("v_only")]
    return [Term("v_first"), Term("v_mid"), Term("v_last")]


def stored(e, seq):
    seq = unwrap(seq)
    for s in seq.segs:
        if e.ent_eq(s.n):
            continue
        if models.tkey(s.t).c == "=":
            return s.t.f[1]
    return None


def check_given(e, m):
    v = stored(e, m)
    if v is not None and v not in given(e):
        raise Fail("payload", f"x is mapped to {v}, the input gives {given(e)}")


def de():
    def c_set(e, b, v):
        r = result(e, v)
        if r is not None:
            check_shape(e, r, phase(e) != "none")

    def c_map(e, b, v):
        r = result(e, v)
        if r is not None:
            check_shape(e, r, phase(e) != "none")
            check_given(e, r)

    def c_tset(e, b, v):
        r = result(e, v)
        if r is not None:
            el, neg = tset_parts(r)
            flag = e.st.facts.get(("any_bool",))
            if flag is None or neg != flag:
                raise Fail("value", f"negation flag is {neg}, the input says {flag}")
            check_shape(e, el, phase(e) != "none")

    def c_tmap(e, b, v):
        r = result(e, v)
        if r is None:
            return
        m, d = tmap_parts(r)
        if d != Term("dv"):
            raise Fail("value", f"default is {d}")
        p = check_shape(e, m, None)
        ph = phase(e)
        if p:
            check_given(e, m)
            if ph == "none":
                raise Fail("member", "x is mapped although the input does not mention it")
            if not diff_val(e, stored(e, m), d):
                raise Fail("payload", "an entry equal to the default is stored")
        elif ph != "none" and not any(same_val(e, g, d) for g in given(e)):
            raise Fail("member", f"x is not mapped although the input maps it to {given(e)}")
    n = lambda b: None
    return [Ob("set_de", "any input", n, c_set), Ob("map_de", "any input", n, c_map),
            Ob("tset_de", "any input", n, c_tset), Ob("tmap_de", "any input", n, c_tmap)]


def sink_shape(e, p, payload):
    s = e.st.ghost.get("sink", Seq())
    for x in s.segs:
        if not e.ent_eq(x.n) and isinstance(x.t, Agg) and x.t.v == "lone":
            raise Fail("value", f"key and value are not written in turn: {s}")
    check_shape(e, s, p, payload, "output")
    n = e.st.ghost["n"].f
    same_ordered(e, s, n[0], n[1], p, "output")
    return n[0] + n[1] + int(p)


def events(e, want):
    got = log_terms(e, "begin_seq", "begin_map", "begin_tuple", "end", "emit", "emit_bool")
    if [x.op for x in got] != [x.op for x in want]:
        raise Fail("value", f"written structure: {got}, expected {want}")
    for g, w in zip(got, want):
        if not w.a:
            continue
        x, y = g.a[0], w.a[0]
        if isinstance(x, Aff) and isinstance(y, Aff):
            if not e.ent_eq(x - y):
                raise Fail("value", f"announced length {x}, actual {y}")
        elif x != y:
            raise Fail("value", f"wrote {x}, expected {y}")


def ser_root(root, kind, tmpl, total):
    out = []
    for p in (False, True):
        for neg in ((False, True) if total == "set" else (None,)):
            def build(b, p=p, neg=neg):
                v = b.set("a", p) if tmpl == "set" else b.map("a", p, Term("va"))
                s = unwrap(v).segs
                b.ghost("n", Agg(0, (s[0].n, s[-1].n)))
                if total == "set":
                    v = Agg(0, (v, neg))
                elif total == "map":
                    if p:
                        b.fact_ne(Term("va"), Term("da"))
                    v = Agg(0, (v, Term("da")))
                b.ref(v)

            def check(e, b, v, p=p, neg=neg):
                if not (isinstance(v, Agg) and v.v == 0):
                    raise Fail("value", f"serialization fails: {v}")
                n = sink_shape(e, p, Term("va") if p and tmpl == "map" else None)
                inner = [Term("begin_" + kind, (n,)), Term("end")]
                if total:
                    tail = Term("emit_bool", (const(int(neg)),)) if total == "set" else Term("emit", (Term("da"),))
                    inner = [Term("begin_tuple", (const(2),))] + inner + [tail, Term("end")]
                events(e, inner)
            out.append(Ob(root, pres(p) + (f", neg={int(neg)}" if neg is not None else ""), build, check))
    return out


def ser():
    return (ser_root("set_ser", "seq", "set", None) + ser_root("map_ser", "map", "map", None)
            + ser_root("tset_ser", "seq", "set", "set") + ser_root("tmap_ser", "map", "map", "map"))
