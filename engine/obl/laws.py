"""Coherence of Eq, Ord, PartialOrd and Hash."""
from ..specs import *
from .sets import pres

FAM = {"set": lambda b, n, p: b.set(n, p), "map": lambda b, n, p: b.map(n, p, Term("v" + n) if p else None)}


def val(b, fam, n, p, neg):
    if fam in FAM:
        return FAM[fam](b, n, p)
    if fam == "tset":
        return b.tset(n, p, neg)
    return b.tmap(n, p, Term("v" + n) if p else None, Term("d" + n))


PRES = [(False, False), (False, True), (True, False), (True, True), ("low", "low")]


def pdesc(pa, pb):
    return "all below x" if pa == "low" else pres(pa, pb)


def deep(ob, pa):
    ob.deep = pa == "low"
    return ob


def laws():
    out = []
    for fam in ("set", "map", "tmap"):
        for law in ("cmp", "anti", "partial"):
            for pa, pb in PRES:
                def build(b, pa=pa, pb=pb, fam=fam):
                    b.ref(val(b, fam, "a", pa, None))
                    b.ref(val(b, fam, "b", pb, None))

                def check(e, b, v):
                    if v is not True:
                        raise Fail("value", f"comparison law does not hold: {v}")
                out.append(deep(Ob(f"law_{fam}_{law}", pdesc(pa, pb), build, check), pa))
    return out


def hashes(e, h):
    return [x.a[1] for x in e.st.log if isinstance(x, Term) and x.op == "hash" and x.a[0] == Ref(h)]


def same_hashed(e, x, y):
    if x == y:
        return True
    if isinstance(x, Ref) and isinstance(y, Ref):
        a, b = sorted((repr(x), repr(y)))
        if e.st.facts.get(("seq", a, b)) == "=":
            return True
        return None if e.exact else False
    if isinstance(x, Aff) and isinstance(y, Aff):
        return e.ent_eq(x - y)
    if isinstance(x, Key) and isinstance(y, Key):
        return x.c == y.c == "=" or (models.order_of(e, x.id, y.id) == 0 if x.id is not None and y.id is not None else None)
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
        r = [same_hashed(e, a, b) for a, b in zip(x.f, y.f)]
        return None if None in r else all(r)
    return same_val(e, x, y)


def exact_seq_eq(e, x, y):
    """element by element, for the identified elements of the exact pass"""
    a, b = models.sub_seq(e, x), models.sub_seq(e, y)
    d = a.length() - b.length()
    if e.ent(d - 1) or e.ent(-d - 1):
        return False
    a = [s for s in a.segs if not e.ent_eq(s.n)]
    b = [s for s in b.segs if not e.ent_eq(s.n)]
    for p, q in zip(a, b):
        if not e.ent_eq(p.n - 1) or not e.ent_eq(q.n - 1):
            # never looked at: the elements are unrelated, so they can differ
            return "open" if e.ent(p.n - 1) and e.ent(q.n - 1) else None
        r = same_hashed(e, p.t, q.t)
        if r is not True:
            return r
    return True if len(a) == len(b) and e.ent_eq(d) else None


def hash_laws():
    out = []
    for fam in ("set", "map", "tset", "tmap"):
        for pa, pb in PRES:
            for na, nb in (((False, False), (False, True), (True, False), (True, True)) if fam == "tset" else ((None, None),)):
                def build(b, pa=pa, pb=pb, na=na, nb=nb, fam=fam):
                    b.ref(val(b, fam, "a", pa, na))
                    b.ref(val(b, fam, "b", pb, nb))
                    b.ref(Agg(0, ()), "h")
                    b.ref(Agg(0, ()), "g")

                def check(e, b, v):
                    if v is not True:
                        return
                    h, g = e.st.ghost["h"], e.st.ghost["g"]
                    x, y = hashes(e, h.root if isinstance(h, Ref) else h), hashes(e, g.root if isinstance(g, Ref) else g)
                    bad = len(x) != len(y)
                    for p, q in zip(x, y):
                        s = same_hashed(e, p, q)
                        if s is None and isinstance(p, Ref):
                            s = exact_seq_eq(e, p, q)
                            s = None if s == "open" else s
                        if s is None:
                            raise Fail("undecided", "hashed values are not related")
                        bad = bad or not s
                    if bad:
                        raise Fail("value", f"equal values are hashed differently: {x} and {y}")
                out.append(deep(Ob(f"hash_{fam}", pdesc(pa, pb) + (f", neg={int(na)}{int(nb)}" if na is not None else ""), build, check), pa))
    return out


def eq_content():
    """== holds exactly when the content (and the default) is the same"""
    out = []
    for fam in ("set", "map", "tmap"):
        for pa, pb in PRES:
            def build(b, pa=pa, pb=pb, fam=fam):
                b.ref(val(b, fam, "a", pa, None))
                b.ref(val(b, fam, "b", pb, None))

            def check(e, b, v, fam=fam):
                x, y = Ref(("H", 0)), Ref(("H", 1))
                sub = (0, 0) if fam == "tmap" else (0,)
                x, y = (models.as_slice(e, Ref(r.root, sub)) for r in (x, y))
                r = [e.st.facts.get(("seq",) + tuple(sorted((repr(x), repr(y)))))]
                r = [{"=": True, None: None}.get(r[0], False)]
                if e.exact:
                    r = [exact_seq_eq(e, x, y)]
                    if r == ["open"]:
                        r = [None if v is False else False]
                if fam == "tmap":
                    d = Term("da"), Term("db")
                    r.append(True if same_val(e, *d) else False if diff_val(e, *d) else None)
                same = False if False in r else None if None in r else True
                if v is True and same is not True or v is False and same is not False:
                    if e.exact and same is None:
                        raise Fail("undecided", "")
                    raise Fail("value", f"== is {v} although the content is {'the same' if same else 'different' if same is False else 'not compared'}")
            out.append(deep(Ob(f"{fam}_eq", pdesc(pa, pb), build, check), pa))
    return out


def iterators():
    """every iterator method agrees with the slice of elements"""
    out = []
    for fam in ("set", "map"):
        for what in ("nth", "last", "count", "hint", "fold", "all", "find"):
            for p in (False, True):
                def build(b, p=p, fam=fam):
                    b.ref(val(b, fam, "a", p, None))
                    b.arg(b.st.fresh())

                def check(e, b, v):
                    if v is not True:
                        raise Fail("value", "the iterator disagrees with the slice of elements")
                out.append(Ob(f"{fam}_it_{what}", pres(p), build, check))
        for what in ("nth", "fold", "count", "hint", "last"):
            for p in (False, True):
                def build(b, p=p, fam=fam, what=what):
                    v = val(b, fam, "a", p, None)
                    s = unwrap(v)
                    b.st.ghost["n"] = Agg(0, (s.segs[0].n, s.segs[-1].n))
                    b.arg(v)
                    if what == "nth":
                        k = b.st.fresh()
                        b.st.ghost["k"] = k
                        b.arg(k)

                def check(e, b, v, p=p, fam=fam, what=what):
                    lo, hi = e.st.ghost["n"].f
                    n = lo + hi + int(p)
                    pl = Term("va") if p and fam == "map" else None
                    if what == "count":
                        if not e.ent_eq(v - n):
                            raise Fail("value", f"count is {v}, expected {n}")
                    elif what == "hint":
                        up = v.f[1]
                        if not e.ent_eq(v.f[0] - n) or up.v != 1 or not e.ent_eq(up.f[0] - n):
                            raise Fail("value", f"size_hint is {v}, expected exactly {n}")
                    elif what == "fold":
                        check_shape(e, v, p, pl)
                        same_ordered(e, v, lo, hi, p)
                    elif what == "last":
                        if v.v == 0:
                            if not e.ent(-n):
                                raise Fail("value", "last() is None on a non-empty collection")
                        else:
                            c = models.tkey(v.f[0]).c
                            ok = {">": e.ent(hi - 1), "=": p and e.ent(-hi), "<": not p and e.ent(-hi)}[c]
                            if not ok:
                                raise Fail("value", f"last() is {v.f[0]}, which is not the last element")
                    else:
                        k = e.st.ghost["k"]
                        x, rest = v.f
                        if x.v == 0:
                            if not e.ent(k - n) or not e.is_empty(unwrap(rest)):
                                raise Fail("value", "nth() is None although there are enough elements")
                            return
                        if e.exact and not e.ent(n - k - 1):
                            raise Fail("value", "nth() gives an element past the end")
                        if not e.ent_eq(unwrap(rest).length() - (n - k - 1)):
                            raise Fail("value", f"after nth({k}) the iterator holds {unwrap(rest).length()} elements, expected {n - k - 1}")
                        c = models.tkey(x.f[0]).c
                        ok = {"<": e.ent(lo - k - 1), "=": p and e.ent_eq(k - lo), ">": e.ent(k - lo - int(p))}[c]
                        if not ok:
                            raise Fail("value", f"nth({k}) gives {x.f[0]}")
                        if c == "=" and pl is not None and not same_val(e, x.f[0].f[1], pl):
                            raise Fail("payload", f"nth({k}) gives {x.f[0]}")
                        check_shape(e, rest, p and c == "<", pl)
                out.append(Ob(f"{fam}_own_{what}", pres(p), build, check))
    return out
