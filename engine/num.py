"""Linear integer arithmetic over natural-number symbols: affine expressions, a
conjunction of linear inequalities, entailment by Fourier-Motzkin elimination and
the affine-hull (Karr) join used at loop heads."""
from functools import lru_cache
from array import array
from math import gcd


class Aff:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.t == o.t

    def key(self):
        return (self.t, self.c)

    def at(self, m):
        r = self.c
        for v, k in self.t:
            r += k * m.get(v, 0)
        return r

    def __repr__(self):
        s = "+".join(f"{k}*n{v}" if k != 1 else f"n{v}" for v, k in self.t)
        if not s:
            return str(self.c)
        return s + (f"{self.c:+d}" if self.c else "")

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Aff(self.c + o, self.t)
        if not o.t:
            return Aff(self.c + o.c, self.t)
        if not self.t:
            return Aff(self.c + o.c, o.t)
        d = dict(self.t)
        for v, k in o.t:
            d[v] = d.get(v, 0) + k
        return Aff(self.c + o.c, tuple(sorted((v, k) for v, k in d.items() if k)))

    def __neg__(self):
        return Aff(-self.c, tuple((v, -k) for v, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Aff(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Aff(self.c * k, tuple((v, x * k) for v, x in self.t))

    def shift(self, k):
        return Aff(self.c, tuple((v + k, x) for v, x in self.t)) if self.t else self

    def subst(self, v, e):
        for s, k in self.t:
            if s == v:
                return Aff(self.c, tuple(x for x in self.t if x[0] != v)) + e.scale(k)
        return self


ZERO = Aff(0)
ONE = Aff(1)


def const(n):
    return Aff(n)


def sym(i):
    return Aff(0, ((i, 1),))


def ckey(e):
    return (e.t, e.c)


_lib = None


def lib():
    global _lib
    if _lib is None:
        import ctypes
        import os
        p = os.environ.get("VERIF_NUMCORE") or os.path.join(os.path.dirname(__file__), "..", ".build", "numcore.so")
        _lib = ctypes.CDLL(p)
    return _lib


def pack(rows, idx):
    """rows of Aff -> flat int64 array over the symbol numbering idx"""
    n = len(idx) + 1
    a = [0] * (n * len(rows))
    o = 0
    for e in rows:
        a[o] = e.c
        for v, k in e.t:
            a[o + 1 + idx[v]] = k
        o += n
    return array("q", a)


def addr(a):
    import ctypes
    return ctypes.c_void_p(a.buffer_info()[0])


@lru_cache(maxsize=400000)
def infeasible(cons):
    idx = {}
    for e in cons:
        for v, _ in e.t:
            idx.setdefault(v, len(idx))
    a = pack(cons, idx)
    return bool(lib().nc_infeasible(len(idx), len(cons), addr(a)))


def entails(cons, e):
    """cons |- e >= 0"""
    if e.c >= 0:
        for _, k in e.t:
            if k < 0:
                break
        else:
            return True
    if not e.t:
        return e.c >= 0
    return _entails(cons, e)


@lru_cache(maxsize=400000)
def _entails(cons, e):
    idx = {}
    for c in cons + (e,):
        for v, _ in c.t:
            idx.setdefault(v, len(idx))
    a = pack(cons + (e,), idx)
    p = a.buffer_info()[0]
    import ctypes
    n = len(idx)
    return bool(lib().nc_entails(n, len(cons), ctypes.c_void_p(p), ctypes.c_void_p(p + 8 * len(cons) * (n + 1))))


def join_constraints(v1, cons1, v2, cons2, vn, kinds):
    def num(rows, cons):
        idx = {}
        for e in list(rows) + list(cons):
            for v, _ in e.t:
                idx.setdefault(v, len(idx))
        return idx
    i1, i2, i3 = num(v1, cons1), num(v2, cons2), num(vn, ())
    a1, b1 = pack(v1, i1), pack(cons1, i1)
    a2, b2 = pack(v2, i2), pack(cons2, i2)
    a3 = pack(vn, i3)
    kd = array("i", kinds)
    mx = 400
    out = array("q", [0] * (mx * (len(i3) + 1)))
    r = lib().nc_join(len(v1), len(i1), addr(a1), len(cons1), addr(b1), len(i2), addr(a2), len(cons2), addr(b2),
                      len(i3), addr(a3), addr(kd), addr(out), mx)
    if r < 0:
        raise RuntimeError("too many constraints")
    names = sorted(i3, key=i3.get)
    res = []
    w = len(i3) + 1
    for k in range(r):
        row = out[k * w:(k + 1) * w]
        res.append(Aff(row[0], tuple(sorted((names[j], row[1 + j]) for j in range(w - 1) if row[1 + j]))))
    return res


def affine_join(vecs1, vecs2):
    """vecs1/vecs2: lists of Aff (same length) over two independent symbol spaces.
    Returns (pivots, res): res[j] = ('p', j) for a parameter, else ('e', num_const, {pivot: num}, den):
    the affine hull of the union, with parameters chosen among the vector entries."""
    n = len(vecs1)
    first = {}
    cols = []
    rep = [0] * n
    for j in range(n):
        k = (vecs1[j], vecs2[j])
        if k in first:
            rep[j] = first[k]
        else:
            first[k] = j
            rep[j] = j
            cols.append(j)
    vary = [j for j in cols if vecs1[j].t or vecs2[j].t or vecs1[j].c != vecs2[j].c]
    m = len(vary)
    s1 = {v: i for i, v in enumerate(sorted({v for j in vary for v, _ in vecs1[j].t}))}
    s2 = {v: i for i, v in enumerate(sorted({v for j in vary for v, _ in vecs2[j].t}))}
    d1 = [[0] * m for _ in s1]
    d2 = [[0] * m for _ in s2]
    dc = [0] * m
    for i, j in enumerate(vary):
        for v, k in vecs1[j].t:
            d1[s1[v]][i] = k
        for v, k in vecs2[j].t:
            d2[s2[v]][i] = k
        dc[i] = vecs2[j].c - vecs1[j].c
    rows = [r for r in d1 + d2 + [dc] if any(r)]
    piv, red = [], []
    for col in range(m):
        pr = None
        for i, r in enumerate(rows):
            if r[col]:
                pr = rows.pop(i)
                break
        if pr is None:
            continue
        k = pr[col]

        def elim(r):
            x = r[col]
            if not x:
                return r
            r = [a * k - x * b for a, b in zip(r, pr)]
            g = 0
            for a in r:
                if a:
                    g = gcd(g, a)
                    if g == 1:
                        break
            if g > 1:
                r = [a // g for a in r]
            return r
        rows = [r for r in map(elim, rows) if any(r)]
        red = [elim(r) for r in red]
        red.append(pr)
        piv.append(col)
    res = [None] * n
    for i, j in enumerate(vary):
        if i in piv:
            res[j] = ("p", j)
            continue
        den = 1
        terms = {}
        for pc, r in zip(piv, red):
            if r[i]:
                den = den * abs(r[pc]) // gcd(den, abs(r[pc]))
        c = vecs1[j].c * den
        for pc, r in zip(piv, red):
            if r[i]:
                k = r[i] * den // r[pc]
                terms[vary[pc]] = k
                c -= k * vecs1[vary[pc]].c
        res[j] = ("e", c, terms, den)
    for j in range(n):
        if res[j] is None:
            if rep[j] != j:
                r = res[rep[j]]
                res[j] = ("e", 0, {rep[j]: 1}, 1) if r[0] == "p" else r
            else:
                res[j] = ("e", vecs1[j].c, {}, 1)
    return [vary[p] for p in piv], res
