"""Abstract values."""
from .num import Aff, ZERO, ONE, const


class Agg:
    """struct / tuple / enum variant / closure"""
    __slots__ = ("v", "f", "_h")

    def __init__(self, v, f):
        self.v = v
        self.f = f
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.f))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.v == o.v and self.f == o.f)

    def __repr__(self):
        return f"{self.v}{list(self.f)}" if self.f else f"{self.v}"


class Ref:
    """pointer to a place; `fat` = (start, len) when it is a slice of the Seq stored there"""
    __slots__ = ("root", "path", "fat", "_h")

    def __init__(self, root, path=(), fat=None):
        self.root = root
        self.path = path
        self.fat = fat
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.root, self.path, self.fat))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path and self.fat == o.fat

    def __repr__(self):
        return f"&{self.root}{''.join('.'+str(p) for p in self.path)}{list(self.fat) if self.fat else ''}"


class Seg:
    """`n` consecutive elements each described by template `t`;
    `tok` identifies the part of an input chain (exact mode only)"""
    __slots__ = ("t", "n", "tok", "_h")

    def __init__(self, t, n, tok=None):
        self.t = t
        self.n = n
        self.tok = tok
        self._h = hash((t, n, tok))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seg) and self.t == o.t and self.n == o.n and self.tok == o.tok)

    def __repr__(self):
        return f"<{self.t} x {self.n}{'' if self.tok is None else '@'+str(self.tok)}>"


class Seq:
    __slots__ = ("segs", "_h")

    def __init__(self, segs=()):
        self.segs = tuple(segs)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.segs == o.segs)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.segs))}]"

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + s.n
        return n


RANK0 = 10 ** 6      # ids from here on are ranks: their order is known


class Key:
    """ordered key, described by its position relative to the tracked key x"""
    __slots__ = ("c", "id")

    def __init__(self, c, id=None):
        self.c = c
        self.id = id

    def __hash__(self):
        return hash(("K", self.c, self.id))

    def __eq__(self, o):
        return isinstance(o, Key) and self.c == o.c and self.id == o.id

    def __repr__(self):
        return f"K{self.c}{'' if self.id is None else self.id}"


class Term:
    """uninterpreted (Herbrand) term"""
    __slots__ = ("op", "a", "_h")

    def __init__(self, op, a=()):
        self.op = op
        self.a = a
        self._h = hash((op, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self._h == o._h and self.op == o.op and self.a == o.a)

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.a))})" if self.a else str(self.op)


class FnV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __hash__(self):
        return hash(("fn", self.f))

    def __eq__(self, o):
        return isinstance(o, FnV) and self.f == o.f

    def __repr__(self):
        return f"fn#{self.f}"


ANY = Term("any")
UNIT = Agg(0, ())
UNINIT = Term("uninit")
UNDEF = Term("undef")


def has_any(v):
    if isinstance(v, Term):
        if v.op == "any":
            return True
        return any(has_any(x) for x in v.a)
    if isinstance(v, Agg):
        return any(has_any(x) for x in v.f)
    if isinstance(v, Key):
        return v.c != "=" and v.id is None
    if isinstance(v, Seq):
        return any(has_any(s.t) for s in v.segs)
    return False


def tracked_leaf(v):
    """v talks about the tracked element: its key or one of its payloads"""
    if isinstance(v, Key):
        return v.c == "="
    if isinstance(v, Term):
        if v.a:
            return any(tracked_leaf(x) for x in v.a)
        return isinstance(v.op, str) and v.op[0] == "v" and v.op != "v"
    if isinstance(v, Agg):
        return any(tracked_leaf(x) for x in v.f)
    return False


def untracked_leaf(v):
    if isinstance(v, Key):
        return v.c != "="
    if isinstance(v, Term):
        if v.op in ("any", "v"):
            return True
        return any(untracked_leaf(x) for x in v.a)
    if isinstance(v, Agg):
        return any(untracked_leaf(x) for x in v.f)
    return False


def mk(op, *a):
    """build an uninterpreted application; unknown arguments make it unknown"""
    if any(has_any(x) for x in a):
        return ANY
    return Term(op, tuple(a))


def map_val(v, fn):
    """rebuild v bottom-up applying fn to leaves (returns replacement)"""
    if isinstance(v, Agg):
        if not v.f:
            return v
        nf = tuple(map_val(x, fn) for x in v.f)
        return v if nf == v.f else Agg(v.v, nf)
    if isinstance(v, Seq):
        ns = tuple(Seg(map_val(s.t, fn), fn(s.n), s.tok) for s in v.segs)
        return v if ns == v.segs else Seq(ns)
    if isinstance(v, Ref):
        np = tuple(("x", fn(p[1])) if isinstance(p, tuple) else p for p in v.path)
        nf = None if v.fat is None else (fn(v.fat[0]), fn(v.fat[1]))
        if np == v.path and nf == v.fat:
            return v
        return Ref(v.root, np, nf)
    if isinstance(v, Term):
        if not v.a:
            return fn(v)
        na = tuple(map_val(x, fn) if not isinstance(x, (str, int, bool)) or isinstance(x, bool) else x for x in v.a)
        return v if na == v.a else Term(v.op, na)
    return fn(v)


def NONE():
    return Agg(0, ())


def SOME(x):
    return Agg(1, (x,))


LESS, EQUAL, GREATER = Agg(0, ()), Agg(1, ()), Agg(2, ())
ORD = {-1: LESS, 0: EQUAL, 1: GREATER}
