"""Initial abstract states and specification helpers for the analysed roots."""
from .num import Aff, ZERO, ONE, const, sym
from .vals import *
from .interp import State, Frame
from . import models


class Fail(Exception):
    """kind: sorted | member | payload | calls | value | panic"""

    def __init__(self, kind, msg):
        self.kind = kind
        Exception.__init__(self, msg)


class Ob:
    """one proof obligation: a root, a partition of its inputs and the specification of its outcome"""

    def __init__(self, root, desc, build, check, panics=None):
        self.root = root
        self.desc = desc
        self.build = build      # B -> None
        self.check = check      # (engine, builder, value) -> None, raises Fail
        self.deep = False       # re-examined with many loop iterations
        self.hard = False       # not expected to be proved: spend the time on the second pass
        self.cut = None         # path of a function whose loop is cut: an arrival at its head ends the path
        self.inv = ()           # loop invariants (Inv): the loops are cut at their heads
        self.prove_only = False # never re-examined (a failure here says nothing about behaviour)
        self.exact_only = False # decided with paths kept apart from the start
        self.ranked = False     # many elements of a known order: callbacks answer in three patterns only
        self.panics = panics    # (engine, builder) -> bool: a panic is expected in this state

    @property
    def name(self):
        return f"{self.root}[{self.desc}]"


def instance(prog, path):
    """a monomorphic instance of a private function"""
    l = [i for i, f in (prog.fns.items() if isinstance(prog.fns, dict) else enumerate(prog.fns)) if f["path"] == path]
    if not l:
        raise RuntimeError(f"{path} does not exist")
    return l[0]


class B:
    """builder of the initial state of one obligation"""

    def __init__(self, prog, root, exact, profile=None):
        self.prog = prog
        self.root = root
        self.fid = prog.roots[root] if not root.startswith("fn:") else instance(prog, root[3:])
        self.st = State()
        self.exact = exact
        self.args = []
        self.profile = profile      # ranks of the elements of the operands (see PROFILES)
        self.profiled = False

    def seq(self, tmpl, name, present, payload=None):
        """strictly sorted sequence: [below x][x if present][above x]"""
        st = self.st
        r = self.ranks(name)
        if r is not None:
            lo, hi = [x for x in r if x < 0], [x for x in r if x > 0]
            segs = [Seg(tmpl(Key("="), payload), ONE)] if present else []
            return Seq([self.run(tmpl, "<", name, lo)] + segs + [self.run(tmpl, ">", name, hi)])
        n1, n2 = st.fresh(), st.fresh()
        if self.exact:
            a, b = st.nid, st.nid + 1
            st.nid += 2
            st.chains[name] = (("p", a), ("p", b))
            ta, tb = (name, a), (name, b)
        else:
            ta = tb = None
        segs = [Seg(tmpl(Key("<"), ANY), n1, ta)]
        if present:
            segs.append(Seg(tmpl(Key("="), payload), ONE))
        segs.append(Seg(tmpl(Key(">"), ANY), n2, tb))
        return Seq(segs)

    def ranks(self, name):
        if self.profile is None or name not in self.profile:
            return None
        self.profiled = True
        return self.profile[name]

    def run(self, tmpl, c, name, ranks):
        return Seg(tmpl(Key(c), ANY), const(len(ranks)), (name, tuple(ranks)))

    def low(self, tmpl, name):
        """strictly sorted sequence entirely below the tracked key"""
        st = self.st
        r = self.ranks(name)
        if r is not None:
            return Seq((self.run(tmpl, "<", name, [x for x in r if x < 0]),))
        n, tok = st.fresh(), None
        if self.exact:
            st.chains[name] = (("p", st.nid),)
            tok = (name, st.nid)
            st.nid += 1
        return Seq((Seg(tmpl(Key("<"), ANY), n, tok),))

    def set(self, name, present):
        if present == "low":
            return wrap(self.low(set_t, name))
        return wrap(self.seq(set_t, name, present))

    def map(self, name, present, payload):
        if present == "low":
            return wrap(self.low(map_t, name))
        return wrap(self.seq(map_t, name, present, payload))

    def tset(self, name, present, neg):
        return Agg(0, (self.set(name, present), neg))

    def tmap(self, name, present, payload, default):
        """canonical total map: no stored value equals the default"""
        if present and present != "low":
            self.fact_ne(payload, default)
        if self.exact:
            self.st.ghost["ne:" + name] = default
        return Agg(0, (self.map(name, present, payload), default))

    def fact_ne(self, a, b):
        self.st.facts[("v",) + ((a, b) if repr(a) < repr(b) else (b, a))] = "!"

    def key(self, c):
        """a key argument of class c"""
        if c != "=" and self.profile is not None:
            return Key(c, RANK0 + (-7 if c == "<" else 7))
        if c != "=" and self.exact:
            self.st.nid += 1
            return Key(c, self.st.nid - 1)
        return Key(c)

    def val(self, c, name):
        """a value that goes with a key of class c"""
        if c == "=":
            return Term(name)
        if self.exact:
            self.st.nid += 1
            return Term("v", (self.st.nid - 1,))
        return ANY

    def heap(self, v):
        r = ("H", self.st.nheap)
        self.st.nheap += 1
        self.st.mem[r] = v
        return Ref(r)

    def ghost(self, name, v):
        self.st.ghost[name] = v

    def arg(self, v):
        self.args.append(v)

    def ref(self, v, name=None):
        """pass a reference to v; with a name its final value can be inspected"""
        r = self.heap(v)
        if name:
            self.st.ghost[name] = r
        self.args.append(r)
        return r

    def done(self):
        st = self.st
        st.frames.append(Frame(self.fid, 0, None, None, None))
        fn = self.prog.fns[self.fid]
        if fn["argc"] != len(self.args):
            raise RuntimeError(f"arity of {fn['path']}")
        for i, a in enumerate(self.args):
            st.mem[("L", 0, i + 1)] = a
        return st


def pattern(below, above):
    """element patterns: a, b: in that operand only, c: in both; '-': a value in neither"""
    n = len(below)
    out = {"a": [], "b": []}
    for i, x in list(enumerate(below, -n)) + list(enumerate(above, 1)):
        for k in "ab":
            if x == k or x == "c":
                out[k].append(i)
    return out


def script(ranks):
    return dict(pattern("a" * 9 + "-" * 8, "aa--a"), script=ranks)


def lcg(n, m, s):
    out = []
    for _ in range(n):
        s = (s * 1103515245 + 12345) % 2 ** 31
        out.append((s >> 16) % m)
    return out


def both(f, g):
    """the pattern and its mirror image"""
    t = str.maketrans("ab", "ba")
    return [pattern(f, g), pattern(f.translate(t), g.translate(t))]


# operands of many elements in a known order: longer than the small sizes the general search reaches
PROFILES = (
    both("b" + "a" * 20 + "c" + "a" * 19, "a" * 20 + "b" + "a" + "b" + "a" * 20)
    + both("a" * 6 + "c", "c" + "a" * 40)
    + both("a" * 18, "b" * 18)
    + both("aab" * 7, "abcba" * 6)
    + [pattern("c" * 20, "c" * 20)]
    + both("a" * 150 + "c" + "a" * 3 + "b", "b" + "c" + "a" * 150)
    + both("c" * 4, "b" + "a" * 140)
    + both("a" * 70, "b" * 70)
    + [pattern("abc" * 30, "cab" * 30)]
    + both("c", "a" * 127 + "c" + "b" * 20)
    + both("a" * 280, "a" * 60)
)
SCRIPTS = [script(x) for x in (
    [3, 2, 1, 0, -1, -2, -3, 0],
    list(range(12, -13, -1)),
    list(range(-12, 10)) + list(range(9, -13, -1)),
    [x - 9 for x in lcg(40, 19, 1)] + [0],
    [0] + [x - 4 for x in lcg(45, 9, 2)],
    [2, 1, 0, -1, -2] * 8,
    list(range(-8, 9)) + [0, 5, -5] * 8 + list(range(20, -20, -1)),
    [5, 4, 3, 2, 1, -1, -2] * 6,
    list(range(1, 18)) + [x + 1 for x in lcg(40, 30, 3)] + [0],
    [-1] * 20 + [0] * 20 + [1],
    list(range(-30, 0)) + list(range(30, 0, -1)) + [-3, 0, 0, 2],
    list(range(-130, 140)) + [5, 4, 0, -3],
    list(range(1, 140)) + [5, 0, -3, 5],
)]


def set_t(k, p):
    return k


def map_t(k, p):
    return Agg(0, (k, p))


def wrap(seq):
    """VecSet / VecMap newtype"""
    return Agg(0, (seq,))


def final(e, name):
    r = e.st.ghost[name]
    return e.load(r.root, r.path)


def unwrap(v):
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    if not isinstance(v, Seq):
        raise Fail("value", f"result is not a collection: {v}")
    return v


def check_shape(e, seq, present, payload=None, what="result"):
    """sequence must be [<*][= iff present][>*]; payload: expected value stored with x"""
    seq = unwrap(seq)
    phase = 0
    neq = 0
    for s in seq.segs:
        if e.ent_eq(s.n):
            continue
        t = s.t
        if isinstance(t, Ref):
            t = models.deref_all(e, t)
        k = models.tkey(t)
        if k is None or k.c not in models.CLS:
            raise Fail("sorted", f"{what}: element of unknown position {t} in {seq}")
        c = models.CLS[k.c]
        if c < phase:
            raise Fail("sorted", f"{what} is not sorted: {seq}")
        if c == 1:
            if neq or not e.ent_eq(s.n - 1):
                raise Fail("sorted", f"{what} contains an element more than once: {seq}")
            neq = 1
            if payload is not None:
                v = t.f[1] if isinstance(t, Agg) else None
                if isinstance(v, Ref):
                    v = models.deref_all(e, v)
                if not same_val(e, v, payload):
                    raise Fail("payload", f"{what} stores {v} under x, expected {payload}")
        phase = c
    if e.exact:
        exact_sorted(e, seq, what)
    if present is not None and bool(neq) != present:
        raise Fail("member", f"{what}: x is {'present' if neq else 'absent'}, expected {'present' if present else 'absent'}: {seq}")
    return bool(neq)


def exact_sorted(e, seq, what):
    """identified neighbours of the same class must be strictly ascending"""
    prev = None
    for s in seq.segs:
        t = models.deref_all(e, s.t) if isinstance(s.t, Ref) else s.t
        k = models.tkey(t)
        if k is not None and k.id is not None and prev is not None and prev.id is not None and prev.c == k.c:
            o = models.order_of(e, prev.id, k.id)
            if o is not None and o >= 0:
                raise Fail("sorted", f"{what} is not strictly sorted: {seq}")
        prev = k


def same_val(e, a, b):
    """a = b is entailed by the recorded comparisons"""
    if a == b:
        return True
    return isinstance(a, Term) and isinstance(b, Term) and not consistent_with(e, a, b, "!")


def diff_val(e, a, b):
    """a != b is entailed"""
    if a == b or not (isinstance(a, Term) and isinstance(b, Term)):
        return False
    return not consistent_with(e, a, b, "=")


def le_val(e, a, b):
    """a <= b is entailed"""
    if a == b:
        return True
    f = dict(e.st.facts)
    flip = repr(a) > repr(b)
    k = ("v",) + ((b, a) if flip else (a, b))
    cur = f.get(k)
    if cur in ("<", "=", ">"):
        return cur == "=" or (cur == "<") != flip
    f[k] = "<" if flip else ">"
    return not models.vconsistent(f)


def consistent_with(e, a, b, r):
    f = dict(e.st.facts)
    k = ("v",) + ((a, b) if repr(a) < repr(b) else (b, a))
    if k in f:
        return (f[k] == "=") == (r == "=")
    f[k] = r
    return models.vconsistent(f)


def same_ordered(e, seq, n1, n2, present, what="result"):
    """the sequence still holds exactly n1 elements below, x iff present, n2 above"""
    a = b = ZERO
    for s in unwrap(seq).segs:
        t = models.deref_all(e, s.t) if isinstance(s.t, Ref) else s.t
        k = models.tkey(t)
        if k.c == "<":
            a = a + s.n
        elif k.c == ">":
            b = b + s.n
    if not e.ent_eq(a - n1) or not e.ent_eq(b - n2):
        raise Fail("member", f"{what} gained or lost elements: {seq}")


def calls(e, name=None):
    return [x for x in e.st.log if isinstance(x, Term) and x.op in ("call", "mixed") and (name is None or x.a[0] == name)]


def check_calls(e, want):
    """the callback was applied to the tracked element exactly with these argument lists"""
    got = calls(e)
    w = [Term("call", x) for x in want]
    if sorted(map(repr, got)) != sorted(map(repr, w)):
        raise Fail("calls", f"callback applications for x: {got}, expected {w}")


def fact(e, name, *vals):
    return e.st.facts.get((name,) + vals)


def expect(v, want, what="result"):
    if v != want:
        raise Fail("value", f"{what} is {v}, expected {want}")


class Inv:
    """invariant of a loop. check: raises Fail unless it holds at the head; havoc: forgets everything but the invariant;
    blank: memory without the parts it describes; ghosts: ghost variables it describes"""
    ghosts = ()

    def __init__(self, path):
        import re
        self.path = re.compile(path)

    def prepare(self, e, st, fr):
        pass


def local_of(e, fr, ty):
    """(root, type) of the variable of the type that is live at the head of a loop"""
    f = e.p.fns[fr.fn]
    l = [i for i in f["live"][fr.bb] if e.p.types[f["locals"][i]]["name"].startswith(ty)]
    if len(l) != 1:
        raise Fail("value", f"{len(l)} variables of type {ty} are live")
    return ("L", fr.depth, l[0]), e.p.types[f["locals"][l[0]]]


def fields(t, names):
    """indices of the named fields of a structure"""
    l = [x[0] for x in t["vs"][0]["f"]]
    if any(n not in l for n in names):
        raise Fail("value", f"fields of {t['name'][:40]} are {l}")
    return [l.index(n) for n in names]
