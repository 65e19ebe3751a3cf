"""Abstract interpreter over monomorphic MIR.

States are pairs (program memory, observer memory).  Control points are call stacks of
(instance, block).  States meeting at a control point are merged exactly when they differ in
one character class only; at loop heads they are joined lossily (a relational join that keeps
every equality, up to a constant offset, between program and observer values) until a fixpoint
is reached.  Nothing is executed and no path is handed to a solver: every transfer function is
a finite table/interval/character-class operation.
"""
import heapq
import sys
import time

sys.setrecursionlimit(20000)


class S:
    """Symbolic name; meaning (type, class, interval) lives in State.attr."""
    __slots__ = ("i",)
    n = 0

    def __init__(self):
        S.n += 1
        self.i = S.n

    def __repr__(self):
        return "s%d" % self.i

    def __lt__(self, o):
        return self.i < o.i


class Infeasible(Exception):
    pass


class Expired(Exception):
    """The time allowed for the analysis is used up."""


class Stop(Exception):
    """A violation was found and one is enough."""


class Unmodelled(Exception):
    """A construct the analysis has no transfer function for."""


UNIT = ("A", 0, ())
TOP = ("?",)
_cc = {}


def C(k):
    k = int(k)
    r = _cc.get(k)
    if r is None:
        r = ("i", (), k)
        if -1000 < k < 0x11000:
            _cc[k] = r
    return r


TRUE, FALSE = C(1), C(0)
NONE = ("A", 0, ())


def some(v):
    return ("A", 1, (v,))


def ok(v):
    return ("A", 0, (v,))


def err(v):
    return ("A", 1, (v,))


def isconst(v):
    return v[0] == "i" and not v[1]


def symv(s):
    return ("i", ((s, 1),), 0)


def lin(terms, k):
    t = {}
    for s, c in terms:
        t[s] = t.get(s, 0) + c
    r = tuple(sorted((s, c) for s, c in t.items() if c))
    if not r:
        return C(k)
    return ("i", r, k)


def ladd(a, b, m=1):
    if not b[1]:
        if not a[1]:
            return C(a[2] + m * b[2])
        return ("i", a[1], a[2] + m * b[2])
    return lin(a[1] + tuple((s, c * m) for s, c in b[1]), a[2] + m * b[2])


def lmul(a, k):
    if k == 0:
        return C(0)
    return lin(tuple((s, c * k) for s, c in a[1]), a[2] * k)


def lit(s):
    return tuple(("e", C(ord(c))) for c in s)


def parts_const(p):
    """Literal text of a parts list, or None."""
    out = []
    for x in p:
        if x[0] != "e" or not isconst(x[1]):
            return None
        out.append(chr(x[1][2]))
    return "".join(out)


class Frame:
    __slots__ = ("inst", "body", "bb", "loc", "dest", "tgt")

    def __init__(self, inst, body, bb, loc, dest, tgt):
        self.inst, self.body, self.bb, self.loc, self.dest, self.tgt = inst, body, bb, loc, dest, tgt

    def copy(self):
        return Frame(self.inst, self.body, self.bb, dict(self.loc), self.dest, self.tgt)


class St:
    __slots__ = ("fr", "heap", "attr", "facts", "g", "unc", "hist")

    def __init__(self):
        self.fr = []
        self.heap = {}
        self.attr = {}
        self.facts = {}
        self.g = {}
        self.unc = ()
        self.hist = {}

    def copy(self):
        n = St.__new__(St)
        n.fr = [f.copy() for f in self.fr]
        n.heap = dict(self.heap)
        n.attr = dict(self.attr)
        n.facts = dict(self.facts)
        n.g = dict(self.g)
        n.unc = self.unc
        n.hist = dict(self.hist)
        return n

    def uncertain(self, why):
        if why not in self.unc:
            self.unc = self.unc + (why,)


# ---------------------------------------------------------------- substitution
def vsub(v, f):
    """f: dict Sym -> replacement (int value for int symbols, parts tuple for string symbols,
    value for opaque)."""
    t = v[0] if v else None
    if t == "i":
        if v[1]:
            for s, c in v[1]:
                if s in f:
                    break
            else:
                return v
            acc = C(v[2])
            for s, c in v[1]:
                r = f.get(s)
                acc = ladd(acc, lmul(r if r is not None else symv(s), c))
            return acc
        return v
    if t == "o":
        r = f.get(v[1])
        return v if r is None else r
    out = None
    for i, x in enumerate(v):
        if type(x) is tuple and x:
            if x[0] == "S" and type(x[1]) is S:
                r = f.get(x[1])
                if r is not None:
                    if out is None:
                        out = list(v[:i])
                    out.extend(r)
                elif out is not None:
                    out.append(x)
                continue
            y = vsub(x, f)
            if y is not x and out is None:
                out = list(v[:i])
            if out is not None:
                out.append(y)
        elif type(x) is S:
            r = f.get(x)
            if r is not None:
                if out is None:
                    out = list(v[:i])
                out.append(r)
            elif out is not None:
                out.append(x)
        elif out is not None:
            out.append(x)
    return v if out is None else tuple(out)


def st_sub(st, f):
    for fr in st.fr:
        loc = fr.loc
        for k, v in loc.items():
            n = vsub(v, f)
            if n is not v:
                loc[k] = n
    for k, v in st.heap.items():
        n = vsub(v, f)
        if n is not v:
            st.heap[k] = n
    for k, v in st.g.items():
        n = vsub(v, f)
        if n is not v:
            st.g[k] = n
    nf = None
    for k, v in list(st.facts.items()):
        nk = vsub(k, f)
        nv = vsub(v, f) if type(v) is tuple else v
        if nk is not k or nv is not v:
            del st.facts[k]
            add_fact(st, nk, nv)
    for s in f:
        st.attr.pop(s, None)


def add_fact(st, k, v):
    if k[0] == "ne":
        c = parts_const(k[1])
        if c is not None:
            if c in v:
                raise Infeasible()
            return
        o = st.facts.get(k)
        st.facts[k] = (v | o) if o else v
    elif k[0] == "def" and type(v) is tuple and type(v[0]) is not S:
        if v[0][0] == "i" and len(v[0][1]) == 1 and v[0][1][0][1] == 1 and v[0][2] == 0:
            st.facts[k] = (v[0][1][0][0],)
    else:
        st.facts[k] = v


# ---------------------------------------------------------------- canonical form
CLOSED = {}


class Canon:
    def __init__(self, st):
        self.num = {}
        self.order = []
        self.st = st

    def val(self, v):
        r = CLOSED.get(id(v))
        if r is not None and r is v:
            return v
        out = []
        same = True
        for x in v:
            tx = type(x)
            if tx is tuple:
                y = self.val(x)
                if y is not x:
                    same = False
                out.append(y)
            elif tx is S:
                k = self.num.get(x)
                if k is None:
                    k = self.num[x] = len(self.order)
                    self.order.append(x)
                out.append(("$", k))
                same = False
            else:
                out.append(x)
        if same:
            # no symbols inside: the value is its own canonical form
            if len(CLOSED) > 200000:
                CLOSED.clear()
            CLOSED[id(v)] = v
            return v
        return tuple(out)


def canon(st, depth0=0):
    c = Canon(st)
    out = []
    for f in st.fr:
        out.append((f.inst.id, f.bb, f.dest and c.val(f.dest)))
        for k in sorted(f.loc):
            out.append((k, c.val(f.loc[k])))
    for k in sorted(st.g):
        out.append((k, c.val(st.g[k])))
    # heap cells reachable so far are renumbered implicitly by insertion order
    for k in sorted(st.heap):
        out.append((k, c.val(st.heap[k])))
    fs = []
    for k, v in st.facts.items():
        ss = syms_of(k)
        if all(s in c.num for s in ss):
            vv = c.val(v) if type(v) is tuple else ((v,) if not isinstance(v, frozenset) else tuple(sorted(v)))
            fs.append((c.val(k), vv))
    fs.sort(key=repr)
    out.append(tuple(fs))
    out.append(st.unc)
    attrs = tuple(st.attr.get(s) for s in c.order)
    return tuple(out), attrs, c.order


def outline(st):
    """Cheap key that states with equal canonical form share."""
    def o(v, d):
        t = v[0] if v else None
        if t == "i":
            return len(v[1]), v[2]
        if t == "A" and d:
            return v[1], tuple([o(x, d - 1) for x in v[2]])
        return t
    g = st.g
    w = g.get("win")
    k = [g.get("m"), len(w[2]) if w else 0, len(g), tuple([f.bb for f in st.fr])]
    for n in ("eof", "cr", "so", "op", "nl", "pos", "$ret"):
        v = g.get(n)
        if v is not None:
            k.append(o(v, 6))
    if st.fr:
        loc = st.fr[-1].loc
        for n in sorted(loc):
            k.append((n, o(loc[n], 5)))
    return tuple(k)


def syms_of(v, acc=None):
    if acc is None:
        acc = []
    for x in v:
        if type(x) is tuple:
            syms_of(x, acc)
        elif type(x) is S:
            acc.append(x)
    return acc


def gc(st):
    live = set()
    for f in st.fr:
        for v in f.loc.values():
            live.update(syms_of(v))
    for v in st.g.values():
        live.update(syms_of(v))
    for v in st.heap.values():
        live.update(syms_of(v))
    ch = True
    facts = {}
    rest = dict(st.facts)
    while ch:
        ch = False
        for k in list(rest):
            if all(s in live for s in syms_of(k)):
                v = rest.pop(k)
                facts[k] = v
                if type(v) is tuple:
                    n = set(syms_of(v)) - live
                    if n:
                        live |= n
                        ch = True
    st.facts = facts
    st.attr = {s: a for s, a in st.attr.items() if s in live}


def tail_len(p):
    n = 0
    for x in reversed(p):
        if x[0] != "e":
            return n
        n += 1
    return n


# ---------------------------------------------------------------- relational join
class Join:
    """Joins two states of equal shape."""

    def __init__(self, eng, a, b, widen):
        self.e, self.a, self.b, self.w = eng, a, b, widen
        self.map = {}
        self.attr = {}
        self.anchor = set()
        self.ends = []
        self.pairs = set()
        self.bases = set()

    # -- attributes
    def jattr(self, x, y):
        if x[0] == "c" and y[0] == "c":
            return ("c", x[1] | y[1])
        if x[0] == "s":
            musts = frozenset(m for m in x[3] | y[3] if m in x[3] and m in y[3])
            return ("s", self.jel(x[1], y[1]), min(x[2], y[2]), musts)
        if x[0] == "o":
            return x
        raise Unmodelled("join attr %r %r" % (x, y))

    def jel(self, x, y):
        if x is None:
            return y
        if y is None:
            return x
        if type(x) is tuple and type(y) is tuple:
            return (min(x[0], y[0]), max(x[1], y[1]))
        if type(x) is tuple or type(y) is tuple:
            return (0, (1 << 64) - 1)
        return x | y

    def fresh(self, key, attr):
        s = S()
        self.map[key] = s
        self.attr[s] = attr
        return s

    def ischar(self, st, v):
        return len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0 and st.attr[v[1][0][0]][0] == "c"

    def int(self, x, y):
        if x == y and not x[1]:
            return x
        if (x, y) in self.pairs or self.ischar(self.a, x) and not y[1] and 0 <= y[2] <= 0x10FFFF or \
                self.ischar(self.b, y) and not x[1] and 0 <= x[2] <= 0x10FFFF:
            key = ("ch", x, y)
            s = self.map.get(key)
            if s is None:
                m = [self.e.cd.of(v[2]) if not v[1] else st.attr[v[1][0][0]][1] for st, v in ((self.a, x), (self.b, y))]
                s = self.fresh(key, ("c", m[0] | m[1]))
            return symv(s)
        if len(x[1]) > 1 and len(x[1]) == len(y[1]):
            bx = sorted(x[1], key=lambda t: (t[1], t[0]))
            by = sorted(y[1], key=lambda t: (t[1], t[0]))
            if all(p[1] == q[1] for p, q in zip(bx, by)):
                acc = self.int(C(x[2]), C(y[2]))
                for p, q in zip(bx, by):
                    acc = ladd(acc, lmul(self.int(symv(p[0]), symv(q[0])), p[1]))
                return acc
        from math import gcd
        g = 0
        for _, c in x[1] + y[1]:
            g = gcd(g, c)
        g = gcd(g, y[2] - x[2]) if (x[1] or y[1]) else 1
        g = abs(g) or 1
        if g > 1:
            tx = tuple((s, c // g) for s, c in x[1])
            ty = tuple((s, c // g) for s, c in y[1])
        else:
            tx, ty = x[1], y[1]
        dk = (y[2] - x[2]) // g
        key = ("i", tx, ty, dk)
        s = self.map.get(key)
        if s is None:
            e, a, b = self.e, self.a, self.b
            ca = cb = None
            if x[2] == 0 and g == 1 and (tx or ty):
                ca, cb = e.charset(a, ("i", tx, 0)), e.charset(b, ("i", ty, dk))
            if ca is not None and cb is not None:
                at = ("c", ca | cb)
            else:
                l1, h1 = e.bounds(a, ("i", tx, 0))
                l2, h2 = e.bounds(b, ("i", ty, dk))
                slow = g == 1 and e.slowish(a, tx) and e.slowish(b, ty) and abs(dk) <= 16
                lo, hi = min(l1, l2), max(h1, h2)
                if self.w:
                    if lo < l1:
                        lo = -x[2] if g == 1 and lo >= -x[2] else 0 if lo >= 0 else -(1 << 63)
                    if hi > h1:
                        hi = next(t for t in THRESH if hi <= t) if hi <= THRESH[-1] else hi
                if slow:
                    hi = min(hi, 1 << 40)
                at = ("n", lo, hi, slow)
            s = self.fresh(key, at)
        return ("i", ((s, g),), x[2])

    def elem_attr(self, st, p):
        """(element class, min length, musts) of a parts list."""
        el = None
        n = 0
        musts = []
        for x in p:
            if x[0] == "e":
                n += 1
                c = self.e.charset(st, x[1])
                if c is not None:
                    el = self.jel(el, c)
                    musts.append(c)
                else:
                    el = self.jel(el, self.e.bounds(st, x[1]))
            else:
                at = st.attr[x[1]]
                el = self.jel(el, at[1])
                n += at[2]
                musts.extend(at[3])
        return el, n, musts

    def alike(self, x, y):
        if x == y:
            return True
        c = self.e.charset(self.a, x)
        return c is not None and c == self.e.charset(self.b, y)

    def parts(self, pa, pb):
        if not pa and not pb:
            return ()
        if pa and pb and pa[-1][0] == "S" and pb[-1][0] == "S" and (pa[-1][1], pb[-1][1]) in self.anchor \
                and (len(pa) > 1 or len(pb) > 1):
            return self.parts(pa[:-1], pb[:-1]) + self.parts(pa[-1:], pb[-1:])
        # on one side an iterator over the string is at its end
        for ca, cb in self.ends:
            if (len(ca) < len(pa) if ca else len(cb) < len(pb)) and pa[len(pa) - len(ca):] == ca and pb[len(pb) - len(cb):] == cb:
                return self.parts(pa[:len(pa) - len(ca)], pb[:len(pb) - len(cb)]) + self.rest(ca, cb)
        # strings that extend another string of the state by a few known characters
        for k in range(1, 5):
            if len(pa) < k or len(pb) < k or pa[-k][0] != "e" or pb[-k][0] != "e":
                break
            if (pa[:-k], pb[:-k]) in self.bases:
                return self.parts(pa[:-k], pb[:-k]) + tuple(
                    ("e", self.int(x[1], y[1])) for x, y in zip(pa[-k:], pb[-k:]))
        ta, tb = tail_len(pa), tail_len(pb)
        if ta < len(pa) or tb < len(pb):
            n = 0
            if ta == tb:
                while n < ta and self.alike(pa[-1 - n][1], pb[-1 - n][1]):
                    n += 1
                if n:
                    return self.parts(pa[:-n], pb[:-n]) + tuple(
                        ("e", self.int(x[1], y[1])) for x, y in zip(pa[-n:], pb[-n:]))
        if pa and pb and pa[0][0] == "e" and pb[0][0] == "e":
            if self.loses(pa, pb):
                if not self.alike(pa[0][1], pb[0][1]):
                    return self.rest(pa, pb)
                return (("e", self.int(pa[0][1], pb[0][1])),) + self.rest(pa[1:], pb[1:])
            if len(pa) == len(pb) and all(x[0] == "e" for x in pa) and all(x[0] == "e" for x in pb):
                return tuple(("e", self.int(x[1], y[1])) for x, y in zip(pa, pb))
            h = ("e", self.int(pa[0][1], pb[0][1]))
            return (h,) + self.rest(pa[1:], pb[1:])
        return self.rest(pa, pb)

    def loses(self, pa, pb):
        """Would joining the two part lists element by element forget that both contain an element
        of one of the classes the specification cares about?"""
        for m in self.e.keep_musts:
            if not (self.has(self.a, pa, m) and self.has(self.b, pb, m)):
                continue
            if len(pa) == len(pb) and all(x[0] == "e" for x in pa + pb):
                if not any(self.has(self.a, (x,), m) and self.has(self.b, (y,), m) for x, y in zip(pa, pb)):
                    return True
            elif not (self.has(self.a, pa[:1], m) and self.has(self.b, pb[:1], m)
                      or self.has(self.a, pa[1:], m) and self.has(self.b, pb[1:], m)):
                return True
        return False

    def has(self, st, parts, m):
        return any(x & ~m == 0 for x in self.elem_attr(st, parts)[2])

    def rest(self, pa, pb):
        if not pa and not pb:
            return ()
        key = ("p", pa, pb)
        s = self.map.get(key)
        if s is None:
            e1, n1, m1 = self.elem_attr(self.a, pa)
            e2, n2, m2 = self.elem_attr(self.b, pb)
            el = self.jel(e1, e2)
            musts = set()
            if type(el) is int:
                for m in set(m1 + m2):
                    if m != el and any(x & ~m == 0 for x in m1) and any(x & ~m == 0 for x in m2):
                        musts.add(m)
            if self.w and type(el) is tuple and type(e1) is tuple and el != e1:
                el = (0, (1 << 64) - 1)
            s = self.fresh(key, ("s", el, min(n1, n2, 2), frozenset(musts)))
        return (("S", s),)

    def sym(self, x, y):
        if self.a.attr[x][0] in ("c", "n") and self.b.attr[y][0] in ("c", "n"):
            return self.int(symv(x), symv(y))[1][0][0]
        key = ("y", x, y)
        s = self.map.get(key)
        if s is None:
            s = self.fresh(key, self.jattr(self.a.attr[x], self.b.attr[y]))
        return s

    def val(self, x, y):
        if x is y and not has_sym(x):
            return x
        t = x[0] if x else None
        if type(t) is tuple:
            if len(x) != len(y):
                return TOP
            return tuple(self.any(p, q) for p, q in zip(x, y))
        if t != (y[0] if y else None):
            return TOP
        if t == "i":
            return self.int(x, y)
        if t in ("q", "str", "chars", "rchars") and x[1] in ("c", "n"):
            return (t, x[1], self.parts(x[2], y[2])) + tuple(
                self.any(p, q) for p, q in zip(x[3:], y[3:]))
        if t == "f":
            return self.flt(x, y)
        if t == "?":
            return x
        if len(x) != len(y):
            return TOP
        return tuple(self.any(p, q) for p, q in zip(x, y))

    def flt(self, x, y):
        def norm(v, o):
            # 0.0 is the empty Horner sum
            if v[1] == "const" and v[2] == 0.0 and o[1] == "horner":
                return ("f", "horner", o[2], ())
            return v
        x, y = norm(x, y), norm(y, x)
        if x[1] == "horner" and y[1] == "horner" and x[2] == y[2]:
            return ("f", "horner", x[2], self.parts(x[3], y[3]))
        if x[1] == "parse" and y[1] == "parse":
            return ("f", "parse", self.text(x[2], y[2]))
        if x == y and not has_sym(x):
            return x
        key = ("fl", x, y)
        s = self.map.get(key)
        if s is None:
            s = self.fresh(key, ("o", None))
        return ("f", "sym", s)

    def text(self, x, y):
        """Numeric text: joined part by part between equal separators."""
        def split(p):
            seps, segs = [], [[]]
            for v in p:
                if v[0] == "e" and isconst(v[1]) and v[1][2] in (43, 45, 46, 69, 101):
                    seps.append(v)
                    segs.append([])
                else:
                    segs[-1].append(v)
            return seps, segs
        sx, gx = split(x)
        sy, gy = split(y)
        if sx != sy:
            return self.parts(x, y)
        out = list(self.parts(tuple(gx[0]), tuple(gy[0])))
        for v, p, q in zip(sx, gx[1:], gy[1:]):
            out.append(v)
            out.extend(self.parts(tuple(p), tuple(q)))
        return tuple(out)

    def any(self, x, y):
        if type(x) is tuple and type(y) is tuple:
            return self.val(x, y)
        if type(x) is S and type(y) is S:
            return self.sym(x, y)
        if x == y:
            return x
        return TOP

    def anchors(self, x, y):
        if type(x) is not tuple or type(y) is not tuple or not x or not y or x[0] != y[0]:
            return
        if x[0] in ("chars", "rchars"):
            if x[2] and y[2] and x[2][-1][0] == "S" and y[2][-1][0] == "S":
                self.anchor.add((x[2][-1][1], y[2][-1][1]))
            elif bool(x[2]) != bool(y[2]):
                self.ends.append((x[2], y[2]))
            return
        if x[0] == "i":
            return
        if x[0] in ("q", "str") and x[1] == "c":
            self.bases.add((x[2], y[2]))
            for p, q in zip(x[2], y[2]):
                if p[0] != "e" or q[0] != "e":
                    break
                if p != q and not p[1][1] and not q[1][1]:
                    self.pairs.add((p[1], q[1]))
            return
        for p, q in zip(x, y):
            if type(p) is tuple:
                self.anchors(p, q)

    def run(self):
        a, b = self.a, self.b
        n = St()
        for f, g in zip(a.fr, b.fr):
            for k in f.loc:
                if k in g.loc:
                    self.anchors(f.loc[k], g.loc[k])
        for k in a.g:
            if k in b.g:
                self.anchors(a.g[k], b.g[k])
        for k in a.heap:
            if k in b.heap:
                self.anchors(a.heap[k], b.heap[k])
        for f, g in zip(a.fr, b.fr):
            loc = {}
            for k in sorted(f.loc):
                if k in g.loc:
                    loc[k] = self.val(f.loc[k], g.loc[k])
            n.fr.append(Frame(f.inst, f.body, f.bb, loc, f.dest and self.val(f.dest, g.dest), f.tgt))
        for k in sorted(a.g):
            if k in b.g:
                n.g[k] = self.val(a.g[k], b.g[k])
        for k in sorted(a.heap):
            if k in b.heap:
                n.heap[k] = self.val(a.heap[k], b.heap[k])
        n.attr = self.attr
        # facts known on both sides under the pairing
        inv = {}
        for k, s in self.map.items():
            if k[0] == "i" and len(k[1]) == 1 and len(k[2]) == 1 and k[3] == 0:
                inv[(k[1][0][0], k[2][0][0])] = s
            elif k[0] == "ch" and len(k[1][1]) == 1 and len(k[2][1]) == 1:
                inv[(k[1][1][0][0], k[2][1][0][0])] = s
            elif k[0] == "y":
                inv[(k[1], k[2])] = s
        bf = {}
        for k in b.facts:
            bf.setdefault(k[0], []).append(k)
        for k, v in a.facts.items():
            for k2 in bf.get(k[0], ()):
                v2 = b.facts[k2]
                if k[0] == "ne":
                    r = self.lookup_parts(k[1], k2[1])
                    if r is not None:
                        w = v & v2
                        if w:
                            n.facts[("ne", r)] = w
                elif k[0] == "def" and k[1] == k2[1] == "lin" and len(k[2]) == len(k2[2]):
                    nk = self.quiet(lambda: self.int(("i", k[2], 0), ("i", k2[2], 0)))
                    if nk is not None and len(nk[1]) > 1 and nk[2] == 0:
                        p, q = self.a.attr[v[0]], self.b.attr[v2[0]]
                        if p[0] == q[0] == "n" and not (self.w and (q[1] < p[1] or q[2] > p[2])):
                            s = S()
                            n.attr[s] = ("n", min(p[1], q[1]), max(p[2], q[2]), False)
                            n.facts[("def", "lin", nk[1])] = (s,)
                elif k[0] == "def":
                    s = inv.get((v[0], v2[0]))
                    if s is not None and k[1] == k2[1] and len(k) == len(k2):
                        nk = self.quiet(lambda: tuple(self.any(p, q) for p, q in zip(k, k2)))
                        if nk is not None and TOP not in nk:
                            n.facts[nk] = (s,)
                    elif s is None and k[1] == k2[1] and k[1] in ("chr", "dig"):
                        nk = self.quiet(lambda: tuple(self.any(p, q) for p, q in zip(k, k2)))
                        if nk is not None and TOP not in nk and nk not in n.facts:
                            p, q = self.a.attr[v[0]], self.b.attr[v2[0]]
                            s = S()
                            n.attr[s] = ("c", p[1] | q[1]) if p[0] == "c" else \
                                ("n", min(p[1], q[1]), max(p[2], q[2]), False)
                            n.facts[nk] = (s,)
                elif k[0] == "var":
                    s = inv.get((k[1], k2[1]))
                    if s is not None and v == v2:
                        n.facts[("var", s)] = v
        n.unc = a.unc + tuple(x for x in b.unc if x not in a.unc)
        n.hist = {}
        return n

    def lookup_parts(self, pa, pb):
        """Parts of the joined state standing for (pa, pb), without inventing new names."""
        return self.quiet(lambda: self.parts(pa, pb))

    def quiet(self, f):
        before = len(self.map)
        saved = dict(self.map)
        sa = dict(self.attr)
        r = f()
        if len(self.map) != before:
            self.map.clear()
            self.map.update(saved)
            self.attr.clear()
            self.attr.update(sa)
            return None
        return r


def has_sym(v):
    for x in v:
        tx = type(x)
        if tx is S:
            return True
        if tx is tuple and has_sym(x):
            return True
    return False


# ---------------------------------------------------------------- partition keys
CURSORS = []


def texts(v, out):
    """The part lists of all strings in a value."""
    if type(v) is tuple and v:
        if v[0] in ("q", "str"):
            if len(v) > 2 and v[1] in ("c", "n"):
                out.add(v[2])
        elif v[0] not in ("chars", "rchars", "i", "f", "r"):
            for x in v:
                if type(x) is tuple:
                    texts(x, out)


def shape(v, consts, attr):
    """Skeleton of a value; integer constants are appended to `consts`."""
    t = v[0] if v else None
    if t == "i":
        if not v[1]:
            consts.append(v[2])
        else:
            x = attr[v[1][0][0]]
            consts.append("#" if x[0] != "n" or x[2] - x[1] < 65536 else "*")
        return "i"
    if t in ("q", "str", "chars", "rchars") and v[1] in ("c", "n"):
        head = "*"
        if t == "chars":
            CURSORS.append(v[2])
            # how many known characters come next
            n = 0
            for x in v[2]:
                if x[0] != "e" or n == 3:
                    break
                n += 1
            head = n
        return (t, v[1], head) + tuple(shape(x, consts, attr) if type(x) is tuple else x for x in v[3:])
    if t == "f":
        return "f"
    if t == "m":
        return v
    out = []
    for x in v:
        tx = type(x)
        if tx is tuple:
            out.append(shape(x, consts, attr))
        elif tx is S:
            out.append("$")
        else:
            out.append(x)
    return tuple(out)


# interval bounds tried, in order, when a loop keeps raising a number
THRESH = (15, 255, 0xFFFF, 0x10FFFF, 0xFFFFFFF, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)


class Engine:
    MAXCONST = 8
    MAXSLOTS = 24

    def __init__(self, prog, cd, models, monitor=None, limit=20000000):
        self.p = prog
        self.cd = cd
        self.models = models
        self.mon = monitor
        self.events = []
        self.limit = limit
        self.steps = 0
        self.unmod = {}
        self.visited = set()
        self.heads = {}
        self.keep_musts = ()
        self.masks = {}
        self.hid = 0
        self.active = []
        self.outer = []
        self.nslots = 0
        self.ptids = {}
        self.delivered = {}
        self.weights = {}
        self.progress_check = True

    # ------------------------------------------------------------ numeric facts
    def charset(self, st, v):
        """Mask for a character-valued expression (symbol, constant), else None."""
        if v[0] != "i":
            return None
        if not v[1]:
            return self.cd.of(v[2]) if 0 <= v[2] <= 0x10FFFF and self.cd.exact(v[2]) else None
        if len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
            a = st.attr[v[1][0][0]]
            if a[0] == "c":
                return a[1]
        return None

    def bounds(self, st, v):
        lo = hi = v[2]
        for s, c in v[1]:
            a = st.attr[s]
            if a[0] == "c":
                l, h = self.cd.min(a[1]), self.cd.max(a[1])
            elif a[0] == "n":
                l, h = a[1], a[2]
            else:
                l, h = 0, (1 << 64) - 1
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if len(v[1]) > 1:
            n = st.facts.get(("def", "lin", v[1]))
            if n is not None:
                a = st.attr.get(n[0])
                if a is not None and a[0] == "n":
                    lo, hi = max(lo, a[1] + v[2]), min(hi, a[2] + v[2])
        return lo, hi

    def slowish(self, st, terms):
        if not terms:
            return True
        if len(terms) != 1 or terms[0][1] != 1:
            return False
        a = st.attr[terms[0][0]]
        return a[0] == "n" and a[3]

    def newsym(self, st, attr):
        s = S()
        st.attr[s] = attr
        return s

    def define(self, st, key, attr):
        """Symbol standing for an uninterpreted term; equal terms share it."""
        k = ("def",) + key
        v = st.facts.get(k)
        if v is None:
            v = (self.newsym(st, attr),)
            st.facts[k] = v
        return v[0]

    def refine_char(self, st, s, mask):
        """Restrict character symbol s; raises Infeasible."""
        a = st.attr[s]
        m = a[1] & mask
        if not m:
            raise Infeasible()
        st.attr[s] = ("c", m)

    def refine_int(self, st, s, lo, hi):
        a = st.attr[s]
        if a[0] == "c":
            m = a[1]
            x = 0
            k = 0
            mm = m
            while mm:
                if mm & 1:
                    l, h, _ = self.cd.atoms[k]
                    if h >= lo and l <= hi:
                        x |= 1 << k
                mm >>= 1
                k += 1
            if not x:
                raise Infeasible()
            st.attr[s] = ("c", x)
            return
        if a[0] != "n":
            return
        l, h = max(a[1], lo), min(a[2], hi)
        if l > h:
            raise Infeasible()
        st.attr[s] = ("n", l, h, a[3])
        k = None
        for key, v in st.facts.items():
            if key[0] == "def" and v[0] is s and key[1] == "len":
                k = key
                break
        if k is not None:
            x = k[2]
            at = st.attr.get(x)
            if at is not None:
                if h == 0:
                    if at[2] > 0:
                        raise Infeasible()
                    st_sub(st, {x: (), s: C(0)})
                elif l > 0 and at[2] < 1:
                    st.attr[x] = ("s", at[1], 1, at[3])

    def cmp(self, st, op, a, b):
        """Outcomes of `a op b`: list of (state, bool)."""
        if a[0] != "i" or b[0] != "i":
            return self.fork_unknown(st, "comparison of unmodelled values")
        d = ladd(a, b, -1)
        # d op 0
        if not d[1]:
            k = d[2]
            return [(st, {"Eq": k == 0, "Ne": k != 0, "Lt": k < 0, "Le": k <= 0, "Gt": k > 0, "Ge": k >= 0}[op])]
        neg = {"Ne": "Eq", "Ge": "Lt", "Gt": "Le"}
        flip = False
        if op in neg:
            op = neg[op]
            flip = True
        res = self._cmp0(st, op, d)
        return [(s, r != flip) for s, r in res]

    def _cmp0(self, st, op, d):
        if self.literal:
            raise Infeasible()
        # op in Eq, Lt, Le
        if op == "Le":
            d = ("i", d[1], d[2] - 1)
            op = "Lt"
        lo, hi = self.bounds(st, d)
        if op == "Lt":
            if hi < 0:
                return [(st, True)]
            if lo >= 0:
                return [(st, False)]
        else:
            if lo > 0 or hi < 0:
                return [(st, False)]
        if len(d[1]) == 1:
            s, c = d[1][0]
            at = st.attr[s]
            if at[0] == "c" and abs(c) == 1:
                return self._cmp_char(st, op, s, c, d[2])
            if at[0] == "n":
                return self._cmp_int(st, op, s, c, d[2])
        if op == "Eq" and len(d[1]) == 2 and d[2] == 0:
            (s1, c1), (s2, c2) = d[1]
            if c1 == -c2 and abs(c1) == 1 and st.attr[s1][0] == "c" and st.attr[s2][0] == "c":
                m = st.attr[s1][1] & st.attr[s2][1]
                if not m:
                    return [(st, False)]
                for x, y in ((s1, s2), (s2, s1)):
                    mx = st.attr[x][1]
                    if bin(mx).count("1") <= 4:
                        out = []
                        k = 0
                        exact = True
                        vals = []
                        while mx >> k:
                            if mx >> k & 1:
                                v = self.cd.single(1 << k)
                                if v is None:
                                    exact = False
                                vals.append((1 << k, v))
                            k += 1
                        if not exact:
                            continue
                        for bit, v in vals:
                            n = st.copy()
                            n.attr[x] = ("c", bit)
                            for r in self._split_char(n, y, self.cd.of(v)):
                                out.append(r)
                        return out
        # general linear comparison: give the whole expression a name so that the outcome is
        # remembered through its interval
        return self._cmp_named(st, op, d)

    def _cmp_named(self, st, op, d):
        key = d[1]
        s = self.define(st, ("lin", key), ("n",) + self.bounds(st, ("i", key, 0)) + (False,))
        return self._cmp_int(st, op, s, 1, d[2])

    def _split_char(self, st, s, mask):
        m = st.attr[s][1]
        out = []
        if m & mask:
            if m & ~mask:
                n = st.copy()
                n.attr[s] = ("c", m & ~mask)
                out.append((n, False))
                st.attr[s] = ("c", m & mask)
            out.append((st, True))
        else:
            out.append((st, False))
        return out

    def _cmp_char(self, st, op, s, c, k):
        cd = self.cd
        # c*s + k op 0
        if op == "Eq":
            v = -k * c
            m = cd.of(v) if 0 <= v <= 0x10FFFF else 0
            if not m:
                return [(st, False)]
            if cd.exact(v):
                return self._split_char(st, s, m)
            n = st.copy()
            n.attr[s] = ("c", st.attr[s][1] & m)
            return [(n, True), (st, False)]
        if c == 1:   # s < -k
            d, p = cd.lt(-k)
            tm, fm = p, cd.ALL & ~d
        else:        # -s + k < 0  <=>  s > k  <=> not s < k+1
            d, p = cd.lt(k + 1)
            tm, fm = cd.ALL & ~d, p
        out = []
        m = st.attr[s][1]
        if m & tm:
            n = st.copy()
            n.attr[s] = ("c", m & tm)
            out.append((n, True))
        if m & fm:
            n = st.copy()
            n.attr[s] = ("c", m & fm)
            out.append((n, False))
        return out

    def _cmp_int(self, st, op, s, c, k):
        out = []

        def ref(lo, hi, r):
            n = st.copy()
            try:
                self.refine_int(n, s, lo, hi)
            except Infeasible:
                return
            out.append((n, r))
        INF = 1 << 70
        if op == "Eq":
            if k % c:
                return [(st, False)]
            v = -k // c
            ref(v, v, True)
            if out:
                n = out[0][0]
                if n.attr.get(s, ("",))[0] == "n":
                    st_sub(n, {s: C(v)})
            a = st.attr[s]
            if a[1] == v:
                ref(v + 1, INF, False)
            elif a[2] == v:
                ref(-INF, v - 1, False)
            else:
                out.append((st.copy(), False))
            return out
        # c*s < -k
        if c > 0:
            t = (-k - 1) // c        # s <= t
            ref(-INF, t, True)
            ref(t + 1, INF, False)
        else:
            t = k // (-c) + 1        # s >= t
            ref(t, INF, True)
            ref(-INF, t - 1, False)
        return out

    def fork_unknown(self, st, why):
        n = st.copy()
        n.uncertain(why)
        st.uncertain(why)
        return [(st, True), (n, False)]

    # ------------------------------------------------------------ memory
    def base_get(self, st, base):
        if base[0] == "L":
            v = st.fr[base[1]].loc.get(base[2])
            if v is None:
                raise Unmodelled("read of unset local _%d in %s" % (base[2], st.fr[base[1]].inst.name))
            return v
        if base[0] == "H":
            return st.heap[base[1]]
        return base[1]

    def base_set(self, st, base, v):
        if base[0] == "L":
            st.fr[base[1]].loc[base[2]] = v
        elif base[0] == "H":
            st.heap[base[1]] = v
        else:
            raise Unmodelled("write through shared constant")

    def proj(self, st, v, e):
        t = v[0]
        if type(e) is int:
            if t == "A":
                if e < len(v[2]):
                    return v[2][e]
                raise Unmodelled("field %d of %r" % (e, v[:2]))
            if t == "?":
                return TOP
            if t == "box" and e == 0:
                return v
            raise Unmodelled("field of %s value" % t)
        if e[0] == "x":
            if t in ("q", "str", "dq"):
                p = v[2]
                i = e[1]
                if i < 0:
                    i += len(p)
                if any(x[0] != "e" for x in p[:i + 1]):
                    raise Unmodelled("index into abstract sequence")
                return p[i][1]
            if t == "?":
                return TOP
        if e[0] == "sub":
            if t in ("q", "str", "dq"):
                lo, hi = e[1], e[2]
                p = v[2]
                return ("str", v[1], p[lo:hi if hi is not None else len(p)])
        raise Unmodelled("projection %r of %s" % (e, t))

    def inj(self, st, v, path, nv, i=0):
        if i == len(path):
            return nv
        e = path[i]
        if type(e) is int:
            if v[0] == "o":
                v = self.expand(st, v)
            if v[0] == "?":
                return v
            if v[0] != "A" or e >= len(v[2]):
                raise Unmodelled("write to field of %s" % v[0])
            f = v[2]
            return ("A", v[1], f[:e] + (self.inj(st, f[e], path, nv, i + 1),) + f[e + 1:])
        if e[0] == "x" and v[0] in ("q", "dq"):
            p = v[2]
            k = e[1]
            if any(x[0] != "e" for x in p[:k + 1]) or k >= len(p):
                raise Unmodelled("write into abstract sequence")
            return v[:2] + (p[:k] + (("e", self.inj(st, p[k][1], path, nv, i + 1)),) + p[k + 1:],) + v[3:]
        raise Unmodelled("write projection %r of %s" % (e, v[0]))

    def get(self, st, base, path):
        v = self.base_get(st, base)
        for i, e in enumerate(path):
            if v[0] == "o" and type(e) is int:
                nv = self.expand(st, v)
                if base[0] != "K":
                    self.set(st, base, path[:i], nv)
                v = nv
            v = self.proj(st, v, e)
        return v

    def set(self, st, base, path, nv):
        if not path:
            self.base_set(st, base, nv)
            return
        self.base_set(st, base, self.inj(st, self.base_get(st, base), path, nv))

    def opaque(self, st, ty):
        """A value of which only the type is known."""
        t = self.p.tys[ty]
        k = t.k
        if k == "char":
            return symv(self.newsym(st, ("c", self.cd.ALL)))
        if k == "bool":
            return symv(self.newsym(st, ("n", 0, 1, False)))
        if k == "int":
            b = t.d["bits"]
            if t.d["signed"]:
                return symv(self.newsym(st, ("n", -(1 << (b - 1)), (1 << (b - 1)) - 1, False)))
            return symv(self.newsym(st, ("n", 0, (1 << b) - 1, False)))
        if k == "float":
            return ("f", "sym", self.newsym(st, ("o", ty)))
        if k == "tuple":
            return ("A", 0, tuple(self.opaque(st, x) for x in t.d["f"]))
        if k == "adt":
            n = t.d["name"]
            if n.endswith("string::String"):
                return ("q", "c", (("S", self.newsym(st, ("s", self.cd.ALL, 0, frozenset()))),))
        if k == "ref":
            e = self.p.tys[t.d["e"]]
            if e.k == "str":
                return ("str", "c", (("S", self.newsym(st, ("s", self.cd.ALL, 0, frozenset()))),))
            self.hid += 1
            st.heap[self.hid] = self.opaque(st, t.d["e"])
            return ("r", ("H", self.hid), ())
        return ("o", self.newsym(st, ("o", ty)))

    def expand(self, st, v, variant=None):
        s = v[1]
        ty = st.attr[s][1]
        t = self.p.tys[ty]
        if t.k == "adt" and t.d["adt"] in ("Struct", "Enum"):
            vs = t.d["vars"]
            if variant is None:
                variant = self.lazy_variant(st, s)
                if variant is None:
                    if len(vs) != 1:
                        raise Unmodelled("field of undetermined variant of %s" % t.s)
                    variant = 0
            key = ("exp", s)
            nv = st.facts.get(key)
            if nv is None:
                nv = ("A", variant, tuple(self.opaque(st, f["t"]) for f in vs[variant]["f"]))
                st.facts[key] = nv
            return nv
        raise Unmodelled("expansion of opaque %s" % t.s)

    # ------------------------------------------------------------ places
    def place(self, st, p):
        """Resolve a MIR place to (base, path)."""
        d = len(st.fr) - 1
        base = ("L", d, p[0])
        path = ()
        n = len(p)
        for i in range(1, n):
            e = p[i]
            if e == "*":
                v = self.get(st, base, path)
                if v[0] == "r":
                    base, path = v[1], v[2]
                elif v[0] == "box":
                    base, path = ("H", v[1]), ()
                elif v[0] in ("str", "fmtargs", "dynref") and i == n - 1:
                    return ("K", v), ()
                elif v[0] == "str":
                    base, path = ("K", ("q",) + v[1:]), ()
                elif v[0] == "o":
                    # reference of unknown origin: give it a cell
                    ty = st.attr[v[1]][1]
                    t = self.p.tys[ty]
                    if t.k not in ("ref", "ptr"):
                        raise Unmodelled("deref of opaque %s" % t.s)
                    raise Unmodelled("deref of opaque reference")
                elif v[0] == "?":
                    base, path = ("K", TOP), ()
                else:
                    raise Unmodelled("deref of %s" % v[0])
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "d":
                pass
            elif e[0] == "i":
                iv = st.fr[d].loc[e[1]]
                if not isconst(iv):
                    raise Unmodelled("symbolic index")
                path = path + (("x", iv[2]),)
            elif e[0] == "ci":
                off, fromend = e[1], e[3]
                path = path + (("x", -off if fromend else off),)
            elif e[0] == "ss":
                if e[3]:
                    v = self.get(st, base, path)
                    hi = len(v[2]) - e[2]
                else:
                    hi = e[2]
                path = path + (("sub", e[1], hi),)
            else:
                raise Unmodelled("place element %r" % (e,))
        return base, path

    def place_ty(self, body, p):
        t = body.locals[p[0]]
        for e in p[1:]:
            if e == "*":
                d = self.p.tys[t]
                if d.k in ("ref", "ptr"):
                    t = d.d["e"]
                elif d.k == "adt":
                    t = d.d["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = self.p.tys[t].d.get("e", t)
        return t

    def operand(self, st, o):
        if "k" in o:
            return self.const(st, o["k"])
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            if len(p) == 1:
                v = st.fr[-1].loc.get(p[0])
                if v is None:
                    raise Unmodelled("unset local _%d" % p[0])
                return v
            base, path = self.place(st, p)
            return self.get(st, base, path)
        return FALSE

    def const(self, st, c):
        k = c["k"]
        if k == "s":
            v = c["v"]
            t = self.p.tys[c["t"]]
            if t.k == "float":
                import struct
                if isinstance(v, int):
                    v = struct.unpack("<d", struct.pack("<Q", v))[0] if t.d.get("name") != "F32" else \
                        struct.unpack("<f", struct.pack("<I", v))[0]
                return ("f", "const", v)
            if t.k == "int" and t.d["signed"] and isinstance(v, int) and v >> (t.d["bits"] - 1):
                v -= 1 << t.d["bits"]
            return C(v)
        if k == "str":
            return ("str", "c", lit(c["v"]))
        if k == "zst":
            t = self.p.tys[c["t"]]
            if t.k == "fndef":
                return ("fn", t.d.get("inst"))
            return UNIT
        if k == "fn":
            return ("fn", c["v"])
        if k == "agg":
            return ("A", c.get("var", 0), tuple(self.const(st, x) for x in c["v"]))
        if k == "ref":
            return ("r", ("K", self.const(st, c["v"])), ())
        if k == "slice":
            return ("str", "e", tuple(("e", self.const(st, x)) for x in c["v"]))
        if k == "array":
            return ("q", "e", tuple(("e", self.const(st, x)) for x in c["v"]))
        return TOP

    # ------------------------------------------------------------ events
    def where(self, st):
        return self.outer + [f.inst.name for f in st.fr]

    def event(self, st, kind, msg, span=None, **kw):
        ev = dict(kind=kind, msg=msg, span=span, stack=self.where(st), unc=st.unc, st=st, **kw)
        self.events.append(ev)
        if self.stop_on is not None and not st.unc and self.stop_on(ev):
            raise Stop()

    def unmodelled(self, st, what):
        k = (what, st.fr[-1].inst.name if st.fr else "")
        self.unmod[k] = self.unmod.get(k, 0) + 1

    # ------------------------------------------------------------ running
    def call(self, st, inst_id, args, dest=None, tgt=None):
        body = self.p.body(inst_id)
        inst = self.p.insts[inst_id]
        if len(st.fr) > 60:
            raise Unmodelled("call depth")
        loc = {}
        for i, a in enumerate(args):
            loc[i + 1] = a
        st.fr.append(Frame(inst, body, 0, loc, dest, tgt))
        self.visited.add(inst_id)

    def run(self, inits):
        """Explore from initial states (each with a pushed root frame); returns the list of
        (state, return value) at root exit."""
        self.results = []
        self.pending = {}
        self.queue = []
        for st in inits:
            self.push(st)
        while self.queue:
            ok_, pt = heapq.heappop(self.queue)
            sts = self.pending.pop(pt, None)
            if not sts:
                continue
            sts = self.meet(pt, sts)
            if len(sts) > 1 and self.calls_summarised(sts[0]):
                # join the callee's entry states first, so that it is analysed once for all of them
                self.prepare = True
                for st in sts:
                    try:
                        self.block(st.copy())
                    except Unmodelled:
                        pass
                self.prepare = False
            for st in sts:
                self.steps += 1
                if self.steps > self.limit:
                    raise Unmodelled("step limit")
                if self.deadline and not self.steps & 63 and time.time() > self.deadline:
                    raise Expired()
                for n in self.block(st):
                    self.push(n)
        return self.results

    def returns(self, body):
        """Blocks at which a call that is analysed inline comes back."""
        r = getattr(body, "inline_rets", None)
        if r is None:
            r = set()
            for i in body.reach:
                t = body.bbs[i]["t"]
                if t[0] == "call" and t[3 + 1] is not None:
                    c = t[1]
                    if not (c["k"] == "inst" and (self.models.lookup(self.p.insts[c["i"]]) is not None or
                                                  self.p.body(c["i"]) is None or self.weight(c["i"]) >= self.SUMMARY_SIZE)):
                        r.add(t[4])
            body.inline_rets = r
        return r

    prepare = False
    literal = False
    ctx = 0
    deadline = None
    stop_on = None

    def calls_summarised(self, st):
        f = st.fr[-1]
        t = f.body.bbs[f.bb]["t"]
        return t[0] == "call" and t[1]["k"] == "inst" and self.p.body(t[1]["i"]) is not None and \
            self.weight(t[1]["i"]) >= self.SUMMARY_SIZE and self.models.lookup(self.p.insts[t[1]["i"]]) is None

    def push(self, st):
        if not st.fr:
            return
        pt = tuple((f.inst.id, f.bb) for f in st.fr)
        l = self.pending.get(pt)
        if l is None:
            self.pending[pt] = [st]
            key = tuple(f.body.rpo[f.bb] for f in st.fr)
            heapq.heappush(self.queue, (key, pt))
        else:
            l.append(st)

    def prune(self, st):
        """Drop dead locals.  A local whose address was taken stays while a live value refers
        to it."""
        n = len(st.fr) - 1
        cand = []
        for i, f in enumerate(st.fr):
            loc = f.loc
            if i == n:
                if f.bb == 0:
                    continue
                keep = f.body.live[f.bb]
                extra = None
            else:
                nx = st.fr[i + 1]
                keep = f.body.live[nx.tgt] if nx.tgt is not None else ()
                extra = None
                if nx.dest and nx.dest[1][0] == "L" and nx.dest[1][1] == i and nx.dest[2]:
                    extra = nx.dest[1][2]
            for k in [k for k in loc if k not in keep and k != extra]:
                if k in f.body.addr:
                    cand.append((i, k))
                else:
                    del loc[k]
        if not cand:
            return
        cs = set(cand)
        todo = [v for i, f in enumerate(st.fr) for k, v in f.loc.items() if (i, k) not in cs]
        todo += [f.dest for f in st.fr if f.dest]
        todo += st.heap.values()
        todo += st.g.values()
        while todo and cs:
            v = todo.pop()
            if v[:1] == ("r",) and v[1][0] == "L":
                r = v[1][1:]
                if r in cs:
                    cs.discard(r)
                    todo.append(st.fr[r[0]].loc[r[1]])
            for x in v:
                if type(x) is tuple:
                    todo.append(x)
        for i, k in cs:
            del st.fr[i].loc[k]

    def meet(self, pt, sts):
        f = sts[0].fr[-1]
        head = f.bb in f.body.heads
        if not head:
            if len(sts) == 1:
                return sts
            for s in sts:
                self.prune(s)
            if f.bb not in f.body.merge and f.bb not in self.returns(f.body):
                return sts
            return self.exact(sts)
        out = []
        ready = []
        for s in sts:
            self.prune(s)
            if self.mon is not None:
                for n in self.mon.sync(self, s):
                    ready.append(n)
            else:
                ready.append(s)
        ready = self.exact(ready)
        res = []
        for s in ready:
            if self.unroll:
                k = "n%d" % self.ptids.setdefault(pt, len(self.ptids))
                n = s.g.get(k, C(0))[2]
                if n > self.unroll:
                    self.truncated += 1
                    continue
                s.g[k] = C(n + 1)
                res.append(s)
                continue
            n = self.leave(s)
            if n is not None:
                res.append(n)
                continue
            r = self.at_head(pt, s)
            if r is not None:
                out.append(r)
        # only hand on the newest joined state of each partition
        seen = {}
        for r in out:
            seen[id(r[0])] = r
        done = set()
        for slot, j in out:
            if slot["st"] is j and id(slot) not in done:
                done.add(id(slot))
                n = j.copy()
                n.hist = dict(j.hist)
                n.hist[pt] = self.plain(n)
                res.append(n)
        return res

    def leave(self, st):
        """A state that leaves the loop at once, whatever the input, is not joined with the others at its head."""
        f = st.fr[-1]
        d = len(st.fr)
        loop = f.body.loops[f.bb]
        n = st.copy()
        ev, so = len(self.events), self.stop_on
        self.stop_on = None
        self.literal = True
        try:
            for i in range(60):
                if self.calls_summarised(n):
                    return None
                r = self.block(n)
                if len(r) != 1 or len(self.events) > ev:
                    return None
                n = r[0]
                if len(n.fr) < d or len(n.fr) == d and n.fr[-1].bb not in loop:
                    return n
                if n.fr[-1].bb in n.fr[-1].body.heads:
                    return None
            return None
        except (Unmodelled, Infeasible):
            return None
        finally:
            self.stop_on = so
            self.literal = False
            del self.events[ev:]

    def plain(self, st):
        """Literal snapshot used to recognise an iteration that changed nothing."""
        return (tuple(tuple(sorted(f.loc.items(), key=lambda kv: kv[0])) for f in st.fr),
                tuple(sorted(st.heap.items())), tuple(sorted((k, v) for k, v in st.g.items() if k != "hist")))

    def exact(self, sts):
        """Lossless merging: states equal up to the class of one character symbol."""
        if len(sts) < 2:
            return sts
        rough = {}
        for s in sts:
            rough.setdefault(outline(s), []).append(s)
        out = []
        for l in rough.values():
            out.extend(self.exact1(l) if len(l) > 1 else l)
        return out

    def exact1(self, sts):
        groups = {}
        for s in sts:
            c, a, o = canon(s)
            groups.setdefault(c, {})
            g = groups[c]
            if a not in g:
                g[a] = (s, o)
        out = []
        for c, g in groups.items():
            items = list(g.items())
            changed = len(items) > 1
            n = len(items[0][0]) if items else 0
            while changed:
                changed = False
                for i in range(n):
                    by = {}
                    for a, so in items:
                        x = a[i]
                        if x is None or x[0] != "c":
                            continue
                        by.setdefault(a[:i] + a[i + 1:], []).append((a, so))
                    if len(by) and any(len(v) > 1 for v in by.values()):
                        keep = [it for it in items if it[0][i] is None or it[0][i][0] != "c"]
                        for r, v in by.items():
                            if len(v) == 1:
                                keep.append(v[0])
                                continue
                            m = 0
                            for a, so in v:
                                m |= a[i][1]
                            st, o = v[0][1]
                            st.attr[o[i]] = ("c", m)
                            for a, so in v[1:]:
                                h = so[0].hist
                                for kk in list(st.hist):
                                    if kk not in h or h[kk] != st.hist[kk]:
                                        del st.hist[kk]
                            keep.append((r[:i] + (("c", m),) + r[i:], (st, o)))
                        items = keep
                        changed = True
            out.extend(so[0] for a, so in items)
        return out

    def key(self, st):
        consts = []
        sk = []
        CURSORS.clear()
        for f in st.fr:
            sk.append(f.dest and shape(f.dest, consts, st.attr))
            for k in sorted(f.loc):
                sk.append((k, shape(f.loc[k], consts, st.attr)))
        for k in sorted(st.g):
            if k == "$par":
                sk.append((k, tuple(x[0] for x in st.g[k][2]) if st.g[k][0] == "A" else -1))
            else:
                sk.append((k, shape(st.g[k], consts, st.attr)))
        for k in sorted(st.heap):
            sk.append((k, shape(st.heap[k], consts, st.attr)))
        sk.append(st.unc != ())
        if CURSORS:
            # has an iterator moved, and by more than one element?
            whole = set()
            for f in st.fr:
                for v in f.loc.values():
                    texts(v, whole)
            for v in st.heap.values():
                texts(v, whole)
            sk.append(tuple(self.moved(st, p, whole) for p in CURSORS))
        return tuple(sk), tuple(consts)

    def moved(self, st, p, whole):
        best = None
        for w in whole:
            k = len(w) - len(p)
            if k >= 0 and w[k:] == p and (p or len(whole) == 1):
                n = 0
                for x in w[:k]:
                    n += 1 if x[0] == "e" else st.attr[x[1]][2] if x[0] == "S" else 0
                n = min(n, 2)
                if best is None or n < best:
                    best = n
        return best

    def at_head(self, pt, st):
        if pt in st.hist and st.hist[pt] == self.plain(st):
            self.event(st, "nonterm", "a loop iteration changes nothing: the loop never ends",
                       st.fr[-1].body.bbs[st.fr[-1].bb]["p"] if st.fr else None)
            return None
        sk, cs = self.key(st)
        full = (self.ctx, pt, sk)
        hd = self.heads.get(full)
        if hd is None:
            hd = self.heads[full] = {"mask": set(), "slots": {}, "vals": {}}
        for i, c in enumerate(cs):
            if c == "*":
                if i not in hd["mask"]:
                    self.mask_const(hd, i)
                continue
            vs = hd["vals"].setdefault(i, set())
            if len(vs) <= self.MAXCONST:
                vs.add(c)
                if len(vs) > self.MAXCONST and i not in hd["mask"]:
                    self.mask_const(hd, i)
        if len(hd["slots"]) >= self.MAXSLOTS:
            n, i = max((len(vs), -i) for i, vs in hd["vals"].items() if i not in hd["mask"]) if \
                len(hd["vals"]) > len(hd["mask"]) else (0, 0)
            if n > 2:
                self.mask_const(hd, -i)
        kc = tuple("*" if j in hd["mask"] else x for j, x in enumerate(cs))
        sl = hd["slots"].get(kc)
        self.slot = sl
        if sl is None:
            gc(st)
            self.nslots += 1
            sl = hd["slots"][kc] = {"st": st, "cs": cs, "n": 0, "id": self.nslots}
            self.slot = sl
            return sl, st
        old = sl["st"]
        j = Join(self, old, st, sl["n"] >= 3).run()
        gc(j)
        c1, a1, _ = canon(old)
        c2, a2, _ = canon(j)
        if c1 == c2 and a1 == a2 and not sl.get("dirty"):
            return None
        sl["dirty"] = False
        sl["n"] += 1
        if sl["n"] > 60:
            self.event(st, "diverge", "no fixpoint", st.fr[-1].body.bbs[st.fr[-1].bb]["p"] if st.fr else None)
            return None
        sl["st"] = j
        return sl, j

    def mask_const(self, hd, i):
        """Stop distinguishing states of a loop head by the constant at position i."""
        hd["mask"].add(i)
        old = hd["slots"]
        hd["slots"] = {}
        for sl in old.values():
            kc = tuple("*" if j in hd["mask"] else x for j, x in enumerate(sl["cs"]))
            if kc in hd["slots"]:
                o = hd["slots"][kc]
                o["st"] = Join(self, o["st"], sl["st"], False).run()
                o["dirty"] = True
                if "res" in sl:
                    o["res"] = o.get("res", []) + sl["res"]
            else:
                hd["slots"][kc] = sl

    # ------------------------------------------------------------ transfer
    def block(self, st):
        f = st.fr[-1]
        bb = f.body.bbs[f.bb]
        cur = [st]
        for s in bb["s"]:
            nxt = []
            for x in cur:
                try:
                    nxt.extend(self.stmt(x, s))
                except Infeasible:
                    pass
                except Unmodelled as e:
                    self.unmodelled(x, str(e))
                    x.uncertain("unmodelled: " + str(e))
                    if s[0] == "=" and len(s[1]) == 1:
                        x.fr[-1].loc[s[1][0]] = TOP
                        nxt.append(x)
                    else:
                        self.event(x, "lost", str(e), s[3] if len(s) > 3 else None)
            cur = nxt
            if not cur:
                return []
        out = []
        for x in cur:
            try:
                out.extend(self.term(x, bb["t"], bb["p"]))
            except Infeasible:
                pass
            except Unmodelled as e:
                self.unmodelled(x, str(e))
                self.event(x, "lost", str(e), bb["p"])
        return out

    def stmt(self, st, s):
        k = s[0]
        if k == "=":
            res = self.rvalue(st, s[2], s[1])
            p = s[1]
            out = []
            for n, v in res:
                if len(p) == 1:
                    n.fr[-1].loc[p[0]] = v
                else:
                    base, path = self.place(n, p)
                    self.set(n, base, path, v)
                out.append(n)
            return out
        if k == "dead":
            st.fr[-1].loc.pop(s[1], None)
            return [st]
        if k == "sd":
            base, path = self.place(st, s[1])
            v = self.get(st, base, path)
            if v[0] == "A":
                self.set(st, base, path, ("A", s[2], v[2]))
                return [st]
            raise Unmodelled("set discriminant of %s" % v[0])
        return [st]

    def rvalue(self, st, r, dst):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, r[1]))]
        if k in ("ref", "addr"):
            base, path = self.place(st, r[1])
            if base[0] == "K" and not path and base[1][0] in ("str", "fmtargs", "dynref"):
                return [(st, base[1])]
            if path and type(path[-1]) is tuple and path[-1][0] == "sub":
                return [(st, self.get(st, base, path))]
            return [(st, ("r", base, path))]
        if k == "agg":
            ops = tuple(self.operand(st, o) for o in r[3])
            if r[1] == "adt":
                if r[5] is not None:
                    raise Unmodelled("union aggregate")
                return [(st, ("A", r[4], ops))]
            if r[1] in ("tuple", "closure"):
                return [(st, ("A", 0, ops))]
            if r[1] == "array":
                return [(st, ("q", "e", tuple(("e", o) for o in ops)))]
            if r[1] == "rawptr":
                return [(st, ops[0])]
        if k == "disc":
            base, path = self.place(st, r[1])
            v = self.get(st, base, path)
            ty = self.place_ty(st.fr[-1].body, r[1])
            return self.discriminant(st, base, path, v, ty)
        if k in ("bin", "cbin"):
            return self.binop(st, k, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r, dst)
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if isconst(v) and v[2] in (0, 1):
                    return [(st, C(1 - v[2]))]
                return [(n, C(0 if b else 1)) for n, b in self.truth(st, v)]
            if r[1] == "Neg" and v[0] == "i":
                return [(st, lmul(v, -1))]
            if r[1] == "Neg" and v[0] == "f":
                if v[1] == "const":
                    return [(st, ("f", "const", -v[2]))]
                return [(st, ("f", "neg", v))]
            return [(st, TOP)]
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), r[3])
        if k == "len":
            base, path = self.place(st, r[1])
            return [(st, self.seqlen(st, self.get(st, base, path)))]
        if k == "repeat":
            v = self.operand(st, r[1])
            if r[2] in (None, "null") or int(r[2]) > 64:
                return [(st, TOP)]
            return [(st, ("q", "e", (("e", v),) * int(r[2])))]
        raise Unmodelled("rvalue %s" % k)

    def seqlen(self, st, v):
        if v[0] in ("q", "str", "dq", "chars"):
            n = 0
            acc = C(0)
            for x in v[2]:
                if x[0] == "e":
                    n += 1
                else:
                    at = st.attr[x[1]]
                    s = self.define(st, ("len", x[1]), ("n", at[2], (1 << 62), True))
                    acc = ladd(acc, symv(s))
            return ladd(acc, C(n))
        raise Unmodelled("len of %s" % v[0])

    def truth(self, st, v):
        """Split on a boolean value."""
        if v[0] != "i":
            return self.fork_unknown(st, "branch on unmodelled value")
        if not v[1]:
            return [(st, bool(v[2]))]
        return self.cmp(st, "Ne", v, C(0))

    def enum_info(self, ty):
        t = self.p.tys[ty]
        if t.k == "adt":
            return t.d["vars"]
        return None

    lazy = 0
    unroll = 0
    truncated = 0

    def lazy_disc(self, st, s):
        """Discriminant of an opaque value of a large enum, as a set of possible variants."""
        vs = self.enum_info(st.attr[s][1])
        known = st.facts.get(("var", s))
        if known is not None:
            return C(vs[known]["d"])
        d = st.facts.get(("disc", s))
        if d is None:
            m = 0
            for x in vs:
                if not 0 <= x["d"] < 128:
                    raise Unmodelled("discriminant values")
                m |= self.cd.of(x["d"])
            d = st.facts[("disc", s)] = (self.newsym(st, ("c", m)),)
        return symv(d[0]) if isinstance(d[0], S) else d[0]

    def lazy_variant(self, st, s):
        """The variant of an opaque value, where only one is left."""
        k = st.facts.get(("var", s))
        if k is None and ("disc", s) in st.facts:
            d = self.lazy_disc(st, s)
            m = self.charset(st, d)
            x = self.cd.single(m) if m is not None else None
            for i, v in enumerate(self.enum_info(st.attr[s][1])):
                if v["d"] == x:
                    return i
        return k

    def discriminant(self, st, base, path, v, ty):
        vs = self.enum_info(ty)
        if v[0] == "A":
            if vs is None or t_is_struct(self.p.tys[ty]):
                return [(st, C(v[1]))]
            return [(st, C(vs[v[1]]["d"]))]
        if v[0] == "o":
            s = v[1]
            ty = st.attr[s][1]
            vs = self.enum_info(ty)
            if vs is None:
                raise Unmodelled("discriminant of opaque %s" % self.p.tys[ty].s)
            if self.lazy and len(vs) >= self.lazy:
                return [(st, self.lazy_disc(st, s))]
            known = st.facts.get(("var", s))
            out = []
            for i, d in enumerate(vs):
                if known is not None and known != i:
                    continue
                n = st.copy()
                n.facts[("var", s)] = i
                nv = self.expand(n, v, i)
                if base[0] != "K":
                    self.set(n, base, path, nv)
                out.append((n, C(d["d"])))
            return out
        if v[0] == "?" and vs:
            out = []
            for i, d in enumerate(vs):
                n = st.copy()
                n.uncertain("variant of unmodelled value")
                out.append((n, C(d["d"])))
            return out
        raise Unmodelled("discriminant of %s" % v[0])

    def int_ty(self, st, r):
        """Integer type of a binary operation's operands, from MIR."""
        for o in (r[2], r[3]):
            if "k" in o and "t" in o["k"]:
                return self.p.tys[o["k"]["t"]]
            p = o.get("c") or o.get("m")
            if p:
                return self.p.tys[self.place_ty(st.fr[-1].body, p)]
        return None

    @staticmethod
    def rng(t):
        if t is None:
            return 0, (1 << 64) - 1
        if t.k == "bool":
            return 0, 1
        if t.k == "char":
            return 0, 0x10FFFF
        if t.k == "int":
            b = t.d["bits"]
            if t.d["signed"]:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        return 0, (1 << 64) - 1

    def binop(self, st, k, op, a, b, r, dst):
        unch = False
        if op.endswith("Unchecked"):
            op = op[:-9]
            unch = True
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "f" or b[0] == "f":
                if a[0] == "f" and b[0] == "f" and a[1] == "const" and b[1] == "const":
                    x, y = a[2], b[2]
                    return [(st, C({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y,
                                    "Ge": x >= y}[op]))]
                if op in ("Eq", "Ne"):
                    s = self.define(st, ("feq",) + tuple(sorted((a, b), key=repr)), ("n", 0, 1, False))
                    v = symv(s)
                    return [(st, v if op == "Eq" else ladd(C(1), v, -1))]
                s = self.define(st, ("fcmp", op, a, b), ("n", 0, 1, False))
                return [(st, symv(s))]
            if a[0] == "r" and b[0] == "r" and op in ("Eq", "Ne"):
                return [(st, C((a == b) == (op == "Eq")))]
            return [(n, C(x)) for n, x in self.cmp(st, op, a, b)]
        if op in ("BitAnd", "BitOr", "BitXor"):
            t = self.int_ty(st, r)
            if t is not None and t.k == "bool":
                out = []
                for n, x in self.truth(st, a):
                    for m, y in self.truth(n, b):
                        z = {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op]
                        out.append((m, C(z)))
                return out
            if a[0] == "i" and b[0] == "i":
                if isconst(a) and isconst(b):
                    z = {"BitAnd": a[2] & b[2], "BitOr": a[2] | b[2], "BitXor": a[2] ^ b[2]}[op]
                    return [(st, C(z))]
                la, ha = self.bounds(st, a)
                lb, hb = self.bounds(st, b)
                if op == "BitOr" and la >= 0 and lb >= 0:
                    # disjoint bits: a multiple of 2^n or'ed with something below 2^n
                    for x, y, hy in ((a, b, hb), (b, a, ha)):
                        n = hy.bit_length()
                        if x[2] % (1 << n) == 0 and all(c % (1 << n) == 0 for _, c in x[1]):
                            return [(st, ladd(x, y))]
                if op == "BitAnd" and isconst(b) and la >= 0 and b[2] & (b[2] + 1) == 0 and ha <= b[2]:
                    return [(st, a)]
                s = self.define(st, (op,) + tuple(sorted((a, b), key=repr)),
                                ("n", 0, max(0, (1 << max(ha, hb, 0).bit_length()) - 1), False))
                return [(st, symv(s))]
            return [(st, TOP)]
        if a[0] == "f" or b[0] == "f":
            return [(st, self.fop(st, op, a, b))]
        if a[0] != "i" or b[0] != "i":
            return [(st, TOP if k == "bin" else ("A", 0, (TOP, TOP)))]
        t = self.int_ty(st, r)
        lo, hi = self.rng(t)
        ovf = None
        if op in ("Add", "Sub"):
            v = ladd(a, b, 1 if op == "Add" else -1)
            ovf = self.over(st, v, lo, hi)
        elif op == "Mul":
            if isconst(b):
                v = lmul(a, b[2])
            elif isconst(a):
                v = lmul(b, a[2])
            else:
                l1, h1 = self.bounds(st, a)
                l2, h2 = self.bounds(st, b)
                c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                s = self.define(st, ("Mul",) + tuple(sorted((a, b), key=repr)), ("n", min(c), max(c), False))
                v = symv(s)
            ovf = self.over(st, v, lo, hi)
        elif op in ("Shl", "Shr"):
            bits = t.d["bits"] if t is not None and t.k == "int" else 64
            if isconst(b):
                if op == "Shl":
                    v = lmul(a, 1 << b[2])
                    o = self.over(st, v, lo, hi)
                    if o is not False and not (b[2] < bits and self.bounds(st, v)[1] <= hi):
                        if isconst(v):
                            v = C(v[2] & ((1 << bits) - 1))
                        else:
                            v = symv(self.define(st, ("Shl", a, b), ("n", lo, hi, False)))
                else:
                    v = self.divmod(st, a, 1 << b[2])[0]
            else:
                v = symv(self.define(st, (op, a, b), ("n", lo, hi, False)))
            if k == "cbin":
                return [(st, ("A", 0, (v, self.boolof(st, b, bits))))]
            return [(st, v)]
        elif op in ("Div", "Rem"):
            if isconst(b) and b[2] > 0:
                q, m = self.divmod(st, a, b[2])
                v = q if op == "Div" else m
            else:
                v = symv(self.define(st, (op, a, b), ("n", lo, hi, False)))
            ovf = False
        elif op == "Offset":
            return [(st, TOP)]
        elif op == "Cmp":
            out = []
            for n, lt in self.cmp(st, "Lt", a, b):
                if lt:
                    out.append((n, ("A", 0, ())))
                else:
                    for m, eq in self.cmp(n, "Eq", a, b):
                        out.append((m, ("A", 1 if eq else 2, ())))
            return out
        else:
            raise Unmodelled("binop " + op)
        if k == "cbin":
            if ovf is False:
                return [(st, ("A", 0, (v, FALSE)))]
            if ovf is True:
                return [(st, ("A", 0, (v, TRUE)))]
            return [(st, ("A", 0, (v, ("ovf", v, lo, hi))))]
        if ovf is not False and not unch:
            if isconst(v) and lo == 0:
                return [(st, C(v[2] % (hi + 1)))]
            return [(st, symv(self.define(st, ("wrap", op, a, b), ("n", lo, hi, False))))]
        return [(st, v)]

    def boolof(self, st, b, bits):
        lo, hi = self.bounds(st, b)
        if hi < bits and lo >= 0:
            return FALSE
        if lo >= bits:
            return TRUE
        return ("ovf", b, 0, bits - 1)

    def over(self, st, v, lo, hi):
        """False: cannot overflow; True: always; None: may."""
        if len(v[1]) == 1 and v[1][0][1] == 1 and hi - lo >= (1 << 32) - 1:
            a = st.attr[v[1][0][0]]
            if a[0] == "n" and a[3] and v[2] < (1 << 16) and a[1] + v[2] >= lo:
                return False     # counts characters; inputs are shorter than 2^31
        l, h = self.bounds(st, v)
        if l >= lo and h <= hi:
            return False
        if h < lo or l > hi:
            return True
        return None

    def divmod(self, st, a, n):
        if isconst(a):
            return C(a[2] // n), C(a[2] % n)
        lo, hi = self.bounds(st, a)
        if lo >= 0:
            if all(c % n == 0 for _, c in a[1]):
                return lin(tuple((s, c // n) for s, c in a[1]), a[2] // n), C(a[2] % n)
            if hi < n:
                return C(0), a
        q = symv(self.define(st, ("Div", a, n), ("n", min(lo // n, 0), max(hi // n, 0), False)))
        m = symv(self.define(st, ("Rem", a, n), ("n", 0 if lo >= 0 else -n + 1, n - 1, False)))
        return q, m

    def fop(self, st, op, a, b):
        if a[0] == "f" and b[0] == "f" and a[1] == "const" and b[1] == "const":
            x, y = a[2], b[2]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
                return ("f", "const", r)
            except (KeyError, ZeroDivisionError):
                pass
        if op == "Mul":
            return ("f", "mul", a, b)
        if op == "Add" and a[0] == "f" and a[1] == "mul":
            return self.mul_add(st, a[2], a[3], b)
        if op == "Add" and b[0] == "f" and b[1] == "mul":
            return self.mul_add(st, b[2], b[3], a)
        return ("f", "sym", self.newsym(st, ("o", None)))

    def mul_add(self, st, a, m, d):
        """a*m + d as a Horner term when m is a small constant and d a digit."""
        if a[0] == "f" and m[0] == "f" and a[1] == "const" and m[1] != "const":
            a, m = m, a
        if m[0] == "f" and m[1] == "const" and d[0] == "f" and d[1] == "const" and m[2] in (2.0, 8.0, 10.0, 16.0) \
                and d[2] in range(int(m[2])) and a[0] == "f" and (a[1] == "horner" or a[1] == "const" and a[2] == 0.0):
            d = ("f", "digit", int(m[2]), C(ord("0123456789abcdef"[int(d[2])])))
        if m[0] == "f" and m[1] == "const" and d[0] == "f" and d[1] == "digit" and d[2] == int(m[2]):
            r = int(m[2])
            if a[1] == "const" and a[2] == 0.0:
                return ("f", "horner", r, (("e", d[3]),))
            if a[1] == "horner" and a[2] == r:
                return ("f", "horner", r, a[3] + (("e", d[3]),))
        return ("f", "sym", self.newsym(st, ("o", None)))

    def cast(self, st, kind, v, ty):
        t = self.p.tys[ty]
        if kind == "IntToInt":
            if v[0] != "i":
                return [(st, TOP)]
            if t.k == "char" and not isconst(v):
                return [(st, v if self.charset(st, v) is not None else self.models.char_of(self, st, v))]
            lo, hi = self.rng(t)
            l, h = self.bounds(st, v)
            if l >= lo and h <= hi:
                return [(st, v)]
            if isconst(v):
                b = t.d["bits"] if t.k == "int" else 32
                x = v[2] & ((1 << b) - 1)
                if t.k == "int" and t.d["signed"] and x >> (b - 1):
                    x -= 1 << b
                return [(st, C(x))]
            if self.over(st, v, lo, hi) is False:
                return [(st, v)]
            # split on whether it fits
            out = []
            for n, lt in self.cmp(st, "Le", v, C(hi)):
                if lt and l >= lo:
                    out.append((n, v))
                else:
                    out.append((n, symv(self.define(n, ("trunc", v, lo, hi), ("n", lo, hi, False)))))
            return out
        if kind == "IntToFloat":
            if isconst(v):
                return [(st, ("f", "const", float(v[2])))]
            if v[0] == "i" and len(v[1]) == 1 and v[2] == 0:
                s = v[1][0][0]
                for k, x in st.facts.items():
                    if k[0] == "def" and k[1] == "dig" and x[0] is s:
                        return [(st, ("f", "digit", k[3], k[2] if type(k[2]) is tuple else symv(k[2])))]
            return [(st, ("f", "ofint", v))]
        if kind == "BoxDerefTransmute" and v[0] == "box":
            return [(st, ("r", ("H", v[1]), ()))]
        if kind == "BoxDerefTransmute" and v[0] == "r":
            return [(st, v)]
        if kind.startswith("PC:") or kind in ("PtrToPtr", "Transmute", "Subtype"):
            if kind == "PC:Unsize" and t.k in ("ref", "ptr") and self.p.tys[t.d["e"]].k == "dyn":
                return [(st, v)]
            return [(st, v)]
        if kind == "FloatToFloat":
            return [(st, v)]
        if kind == "FloatToInt":
            lo, hi = self.rng(t)
            return [(st, symv(self.define(st, ("f2i", v, ty), ("n", lo, hi, False))))]
        return [(st, TOP)]

    # ------------------------------------------------------------ terminators
    def goto(self, st, bb):
        st.fr[-1].bb = bb
        return st

    def term(self, st, t, span):
        k = t[0]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "drop":
            return [self.goto(st, t[2])]
        if k == "switch":
            return self.switch(st, self.operand(st, t[1]), t[2], t[3], t[4])
        if k == "ret":
            return self.ret(st)
        if k == "call":
            return self.docall(st, t, span)
        if k == "assert":
            c = self.operand(st, t[1])
            out = []
            if c[0] == "ovf":
                n = st.copy()
                v, lo, hi = c[1], c[2], c[3]
                self.event(n, "panic", "possible arithmetic overflow (%s)" % t[3], span, definite=False)
                # continue on the non-overflowing part
                for a, okk in self.cmp(st, "Le", v, C(hi)):
                    if okk:
                        for b_, ok2 in self.cmp(a, "Ge", v, C(lo)):
                            if ok2:
                                out.append(self.goto(b_, t[4]))
                return out
            for n, b in self.truth(st, c):
                if b == bool(t[2]):
                    out.append(self.goto(n, t[4]))
                else:
                    self.event(n, "panic", "assertion: " + t[3], span)
            return out
        if k == "unreach":
            return []
        if k in ("resume", "abort"):
            return []
        raise Unmodelled("terminator " + k)

    def switch(self, st, v, arms, other, ty):
        if v[0] != "i":
            out = []
            tg = {b for _, b in arms} | {other}
            for b in sorted(tg):
                n = st.copy()
                n.uncertain("branch on unmodelled value")
                out.append(self.goto(n, b))
            return out
        if not v[1]:
            for val, b in arms:
                if self.norm(val, ty) == v[2]:
                    return [self.goto(st, b)]
            return [self.goto(st, other)]
        if self.literal:
            raise Infeasible()
        if len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0 and st.attr[v[1][0][0]][0] == "c":
            s = v[1][0][0]
            m = st.attr[s][1]
            by = {}
            rest = m
            for val, b in arms:
                x = self.cd.of(val)
                if not self.cd.exact(val):
                    raise Unmodelled("inexact switch value")
                by[b] = by.get(b, 0) | x
                rest &= ~x
            by[other] = by.get(other, 0) | rest
            out = []
            for b, x in by.items():
                if m & x:
                    n = st.copy() if len(by) > 1 else st
                    n.attr[s] = ("c", m & x)
                    out.append(self.goto(n, b))
            return out
        out = []
        cur = [st]
        for val, b in arms:
            nxt = []
            for x in cur:
                for n, eq in self.cmp(x, "Eq", v, C(self.norm(val, ty))):
                    if eq:
                        out.append(self.goto(n, b))
                    else:
                        nxt.append(n)
            cur = nxt
        for x in cur:
            out.append(self.goto(x, other))
        return out

    def norm(self, val, ty):
        t = self.p.tys[ty] if ty is not None else None
        if t is not None and t.k == "int" and t.d["signed"] and val >> (t.d["bits"] - 1):
            return val - (1 << t.d["bits"])
        return val

    def ret(self, st):
        f = st.fr.pop()
        v = f.loc.get(0, UNIT)
        if not st.fr:
            self.results.append((st, v))
            return []
        return self.deliver(st, f.dest, f.tgt, v)

    def deliver(self, st, dest, tgt, v):
        if tgt is None:
            return []
        if dest is not None:
            self.set(st, dest[1], dest[2], v)
        st.fr[-1].bb = tgt
        return [st]

    def is_closure(self, inst):
        return "{closure#" in inst.name and inst.name.rstrip().endswith("}")

    def docall(self, st, t, span):
        callee, args, dplace, tgt, argtys, destty = t[1], t[2], t[3], t[4], t[5], t[6]
        vals = [self.operand(st, a) for a in args]
        if callee["k"] == "inst":
            inst = self.p.insts[callee["i"]]
        elif callee["k"] == "ptr":
            fv = self.operand(st, callee["o"])
            if fv[0] != "fn" or fv[1] is None:
                raise Unmodelled("indirect call")
            inst = self.p.insts[fv[1]]
        else:
            raise Unmodelled("unresolved call " + callee.get("decl", "?"))
        base, path = self.place(st, dplace)
        dest = ("d", base, path)
        return self.invoke(st, inst, vals, dest, tgt, span, argtys, destty, callee.get("decl"))

    def invoke(self, st, inst, vals, dest, tgt, span, argtys=None, destty=None, decl=None):
        m = self.models.lookup(inst)
        if m is not None:
            r = m(self, st, inst, vals, argtys, destty, dest, tgt, span)
            if r is not NotImplemented:
                out = []
                for item in r:
                    n, v = item
                    if v is None:      # model pushed its own frame
                        out.append(n)
                    else:
                        out.extend(self.deliver(n, dest, tgt, v))
                return out
        if tgt is None:
            self.event(st, "panic", "%s" % inst.name.split("::")[-1], span, callee=inst.name)
            return []
        body = self.p.body(inst.id)
        if body is None:
            r = self.models.ctor(self, inst, vals, destty)
            if r is not None:
                return self.deliver(st, dest, tgt, r)
            raise Unmodelled("call to " + inst.name)
        if decl and decl.endswith(("FnOnce::call_once", "FnMut::call_mut", "Fn::call")) and body.spread is None \
                and self.is_closure(inst) and len(vals) == 2:
            tup = vals[1]
            if tup[0] != "A":
                raise Unmodelled("closure arguments")
            vals = [vals[0]] + list(tup[2])
        r = self.summarise(st, inst, vals, dest, tgt)
        if r is not None:
            return r
        self.call(st, inst.id, vals, dest, tgt)
        return [st]

    # ------------------------------------------------------------ function summaries
    SUMMARY_SIZE = 300

    def weight(self, i, seen=None):
        """Basic blocks transitively reachable from a function."""
        w = self.weights.get(i)
        if w is None:
            todo, seen = [i], {i}
            w = 0
            while todo:
                j = todo.pop()
                b = self.p.body(j)
                if b is None:
                    continue
                w += len(b.bbs)
                for bb in b.bbs:
                    t = bb["t"]
                    if t[0] == "call" and t[1]["k"] == "inst" and t[1]["i"] not in seen and \
                            self.models.lookup(self.p.insts[t[1]["i"]]) is None:
                        seen.add(t[1]["i"])
                        todo.append(t[1]["i"])
            self.weights[i] = w
        return w

    GENERAL = ("nl",)

    def summarise(self, st, inst, vals, dest, tgt):
        """Analyse a large callee once per kind of entry state.  Entry symbols are carried through
        the callee as parameters, so that every result can be related to the caller's values."""
        if len(self.active) > 6 or inst.id in self.active or tgt is None:
            return None
        if self.weight(inst.id) < self.SUMMARY_SIZE or len(st.fr) == 1 and not self.active:
            return None
        for v in vals:
            if has_local(v):
                return None
        if dest is not None and (has_sym(dest) or dest[2]):
            return None
        for v in st.heap.values():
            if has_local(v):
                return None
        sub = St()
        sub.heap, sub.attr, sub.facts, sub.g, sub.unc = dict(st.heap), dict(st.attr), dict(st.facts), dict(st.g), st.unc
        outer_par = sub.g.pop("$par", None)
        self.call(sub, inst.id, vals)
        actual = []
        if self.mon is not None:
            self.mon.merge_marks(sub)
            self.mon.irrelevant(sub)
            actual += self.mon.entry_pos(sub)
        for k in self.GENERAL:
            v = sub.g.get(k)
            if v is not None and v[0] == "i":
                s = self.newsym(sub, ("n", 0, 1, False))
                sub.g[k] = symv(s)
                actual.append((s, v))
        for k, v in sub.g.items():
            # known characters of the lexeme so far are parameters, too
            if k.startswith("r_") and v[:2] == ("q", "c") and any(x[0] == "e" and not x[1][1] for x in v[2]):
                ps = []
                for x in v[2]:
                    if x[0] == "e" and not x[1][1]:
                        s = self.newsym(sub, ("c", self.cd.of(x[1][2])))
                        actual.append((s, x[1]))
                        x = ("e", symv(s))
                    ps.append(x)
                sub.g[k] = ("q", "c", tuple(ps))
        gc(sub)
        ren = {}
        sub2 = rename(sub, ren)
        order = canon(sub2)[2]
        back = {n: o for o, n in ren.items()}
        given = dict(actual)
        par, act = [], []
        for n in order:
            o = back[n]
            at = sub2.attr[n]
            if at[0] in ("c", "n"):
                par.append(symv(n))
                act.append(given.get(o) or symv(o))
            elif at[0] == "s":
                par.append(("q", "c", (("S", n),)))
                act.append(("q", "c", (("S", o),)))
            elif at[1] is not None:
                par.append(("o", n))
                act.append(("o", o))
        sub2.g["$par"] = ("A", 0, tuple(par))
        win = tuple(self.charset(sub2, x[1]) for x in sub2.g["win"][2]) if "win" in sub2.g else ()
        ctx, self.ctx = self.ctx, 0
        r = self.at_head(("CALL", inst.id, win), sub2)
        self.ctx = ctx
        slot = self.slot
        slot.setdefault("res", [])
        if r is not None:
            slot["todo"] = True
        if self.prepare:
            return []
        if slot.pop("todo", False):
            n = slot["st"].copy()
            n.hist = {}
            saved = self.results, self.pending, self.queue, self.outer
            ctx, self.ctx = self.ctx, slot["id"]
            self.active.append(inst.id)
            self.outer = saved[3] + [f.inst.name for f in st.fr]
            try:
                new = self.run([n])
            finally:
                self.results, self.pending, self.queue, self.outer = saved
                self.ctx = ctx
                self.active.pop()
            # the wider entry state covers what the slot held before
            seen = set()
            slot["res"] = []
            for s, v in new:
                s.g["$ret"] = v
                gc(s)
            for s in self.exact([s for s, v in new]):
                c = canon(s)[:2]
                if c not in seen:
                    seen.add(c)
                    slot["res"].append(s)
        base = st.copy()
        base.fr[-1].bb = tgt
        self.prune(base)
        base.heap = {}
        base.g = {}
        if outer_par is not None:
            base.g["$outer"] = outer_par
        out = []
        for s in slot["res"]:
            n = rename(s, {})
            n.fr = [f.copy() for f in base.fr]
            n.g.update(base.g)
            for k, x in base.attr.items():
                n.attr[k] = x
            n.facts.update(base.facts)
            n.unc = base.unc + tuple(x for x in s.unc if x not in base.unc)
            n.hist = dict(st.hist)
            try:
                n.g["$act"] = ("A", 0, tuple(act))
                for i in range(len(act)):
                    n = self.unify(n, n.g["$par"][2][i], n.g["$act"][2][i], base.attr)
            except Infeasible:
                continue
            del n.g["$par"], n.g["$act"]
            if outer_par is not None:
                n.g["$par"] = n.g.pop("$outer")
            gc(n)
            v = n.g.pop("$ret")
            out.extend(self.deliver(n, dest, tgt, v))
        return out

    def unify(self, st, p, a, known):
        """Equate a callee-side value with the caller's value for it."""
        if p == a:
            return st
        if p[0] == "i" and a[0] == "i":
            for s, c in p[1]:
                if abs(c) == 1 and s not in known:
                    # s := (a - (p - c*s)) / c
                    rest = lin(tuple(x for x in p[1] if x[0] is not s), p[2])
                    v = lmul(ladd(a, rest, -1), c)
                    at = st.attr[s]
                    if at[0] == "c":
                        m = self.charset(st, v)
                        if m is None:
                            if not isconst(v):
                                return st
                            m = self.cd.of(v[2])
                        if not m & at[1]:
                            raise Infeasible()
                        if v[1]:
                            st.attr[v[1][0][0]] = ("c", m & at[1])
                    elif len(v[1]) == 1 and v[1][0][1] == 1:
                        self.refine_int(st, v[1][0][0], at[1] - v[2], at[2] - v[2])
                    else:
                        lo, hi = self.bounds(st, v)
                        if hi < at[1] or lo > at[2]:
                            raise Infeasible()
                    st_sub(st, {s: v})
                    return st
            # only the caller's symbols are left: an equation between them
            rs = [n for n, b in self.cmp(st, "Eq", p, a) if b]
            if not rs:
                raise Infeasible()
            return rs[0]
        if p[0] == "q" and a[0] == "q":
            pp, ap = p[2], a[2]
            if len(pp) == 1 and pp[0][0] == "S" and pp[0][1] not in known:
                st_sub(st, {pp[0][1]: ap})
            elif len(ap) == 1 and ap[0][0] == "S" and ap[0][1] in st.attr and not any(x == ap[0] for x in pp):
                st_sub(st, {ap[0][1]: pp})
            return st
        if p[0] == "o" and p[1] not in known:
            st_sub(st, {p[1]: a})
        return st


def ren_val(v, m):
    t = v[0] if v else None
    if t == "i":
        if not v[1]:
            return v
        return lin(tuple((ren_sym(s, m), c) for s, c in v[1]), v[2])
    out = []
    ch = False
    for x in v:
        tx = type(x)
        if tx is tuple:
            y = ren_val(x, m)
        elif tx is S:
            y = ren_sym(x, m)
        else:
            y = x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else v


def ren_sym(s, m):
    r = m.get(s)
    if r is None:
        r = m[s] = S()
    return r


def rename(st, m):
    """Copy of a state with fresh symbols (m: old -> new, filled in)."""
    n = St()
    for s in st.attr:
        ren_sym(s, m)
    for f in st.fr:
        n.fr.append(Frame(f.inst, f.body, f.bb, {k: ren_val(v, m) for k, v in f.loc.items()},
                          f.dest and ren_val(f.dest, m), f.tgt))
    n.heap = {k: ren_val(v, m) for k, v in st.heap.items()}
    n.g = {k: ren_val(v, m) for k, v in st.g.items()}
    n.attr = {m[s]: a for s, a in st.attr.items()}
    n.facts = {ren_val(k, m): (ren_val(v, m) if type(v) is tuple else v) for k, v in st.facts.items()}
    n.unc = st.unc
    return n


def has_local(v):
    """Does the value refer to a local variable of some frame?"""
    if v[:1] == ("r",) and v[1][0] == "L":
        return True
    for x in v:
        if type(x) is tuple and has_local(x):
            return True
    return False


def t_is_struct(t):
    return t.k == "adt" and t.d["adt"] == "Struct"
