"""Transfer functions for standard-library operations, keyed by definition name.

Each model receives (engine, state, instance, argument values, argument types, result type,
dest, target, span) and returns a list of (state, result).  Returning NotImplemented falls back
to the function's own MIR."""
import re
from engine import (C, FALSE, NONE, TOP, TRUE, UNIT, Infeasible, S, Unmodelled, add_fact, err, has_sym, isconst, ladd,
                    lit, ok, parts_const, some, st_sub, symv, vsub)

MODELS = []
OVERRIDE = {}


def model(*pats):
    def d(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return d


class Models:
    def __init__(self, extra=()):
        self.cache = {}
        self.extra = list(extra)

    def char_of(self, e, st, v):
        return char_of(e, st, v)

    def lookup(self, inst):
        r = self.cache.get(inst.id, 0)
        if r == 0:
            r = None
            for p, f in self.extra + MODELS:
                if p.fullmatch(inst.name):
                    r = f
                    break
            self.cache[inst.id] = r
        return r

    def ctor(self, e, inst, vals, destty):
        """Tuple-struct / tuple-variant constructors used as functions."""
        if destty is None:
            return None
        t = e.p.tys[destty]
        if t.k == "adt" and inst.kind == "item":
            last = inst.name.split("::")[-1]
            for i, v in enumerate(t.d["vars"]):
                if v["n"] == last and len(v["f"]) == len(vals):
                    return ("A", i, tuple(vals))
        return None


# ------------------------------------------------------------------ helpers
def deref(e, st, v):
    n = 0
    while v[0] == "r":
        v = e.get(st, v[1], v[2])
        n += 1
        if n > 8:
            break
    return v


def seq(e, st, v):
    v = deref(e, st, v)
    if v[0] in ("q", "str", "dq", "chars"):
        return v
    if v[0] == "o":
        raise Unmodelled("opaque sequence")
    raise Unmodelled("sequence expected, got %s" % v[0])


def kind_of(e, ty):
    k = e.p.tys[ty].k
    return {"char": "c", "int": "n"}.get(k, "e")


def setref(e, st, r, v):
    if r[0] != "r":
        raise Unmodelled("write through %s" % r[0])
    e.set(st, r[1], r[2], v)


def optref(r, path):
    return ("r", r[1], r[2] + path)


def symattr_elem(e, st, kind, at, nonfirst=False):
    if kind == "c":
        m = at[1] if type(at[1]) is int else e.cd.ALL
        return ("c", m)
    if kind == "n":
        lo, hi = at[1] if type(at[1]) is tuple else (0, (1 << 64) - 1)
        return ("n", lo, hi, False)
    raise Unmodelled("element of abstract sequence")


def uncons(e, st, kind, parts, back=False):
    """List of (state, element or None, rest) after removing one element from the front/back."""
    if not parts:
        return [(st, None, ())]
    p = parts[-1] if back else parts[0]
    rest = parts[:-1] if back else parts[1:]
    if p[0] == "e":
        return [(st, p[1], rest)]
    x = p[1]
    at = st.attr[x]
    out = []
    if at[2] == 0 and not at[3]:
        n = st.copy()
        try:
            st_sub(n, {x: ()})
            r2 = vsub(("p",) + rest, {x: ()})[1:]
            out.extend(uncons(e, n, kind, r2, back))
        except Infeasible:
            pass
    el = symattr_elem(e, st, kind, at)
    musts = at[3]

    def split(n, el, musts):
        c = e.newsym(n, el)
        y = e.newsym(n, ("s", at[1], max(0, at[2] - 1), musts))
        rep = (("S", y), ("e", symv(c))) if back else (("e", symv(c)), ("S", y))
        try:
            st_sub(n, {x: rep})
        except Infeasible:
            return
        r2 = vsub(("p",) + rest, {x: rep})[1:]
        r2 = r2 + (("S", y),) if back else (("S", y),) + r2
        out.append((n, symv(c), r2))
    if el[0] == "c" and musts:
        m = sorted(musts)[0]
        n = st.copy()
        if el[1] & m:
            split(n, ("c", el[1] & m), musts - {m})
        if el[1] & ~m:
            n = st.copy()
            split(n, ("c", el[1] & ~m), musts)
    else:
        split(st.copy(), el, musts)
    return out


def seq_eq(e, st, a, b):
    """Equality of two sequences: list of (state, bool)."""
    pa, pb = a[2], b[2]
    if pa == pb:
        return [(st, True)]
    ca, cb = parts_const(pa), parts_const(pb)
    if ca is not None and cb is not None:
        return [(st, ca == cb)]
    if cb is None and ca is not None:
        pa, pb, ca, cb = pb, pa, cb, ca
    if cb is not None:
        return eq_lit(e, st, pa, cb)
    if all(x[0] == "e" for x in pa) and all(x[0] == "e" for x in pb):
        if len(pa) != len(pb):
            return [(st, False)]
        cur = [(st, True)]
        for x, y in zip(pa, pb):
            nxt = []
            for s, r in cur:
                if not r:
                    nxt.append((s, r))
                    continue
                if x[1][0] == "i" and y[1][0] == "i":
                    nxt.extend(e.cmp(s, "Eq", x[1], y[1]))
                elif x[1] == y[1]:
                    nxt.append((s, True))
                else:
                    nxt.extend(e.fork_unknown(s, "equality of sequences"))
            cur = nxt
        return cur
    k = e.define(st, ("seqeq",) + tuple(sorted((pa, pb), key=repr)), ("n", 0, 1, False))
    return [(n, x) for n, x in e.truth(st, symv(k))]


def eq_lit(e, st, parts, text):
    """parts == text for a literal text."""
    ne = st.facts.get(("ne", parts))
    if ne and text in ne:
        return [(st, False)]
    sol = match_lit(e, st, parts, text)
    if not sol:
        return [(st, False)]
    out = []
    if len(sol) == 1 and not sol[0][0] and not sol[0][1]:
        return [(st, True)]
    no = st.copy()
    for chars, subs in sol:
        n = st.copy()
        try:
            for s, cp in chars:
                e.refine_char(n, s, e.cd.of(cp))
            if subs:
                st_sub(n, dict(subs))
            if chars:
                st_sub(n, {s: C(cp) for s, cp in chars if s in n.attr})
            out.append((n, True))
        except Infeasible:
            pass
    try:
        # a single symbolic element needs no fact
        if len(sol) == 1 and not sol[0][1] and len(sol[0][0]) == 1 and e.cd.exact(sol[0][0][0][1]):
            s, cp = sol[0][0][0]
            e.refine_char(no, s, e.cd.ALL & ~e.cd.of(cp))
        else:
            add_fact(no, ("ne", parts), frozenset([text]))
        out.append((no, False))
    except Infeasible:
        pass
    return out


def match_lit(e, st, parts, text):
    """Ways parts can equal text: list of ([(charsym, cp)], [(strsym, parts)])."""
    res = []

    def go(i, j, chars, subs):
        if i == len(parts):
            if j == len(text):
                res.append((chars, subs))
            return
        p = parts[i]
        if p[0] == "e":
            if j >= len(text):
                return
            v = p[1]
            cp = ord(text[j])
            if v[0] != "i":
                return
            if isconst(v):
                if v[2] == cp:
                    go(i + 1, j + 1, chars, subs)
                return
            m = e.charset(st, v)
            if m is None:
                # numeric expression used as a character
                lo, hi = e.bounds(st, v)
                if lo <= cp <= hi:
                    raise Unmodelled("comparison of computed character")
                return
            if m & e.cd.of(cp):
                for s, c in chars:
                    if s is v[1][0][0] and c != cp:
                        return
                if e.cd.single(m) == cp:
                    go(i + 1, j + 1, chars, subs)
                else:
                    go(i + 1, j + 1, chars + [(v[1][0][0], cp)], subs)
            return
        x = p[1]
        at = st.attr[x]
        mask = at[1] if type(at[1]) is int else e.cd.ALL
        last = i == len(parts) - 1
        for k in ([len(text)] if last else range(j, len(text) + 1)):
            seg = text[j:k]
            if len(seg) < at[2] or any(not mask & e.cd.of(ord(c)) for c in seg):
                continue
            if any(not any(e.cd.of(ord(c)) & m for c in seg) for m in at[3]):
                continue
            go(i + 1, k, chars, subs + [(x, lit(seg))])
    go(0, 0, [], [])
    return res


def byte_len(e, st, v):
    acc = C(0)
    for x in v[2]:
        if x[0] == "e":
            c = x[1]
            if isconst(c):
                acc = ladd(acc, C(len(chr(c[2]).encode("utf8", "surrogatepass"))))
                continue
            m = e.charset(st, c)
            if m is not None and not m & ~e.cd.ascii:
                acc = ladd(acc, C(1))
            else:
                acc = ladd(acc, symv(e.define(st, ("u8", c), ("n", 1, 4, False))))
        else:
            at = st.attr[x[1]]
            if type(at[1]) is int and not at[1] & ~e.cd.ascii:
                acc = ladd(acc, symv(e.define(st, ("len", x[1]), ("n", at[2], 1 << 62, True))))
            else:
                acc = ladd(acc, symv(e.define(st, ("blen", x[1]), ("n", at[2], 1 << 62, True))))
    return acc


def char_of(e, st, v):
    """Character value for code point expression v (known to be a valid scalar)."""
    if isconst(v) or e.charset(st, v) is not None:
        return v
    lo, hi = e.bounds(st, v)
    m = 0
    for k, (a, b, s) in enumerate(e.cd.atoms):
        if b >= lo and a <= hi:
            m |= 1 << k
    return symv(e.define(st, ("chr", v), ("c", m)))


def concat(*ps):
    out = ()
    for p in ps:
        out += p
    return out


# ------------------------------------------------------------------ character source
@model(r".*::opaque_next")
def m_fetch(e, st, inst, a, at, dt, d, t, sp):
    if st.g.get("eof") == TRUE:
        return [(st, NONE)]
    n = st.copy()
    n.g["eof"] = TRUE
    c = e.newsym(st, ("c", e.cd.ALL))
    w = st.g["win"]
    st.g["win"] = ("q", "w", w[2] + (("e", symv(c)),))
    return [(n, NONE), (st, some(symv(c)))]


# ------------------------------------------------------------------ strings and vectors
@model(r"std::string::String::(new|with_capacity)", r"<std::string::String as std::default::Default>::default")
def m_string_new(e, st, inst, a, at, dt, d, t, sp):
    return [(st, ("q", "c", ()))]


@model(r"std::vec::Vec::<T(, A)?>::(new|with_capacity)", r"<std::vec::Vec<T> as std::default::Default>::default")
def m_vec_new(e, st, inst, a, at, dt, d, t, sp):
    return [(st, ("q", kind_of(e, inst.ga[0]), ()))]


@model(r"std::string::String::push", r"std::vec::Vec::<T, A>::push")
def m_push(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] == "?":
        return [(st, UNIT)]
    if v[0] != "q":
        raise Unmodelled("push on %s" % v[0])
    setref(e, st, a[0], v[:2] + (v[2] + (("e", a[1]),),))
    return [(st, UNIT)]


@model(r"std::string::String::push_str", r"std::vec::Vec::<T, A>::extend_from_slice",
       r"std::string::String::extend_from_within")
def m_push_str(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] == "?":
        return [(st, UNIT)]
    s = seq(e, st, a[1])
    setref(e, st, a[0], v[:2] + (v[2] + s[2],))
    return [(st, UNIT)]


@model(r"std::vec::Vec::<T, A>::append")
def m_append(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    s = seq(e, st, a[1])
    setref(e, st, a[0], v[:2] + (v[2] + s[2],))
    setref(e, st, a[1], s[:2] + ((),))
    return [(st, UNIT)]


@model(r"std::string::String::insert", r"std::vec::Vec::<T, A>::insert")
def m_insert(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    if not isconst(a[1]) or (a[1][2] and any(x[0] != "e" for x in v[2][:a[1][2]])):
        raise Unmodelled("insert at symbolic index")
    k = a[1][2]
    if k > len(v[2]):
        e.event(st, "panic", "insert out of bounds", sp)
        return []
    setref(e, st, a[0], v[:2] + (v[2][:k] + (("e", a[2]),) + v[2][k:],))
    return [(st, UNIT)]


@model(r"core::slice::<impl \[T\]>::reverse")
def m_reverse(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "q" or any(p[0] != "e" for p in v[2]):
        return NotImplemented
    setref(e, st, a[0], v[:2] + (tuple(reversed(v[2])),))
    return [(st, UNIT)]


@model(r"std::vec::Vec::<T, A>::(remove|swap_remove|split_off)")
def m_vec_cut(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    i = a[1]
    if not (i[0] == "i" and not i[1]) or any(p[0] != "e" for p in v[2]):
        return NotImplemented
    k, f = i[2], inst.name.split("::")[-1]
    if k >= len(v[2]) + (f == "split_off"):
        e.event(st, "panic", "%s out of bounds" % f, sp)
        return []
    if f == "split_off":
        setref(e, st, a[0], v[:2] + (v[2][:k],))
        return [(st, ("q", v[1], v[2][k:]))]
    rest = v[2][:k] + v[2][k + 1:]
    if f == "swap_remove" and k < len(v[2]) - 1:
        rest = v[2][:k] + v[2][-1:] + v[2][k + 1:-1]
    setref(e, st, a[0], v[:2] + (rest,))
    return [(st, v[2][k][1])]


@model(r"std::string::String::pop", r"std::vec::Vec::<T, A>::pop")
def m_pop(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    out = []
    for n, x, rest in uncons(e, st, v[1], v[2], back=True):
        setref(e, n, a[0], v[:2] + (rest,))
        out.append((n, NONE if x is None else some(x)))
    return out


@model(r"std::string::String::(clear)", r"std::vec::Vec::<T, A>::clear")
def m_clear(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] in ("q",):
        setref(e, st, a[0], v[:2] + ((),))
    return [(st, UNIT)]


@model(r"std::string::String::len", r"core::str::<impl str>::len")
def m_string_len(e, st, inst, a, at, dt, d, t, sp):
    return [(st, byte_len(e, st, seq(e, st, a[0])))]


@model(r"std::vec::Vec::<T, A>::len", r"core::slice::<impl \[T\]>::len", r"std::collections::VecDeque::<T, A>::len")
def m_vec_len(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] == "o":
        return [(st, symv(opaque_len(e, st, v)))]
    return [(st, e.seqlen(st, seq(e, st, a[0])))]


def opaque_len(e, st, v):
    """The length of a sequence nothing else is known about: the same unknown number every time."""
    return e.define(st, ("seqlen", v), ("n", 0, (1 << 63) - 1, False))


@model(r"std::string::String::is_empty", r"core::str::<impl str>::is_empty", r"std::vec::Vec::<T, A>::is_empty",
       r"core::slice::<impl \[T\]>::is_empty", r"std::collections::VecDeque::<T, A>::is_empty")
def m_is_empty(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] == "o":
        return [(s, TRUE if r else FALSE) for s, r in e.cmp(st, "Eq", symv(opaque_len(e, st, v)), C(0))]
    v = seq(e, st, a[0])
    if not v[2]:
        return [(st, TRUE)]
    if any(x[0] == "e" or st.attr[x[1]][2] > 0 for x in v[2]):
        return [(st, FALSE)]
    out = []
    syms = [x[1] for x in v[2]]
    n = st.copy()
    try:
        st_sub(n, {s: () for s in syms})
        out.append((n, TRUE))
    except Infeasible:
        pass
    if len(syms) == 1:
        x = st.attr[syms[0]]
        st.attr[syms[0]] = ("s", x[1], 1, x[3])
    out.append((st, FALSE))
    return out


@model(r"<std::string::String as std::ops::Deref>::deref", r"<std::vec::Vec<T, A> as std::ops::Deref>::deref",
       r"<std::string::String as std::convert::AsRef<str>>::as_ref", r"std::string::String::as_str",
       r"std::vec::Vec::<T, A>::as_slice", r"<std::string::String as std::borrow::Borrow<str>>::borrow",
       r"std::string::String::into_boxed_str", r"core::str::<impl str>::as_ref",
       r"<str as std::convert::AsRef<str>>::as_ref", r"core::str::<impl str>::as_str")
def m_deref(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    if v[1] == "e" and a[0][0] == "r":
        return [(st, a[0])]
    return [(st, ("str", v[1], v[2]))]


@model(r"<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", r"<std::string::String as std::ops::DerefMut>::deref_mut",
       r"std::vec::Vec::<T, A>::as_mut_slice", r"std::string::String::as_mut_str")
def m_deref_mut(e, st, inst, a, at, dt, d, t, sp):
    return [(st, a[0])]


@model(r"<std::string::String as std::convert::From<&.*str>>::from", r"std::string::String::from",
       r"<str as std::borrow::ToOwned>::to_owned", r"<str as std::string::ToString>::to_string",
       r"<str as std::string::SpecToString>::spec_to_string",
       r"<std::string::String as std::string::SpecToString>::spec_to_string",
       r"<std::string::String as std::clone::Clone>::clone", r"core::str::<impl str>::to_owned",
       r"<std::vec::Vec<T, A> as std::clone::Clone>::clone", r"<\[T\] as std::borrow::ToOwned>::to_owned",
       r"std::str::<impl str>::(to_owned|into_string)", r"alloc::str::<impl str>::(to_owned|into_string)",
       r"std::slice::<impl \[T\]>::to_vec", r"std::string::String::into_bytes_never",
       r"<std::string::String as std::convert::From<&.*std::string::String>>::from",
       r"alloc::str::<impl std::borrow::ToOwned for str>::to_owned",
       r"(std|alloc)::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned",
       r"std::str::<impl std::borrow::ToOwned for str>::to_owned",
       r"<std::string::String as std::str::FromStr>::from_str_never")
def m_copy_str(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    if v[1] == "e":
        return NotImplemented
    return [(st, ("q", v[1], v[2]))]


@model(r"<T as std::string::ToString>::to_string")
def m_to_string(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] in ("q", "str") and v[1] == "c":
        return [(st, ("q", "c", v[2]))]
    if v[0] == "i" and e.p.tys[inst.ga[0]].k == "char":
        return [(st, ("q", "c", (("e", v),)))]
    return [(st, ("q", "c", display(e, st, v, inst.ga[0])))]


@model(r"<std::char::ToUppercase as .*", r"<std::char::ToLowercase as .*")
def m_case(e, st, inst, a, at, dt, d, t, sp):
    raise Unmodelled("case mapping")


@model(r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)",
       r"<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)",
       r"<&?str as std::cmp::PartialEq<.*>>::(eq|ne)",
       r"std::string::.*<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)",
       r"<str as std::cmp::PartialEq>::(eq|ne)",
       r"std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for std::vec::Vec<T, A1?>>::(eq|ne)",
       r"core::slice::cmp::<impl std::cmp::PartialEq<.*> for \[T\]>::(eq|ne)")
def m_str_eq(e, st, inst, a, at, dt, d, t, sp):
    x, y = seq(e, st, a[0]), seq(e, st, a[1])
    neg = inst.name.endswith("::ne")
    return [(n, C(int(r != neg))) for n, r in seq_eq(e, st, x, y)]


@model(r"core::str::<impl str>::chars", r"core::slice::<impl \[T\]>::iter", r"std::string::String::chars",
       r"<&.*Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"core::slice::iter::<impl std::iter::IntoIterator for &.*\[T\]>::into_iter",
       r"std::slice::iter::<impl std::iter::IntoIterator for &.*\[T\]>::into_iter",
       r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"core::str::<impl str>::bytes",
       r"std::collections::VecDeque::<T, A>::iter", r"core::slice::<impl \[T\]>::iter_mut")
def m_chars(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    if inst.name.endswith("iter_mut") or " mut " in inst.name.split(" as ")[0]:
        r = a[0]
        while r[0] == "r":
            x = e.get(st, r[1], r[2])
            if x[0] != "r":
                break
            r = x
        if r[0] != "r" or any(x[0] != "e" for x in v[2]):
            raise Unmodelled("mutable iteration")
        return [(st, ("chars", "e", tuple(("e", ("r", r[1], r[2] + (("x", k),))) for k in range(len(v[2]))), 0))]
    if inst.name.endswith("bytes"):
        for x in v[2]:
            m = e.charset(st, x[1]) if x[0] == "e" else st.attr[x[1]][1]
            if type(m) is not int or m & ~e.cd.ascii:
                raise Unmodelled("bytes of non-ASCII text")
        return [(st, ("chars", v[1], v[2], 0))]
    byref = 0 if inst.name.endswith("chars") or inst.name.startswith("<std::vec::Vec<T, A> as") else 1
    return [(st, ("chars", v[1], v[2], byref))]


@model(r"(std|core)::array::<impl std::iter::IntoIterator for &'a \[T; N\]>::into_iter")
def m_array_iter(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] == "A":
        return [(st, ("chars", "e", tuple(("e", x) for x in v[2]), 1))]
    v = seq(e, st, v)
    return [(st, ("chars", v[1], v[2], 1))]


@model(r"<std::str::Chars<'a> as std::iter::Iterator>::next", r"<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
       r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
       r"<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back",
       r"<std::str::Bytes<'_> as std::iter::Iterator>::next",
       r"<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
       r"<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back",
       r"<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::next",
       r"<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_chars_next(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "chars":
        raise Unmodelled("next on %s" % v[0])
    out = []
    for n, x, rest in uncons(e, st, v[1], v[2], back=inst.name.endswith("next_back")):
        setref(e, n, a[0], ("chars", v[1], rest, v[3]))
        if x is None:
            out.append((n, NONE))
        else:
            out.append((n, some(("r", ("K", x), ()) if v[3] else x)))
    return out


@model(r"<std::str::Chars<'a> as std::iter::Iterator>::advance_by", r"<std::slice::Iter<'a, T> as std::iter::Iterator>::advance_by",
       r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::advance_by")
def m_advance(e, st, inst, a, at, dt, d, t, sp):
    if not isconst(a[1]):
        raise Unmodelled("advance by symbolic count")
    v = deref(e, st, a[0])
    cur = [(st, v[2], a[1][2])]
    out = []
    while cur:
        s, parts, k = cur.pop()
        if k == 0:
            setref(e, s, a[0], ("chars", v[1], parts, v[3]))
            out.append((s, ok(UNIT)))
            continue
        for n, x, rest in uncons(e, s, v[1], parts):
            if x is None:
                setref(e, n, a[0], ("chars", v[1], (), v[3]))
                out.append((n, err(("A", 0, (C(k),)))))
            else:
                cur.append((n, rest, k - 1))
    return out


@model(r"<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", r"<std::str::Chars<'a> as std::iter::Iterator>::nth")
def m_nth(e, st, inst, a, at, dt, d, t, sp):
    if not isconst(a[1]):
        raise Unmodelled("nth with symbolic index")
    v = deref(e, st, a[0])
    cur = [(st, v[2], a[1][2])]
    out = []
    while cur:
        s, parts, k = cur.pop()
        for n, x, rest in uncons(e, s, v[1], parts):
            if x is None or k == 0:
                setref(e, n, a[0], ("chars", v[1], rest, v[3]))
                out.append((n, NONE if x is None else some(("r", ("K", x), ()) if v[3] else x)))
            else:
                cur.append((n, rest, k - 1))
    return out


@model(r"<std::str::Chars<'a> as std::iter::Iterator>::(count|last)", r"std::str::Chars::<'a>::as_str",
       r"<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len")
def m_chars_misc(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if inst.name.endswith(("count", "len")):
        return [(st, e.seqlen(st, v))]
    if inst.name.endswith("as_str"):
        return [(st, ("str", v[1], v[2]))]
    out = []
    for n, x, rest in uncons(e, st, v[1], v[2], back=True):
        out.append((n, NONE if x is None else some(x)))
    return out


@model(r"<std::str::Chars<'a> as std::clone::Clone>::clone", r"<std::slice::Iter<'_, T> as std::clone::Clone>::clone",
       r"std::clone::impls::<impl std::clone::Clone for (char|bool|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64|&T)>::clone")
def m_clone_val(e, st, inst, a, at, dt, d, t, sp):
    if a[0][0] != "r":
        raise Unmodelled("clone of %s" % a[0][0])
    return [(st, e.get(st, a[0][1], a[0][2]))]


@model(r"std::iter::Iterator::collect")
def m_collect(e, st, inst, a, at, dt, d, t, sp):
    v = a[0]
    dty = e.p.tys[dt]
    if v[0] == "chars" and not v[3]:
        if dty.k == "adt" and dty.d["name"].endswith("string::String") and v[1] == "c":
            return [(st, ("q", "c", v[2]))]
        if dty.k == "adt" and dty.d["name"].endswith("vec::Vec"):
            return [(st, ("q", v[1], v[2]))]
    if v[0] == "chars" and v[3] and dty.k == "adt" and dty.d["name"].endswith("string::String"):
        return [(st, ("q", "c", v[2]))]
    if dty.k == "adt" and (dty.d["name"].endswith("vec::Vec") or dty.d["name"].endswith("string::String")):
        b = synth_collect(e, inst, at[0], dt)
        if b is not None:
            from engine import Frame
            st.fr.append(Frame(b.inst, b, 0, {1: v}, d, t))
            return [(st, None)]
    if dty.k == "adt" and dty.d["name"] == "std::result::Result":
        b = synth_collect_result(e, at[0], dt)
        if b is not None:
            from engine import Frame
            st.fr.append(Frame(b.inst, b, 0, {1: v}, d, t))
            return [(st, None)]
    raise Unmodelled("collect into " + dty.s)


def synth_collect_result(e, ity, dt):
    """`vec.into_iter().map(f).collect::<Result<Vec<_>, _>>()` as a loop that stops at the first error."""
    from mir import Body
    cache = e.p.__dict__.setdefault("_synth", {})
    key = ("collect result", ity, dt)
    if key in cache:
        return cache[key]
    it, dty = e.p.tys[ity], e.p.tys[dt]
    if it.k != "adt" or it.d["name"] != "std::iter::Map":
        return None
    src, clo = [x for x in it.d["args"] if isinstance(x, int)][:2]
    if e.p.tys[src].k != "adt" or e.p.tys[src].d["name"] != "std::vec::IntoIter":
        return None
    vecty, errty = [x for x in dty.d["args"] if isinstance(x, int)][:2]
    elem = [x for x in e.p.tys[src].d["args"] if isinstance(x, int)][0]
    f = [(k, i) for k, i in call_index(e).items() if k[0].startswith("std::ops::FnMut::call_mut") and k[1][:1] == (str(clo),)]
    opt = [t.id for t in e.p.tys if t.k == "adt" and t.d["name"] == "std::option::Option" and [x for x in t.d["args"] if isinstance(x, int)] == [elem]]
    if not f or not opt or not e.p.insts[f[0][1]].raw:
        return None
    fi = e.p.insts[f[0][1]]
    rty = fi.raw["locals"][0]
    out = e.p.tys[rty].d["vars"][0]["f"][0]["t"]
    ii = len(e.p.insts)
    for k, (n, ga) in enumerate((("std::vec::Vec::<T>::new", [out]), ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", [elem]),
                                 ("std::vec::Vec::<T, A>::push", [out]))):
        x = FakeInst(ii + k, n)
        x.ga, x.raw, x.prog = ga, None, e.p
        e.p.insts.append(x)
    isz = e.p.ty_named("isize")
    n = isz.id if isz else dt

    def call(i, args, dest, to, ty):
        return ["call", {"k": "inst", "i": i, "decl": "", "ga": []}, [{"m": [x]} for x in args], [dest], to, [None] * len(args), ty]
    bbs = [
        {"s": [], "p": "", "t": call(ii, [], 5, 1, vecty)},
        {"s": [["=", [6], ["ref", [1, ["f", 0, src]], True], ""]], "p": "", "t": call(ii + 1, [6], 2, 2, opt[0])},
        {"s": [["=", [3], ["disc", [2]], ""]], "p": "", "t": ["switch", {"m": [3]}, [[0, 6]], 3, n]},
        {"s": [["=", [4], ["use", {"m": [2, ["d", 1], ["f", 0, elem]]}], ""], ["=", [8], ["ref", [1, ["f", 1, clo]], True], ""]], "p": "",
         "t": call(fi.id, [8, 4], 7, 4, rty)},
        {"s": [["=", [3], ["disc", [7]], ""]], "p": "", "t": ["switch", {"m": [3]}, [[0, 5]], 7, n]},
        {"s": [["=", [10], ["use", {"m": [7, ["d", 0], ["f", 0, out]]}], ""], ["=", [6], ["ref", [5], True], ""]], "p": "",
         "t": call(ii + 2, [6, 10], 9, 1, dt)},
        {"s": [["=", [0], ["agg", "adt", dt, [{"m": [5]}], 0, None], ""]], "p": "", "t": ["ret"]},
        {"s": [["=", [10], ["use", {"m": [7, ["d", 1], ["f", 0, errty]]}], ""], ["=", [0], ["agg", "adt", dt, [{"m": [10]}], 1, None], ""]], "p": "",
         "t": ["ret"]}]
    raw = {"locals": [dt, ity, opt[0], n, elem, vecty, dt, rty, dt, dt, out], "argc": 1, "spread": None, "span": "", "bbs": bbs}
    x = FakeInst(ii + 3, "<collect>")
    x.raw = raw
    e.p.insts.append(x)
    b = Body(x, raw)
    x.body = b
    cache[key] = b
    return b


class FakeInst:
    def __init__(self, i, name):
        self.id = i
        self.name = name
        self.full = name
        self.crate = "std"
        self.kind = "item"
        self.ga = []
        self.body = None


def call_index(e):
    ix = getattr(e.p, "_callix", None)
    if ix is None:
        ix = {}
        for inst in e.p.insts:
            if inst.raw is None:
                continue
            for bb in inst.raw["bbs"]:
                t = bb["t"]
                if t[0] == "call" and t[1]["k"] == "inst":
                    ix[(t[1]["decl"], tuple(map(str, t[1]["ga"])))] = t[1]["i"]
        e.p._callix = ix
    return ix


def synth_collect(e, inst, ity, dt):
    """Loop `while let Some(x) = it.next() { v.push(x) }` as a MIR body."""
    from mir import Body
    cache = e.p.__dict__.setdefault("_synth", {})
    key = ("collect", ity, dt)
    if key in cache:
        return cache[key]
    nx = call_index(e).get(("std::iter::Iterator::next", (str(ity),)))
    if nx is None:
        return None
    ninst = e.p.insts[nx]
    optty = None
    for t in e.p.tys:
        if t.k == "adt" and t.d["name"] == "std::option::Option" and ninst.raw and ninst.raw["locals"][0] == t.id:
            optty = t.id
    if optty is None:
        return None
    elem = e.p.tys[optty].d["vars"][1]["f"][0]["t"]
    newv = FakeInst(-1, "<collect>")
    ii = len(e.p.insts)
    newi = FakeInst(ii, "std::string::String::push" if e.p.tys[dt].d["name"].endswith("String") else "std::vec::Vec::<T, A>::push")
    newi.raw = None
    newi.prog = e.p
    e.p.insts.append(newi)
    mk = FakeInst(ii + 1, "std::string::String::new" if e.p.tys[dt].d["name"].endswith("String") else "std::vec::Vec::<T>::new")
    mk.ga = [elem]
    mk.raw = None
    e.p.insts.append(mk)
    isz = e.p.ty_named("isize")
    it = isz.id if isz else dt
    raw = {"locals": [dt, ity, optty, it, elem, dt, dt, dt], "argc": 1, "spread": None, "span": "", "bbs": [
        {"s": [], "p": "", "t": ["call", {"k": "inst", "i": ii + 1, "decl": "", "ga": []}, [], [0], 1, [], dt]},
        {"s": [["=", [5], ["ref", [1], True], ""]], "p": "",
         "t": ["call", {"k": "inst", "i": nx, "decl": "", "ga": []}, [{"m": [5]}], [2], 2, [None], optty]},
        {"s": [["=", [3], ["disc", [2]], ""]], "p": "", "t": ["switch", {"m": [3]}, [[0, 4]], 3, it]},
        {"s": [["=", [4], ["use", {"m": [2, ["d", 1], ["f", 0, elem]]}], ""], ["=", [6], ["ref", [0], True], ""]],
         "p": "", "t": ["call", {"k": "inst", "i": ii, "decl": "", "ga": []}, [{"m": [6]}, {"m": [4]}], [7], 1, [None, elem], dt]},
        {"s": [], "p": "", "t": ["ret"]}]}
    fi = FakeInst(ii + 2, "<collect>")
    fi.raw = raw
    e.p.insts.append(fi)
    b = Body(fi, raw)
    fi.body = b
    cache[key] = b
    return b


def k_bool(e, b):
    t = e.p.ty_named("bool")
    return {"k": {"k": "s", "t": t.id if t else 0, "v": int(b)}}


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(all|any|find|find_map|for_each)")
def m_iter_loop(e, st, inst, a, at, dt, d, t, sp):
    """The loop `while let Some(x) = self.next() { .. f(x) .. }` in place of its inlined pointer form."""
    from engine import Frame
    b = synth_loop(e, inst, inst.name.rsplit("::", 1)[1], at, dt)
    if b is None:
        raise Unmodelled("loop of " + inst.name)
    st.fr.append(Frame(b.inst, b, 0, {1: a[0], 2: a[1]}, d, t))
    return [(st, None)]


def synth_loop(e, inst, m, at, dt):
    from mir import Body
    cache = e.p.__dict__.setdefault("_synth", {})
    key = ("loop", inst.id)
    if key in cache:
        return cache[key]
    if inst.raw is None:
        return None
    call = None
    for bb in inst.raw["bbs"]:
        t = bb["t"]
        if t[0] == "call" and t[1].get("k") == "inst" and t[1]["decl"].startswith("std::ops::FnMut::call_mut"):
            call = t
    opts = [i for i in inst.raw["locals"][1:] if e.p.tys[i].k == "adt" and e.p.tys[i].d["name"] == "std::option::Option"]
    if call is None or not opts:
        return None
    opt = opts[0]
    elem = e.p.tys[opt].d["vars"][1]["f"][0]["t"]
    tup, res = call[5][1], call[6]
    mut = "IterMut" in inst.name
    ni = FakeInst(len(e.p.insts), "<std::slice::Iter%s<'a, T> as std::iter::Iterator>::next" % ("Mut" if mut else ""))
    ni.raw = None
    e.p.insts.append(ni)
    isz = e.p.ty_named("isize") or e.p.ty_named("usize")
    it = isz.id if isz else dt
    byval = m == "for_each"
    head = [["=", [9], ["ref", [1], True], ""]] if byval else []
    nxt = {"k": "inst", "i": ni.id, "decl": "", "ga": []}
    cal = {k: v for k, v in call[1].items()}
    arg = [["=", [10], ["ref", [5], False], ""], ["=", [7], ["agg", "tuple", tup, [{"m": [10]}], 0, None], ""]] if m == "find" else \
        [["=", [7], ["agg", "tuple", tup, [{"m": [5]}], 0, None], ""]]
    bbs = [
        {"s": head, "p": "", "t": ["call", nxt, [{"m": [9]} if byval else {"c": [1]}], [3], 1, [at[0]], opt]},
        {"s": [["=", [4], ["disc", [3]], ""]], "p": "", "t": ["switch", {"m": [4]}, [[0, 4]], 2, it]},
        {"s": [["=", [5], ["use", {"m": [3, ["d", 1], ["f", 0, elem]]}], ""], ["=", [6], ["ref", [2], True], ""]] + arg, "p": "",
         "t": ["call", cal, [{"m": [6]}, {"m": [7]}], [8], 3, call[5], res]}]
    ret = {"s": [], "p": "", "t": ["ret"]}

    def give(*s):
        return {"s": list(s), "p": "", "t": ["ret"]}
    yes = [["=", [0], ["use", k_bool(e, 1)], ""]]
    no = [["=", [0], ["use", k_bool(e, 0)], ""]]
    none = [["=", [0], ["agg", "adt", dt, [], 0, None], ""]]
    if m == "all":
        bbs += [{"s": [], "p": "", "t": ["switch", {"m": [8]}, [[0, 5]], 0, res]}, give(*yes), give(*no)]
    elif m == "any":
        bbs += [{"s": [], "p": "", "t": ["switch", {"m": [8]}, [[0, 0]], 5, res]}, give(*no), give(*yes)]
    elif m == "find":
        bbs += [{"s": [], "p": "", "t": ["switch", {"m": [8]}, [[0, 0]], 5, res]}, give(*none),
                give(["=", [0], ["agg", "adt", dt, [{"m": [5]}], 1, None], ""])]
    elif m == "find_map":
        bbs += [{"s": [["=", [4], ["disc", [8]], ""]], "p": "", "t": ["switch", {"m": [4]}, [[0, 0]], 5, it]}, give(*none),
                give(["=", [0], ["use", {"m": [8]}], ""])]
    else:
        bbs += [{"s": [], "p": "", "t": ["goto", 0]}, give(["=", [0], ["agg", "tuple", dt, [], 0, None], ""])]
    raw = {"locals": [dt, at[0], at[1], opt, it, elem, call[5][0], tup, res, at[0], at[0]], "argc": 2, "spread": None, "span": "",
           "bbs": bbs}
    fi = FakeInst(len(e.p.insts), "<%s>" % m)
    fi.raw = raw
    e.p.insts.append(fi)
    b = Body(fi, raw)
    fi.body = b
    cache[key] = b
    return b


@model(r"core::slice::<impl \[T\]>::contains")
def m_slice_contains(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    x = deref(e, st, a[1])
    if x[0] != "i":
        raise Unmodelled("contains of %s" % x[0])
    out = []
    cur = [(st, v[2])]
    while cur:
        s, parts = cur.pop()
        for n, y, rest in uncons(e, s, v[1], parts):
            if y is None:
                out.append((n, FALSE))
                continue
            for m, r in e.cmp(n, "Eq", y, x):
                if r:
                    out.append((m, TRUE))
                else:
                    cur.append((m, rest))
    return out


@model(r"<std::string::String as std::ops::Index<I>>::index", r"core::str::traits::<impl std::ops::Index<I> for str>::index",
       r"<std::vec::Vec<T, A> as std::ops::Index<I>>::index", r"core::slice::index::<impl std::ops::Index<I> for \[T\]>::index",
       r"<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def m_index(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    ity = e.p.tys[at[1]]
    n = ity.d.get("name", "")
    if ity.k == "int":
        if not isconst(a[1]):
            raise Unmodelled("symbolic index")
        k = a[1][2]
        if any(x[0] != "e" for x in v[2][:k + 1]):
            raise Unmodelled("index into abstract sequence")
        if k >= len(v[2]):
            e.event(st, "panic", "index out of bounds", sp)
            return []
        if a[0][0] == "r":
            return [(st, ("r", a[0][1], a[0][2] + (("x", k),)))]
        return [(st, ("r", ("K", v[2][k][1]), ()))]
    lo, hi = C(0), None
    if n.endswith("RangeFull"):
        pass
    elif n.endswith("RangeFrom"):
        lo = a[1][2][0]
    elif n.endswith("RangeTo"):
        hi = a[1][2][0]
    elif n.endswith("::Range"):
        lo, hi = a[1][2][0], a[1][2][1]
    else:
        raise Unmodelled("index by " + ity.s)
    if hi is not None and not isconst(hi) and v[1] == "c":
        # all but the last few characters
        k = ladd(byte_len(e, st, v), hi, -1)
        if isconst(k) and 0 <= k[2] <= len(v[2]) and all(x[0] == "e" and isconst(x[1]) and x[1][2] < 128 for x in v[2][len(v[2]) - k[2]:]):
            v = v[:2] + (v[2][:len(v[2]) - k[2]],)
            hi = None
    if not isconst(lo) or (hi is not None and not isconst(hi)):
        raise Unmodelled("symbolic slice")
    cur = [(st, v[2])]
    take = []

    def drop(st, parts, k):
        out = []
        work = [(st, parts, (), k)]
        while work:
            s, p, got, k = work.pop()
            if k == 0:
                out.append((s, p, got))
                continue
            for n2, x, rest in uncons(e, s, v[1], p):
                if x is None:
                    e.event(n2, "panic", "slice index out of bounds", sp)
                else:
                    w = 1
                    if v[1] == "c":
                        m = e.charset(n2, x)
                        if m is None or m & ~e.cd.ascii:
                            if m is not None and isconst(x):
                                w = len(chr(x[2]).encode())
                            else:
                                n2.uncertain("byte slicing of non-ASCII text")
                    work.append((n2, rest, got + (("e", x),), max(0, k - w)))
        return out
    res = []
    for s, p, got in drop(st, v[2], lo[2]):
        if hi is None:
            res.append((s, ("str", v[1], p)))
        else:
            for s2, p2, got2 in drop(s, p, hi[2] - lo[2]):
                res.append((s2, ("str", v[1], got2)))
    return res


@model(r"core::slice::<impl \[T\]>::(first|last|get)", r"core::slice::<impl \[T\]>::get::<usize>")
def m_slice_get(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    nm = inst.name.split("::")[-1]
    if nm == "get":
        if e.p.tys[at[1]].k != "int" or not isconst(a[1]):
            raise Unmodelled("slice get")
        k = a[1][2]
    else:
        k = 0 if nm == "first" else len(v[2]) - 1
    if all(x[0] == "e" for x in v[2]):
        if k < 0 or k >= len(v[2]):
            return [(st, NONE)]
        return [(st, some(("r", ("K", v[2][k][1]), ()) if a[0][0] != "r" else optref(a[0], (("x", k),))))]
    if nm in ("first",) or nm == "get" and k == 0:
        out = []
        for n, x, rest in uncons(e, st, v[1], v[2]):
            out.append((n, NONE if x is None else some(("r", ("K", x), ()))))
        return out
    if nm == "last":
        out = []
        for n, x, rest in uncons(e, st, v[1], v[2], back=True):
            out.append((n, NONE if x is None else some(("r", ("K", x), ()))))
        return out
    raise Unmodelled("get on abstract sequence")


@model(r"core::str::<impl str>::(starts_with|ends_with|contains|strip_prefix|strip_suffix)")
def m_starts(e, st, inst, a, at, dt, d, t, sp):
    nm = next(x for x in ("starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix") if "::" + x in inst.name)
    back, strip = nm in ("ends_with", "strip_suffix"), nm.startswith("strip")
    v = seq(e, st, a[0])
    p = deref(e, st, a[1])
    if nm == "contains":
        raise Unmodelled("contains")
    if p[0] == "i":
        text = [p]
    elif p[0] in ("str", "q") and all(x[0] == "e" for x in p[2]):
        text = [x[1] for x in p[2]]
    else:
        raise Unmodelled("pattern")
    if back:
        text = text[::-1]
    out = []
    work = [(st, v[2], 0)]
    while work:
        s, parts, k = work.pop()
        if k == len(text):
            out.append((s, some(("str", v[1], parts)) if strip else TRUE))
            continue
        for n, x, rest in uncons(e, s, v[1], parts, back=back):
            if x is None:
                out.append((n, NONE if strip else FALSE))
                continue
            for m, r in e.cmp(n, "Eq", x, text[k]):
                if r:
                    work.append((m, rest, k + 1))
                else:
                    out.append((m, NONE if strip else FALSE))
    return out


@model(r"std::slice::<impl \[T\]>::(sort|sort_unstable)", r"core::slice::<impl \[T\]>::(sort|sort_unstable)")
def m_sort(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    if len(v[2]) < 2 and all(x[0] == "e" for x in v[2]):
        return [(st, UNIT)]
    el = None
    key = tuple(sorted(v[2], key=repr)) if all(x[0] == "e" for x in v[2]) else v[2]
    if all(x[0] == "e" and isconst(x[1]) for x in v[2]):
        setref(e, st, a[0], ("q", v[1], tuple(sorted(v[2], key=lambda x: x[1][2]))))
        return [(st, UNIT)]
    s = e.define(st, ("sorted", key), ("s", e.cd.ALL if v[1] == "c" else (0, (1 << 64) - 1), 0, frozenset()))
    setref(e, st, a[0], ("q", v[1], (("S", s),)))
    return [(st, UNIT)]


# ------------------------------------------------------------------ VecDeque
@model(r"std::collections::VecDeque::<T(, A)?>::(new|with_capacity)", r"<std::collections::VecDeque<T> as std::default::Default>::default")
def m_dq_new(e, st, inst, a, at, dt, d, t, sp):
    cap = a[0][2] if a and isconst(a[0]) else 0
    return [(st, ("dq", "e", (), cap))]


def dqset(v, parts):
    cap = v[3]
    if len(parts) > cap:
        cap = max(2 * cap, len(parts))
    return ("dq", v[1], parts, cap)


@model(r"std::collections::VecDeque::<T, A>::(push_back|push_front|pop_front|pop_back|clear|truncate)")
def m_dq_mut(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "dq":
        raise Unmodelled("deque operation on %s" % v[0])
    nm = inst.name.split("::")[-1]
    p = v[2]
    if nm == "push_back":
        setref(e, st, a[0], dqset(v, p + (("e", a[1]),)))
        return [(st, UNIT)]
    if nm == "push_front":
        setref(e, st, a[0], dqset(v, (("e", a[1]),) + p))
        return [(st, UNIT)]
    if nm == "clear":
        setref(e, st, a[0], dqset(v, ()))
        return [(st, UNIT)]
    if nm == "truncate":
        if not isconst(a[1]):
            raise Unmodelled("truncate")
        setref(e, st, a[0], dqset(v, p[:a[1][2]]))
        return [(st, UNIT)]
    if not p:
        return [(st, NONE)]
    if nm == "pop_front":
        setref(e, st, a[0], dqset(v, p[1:]))
        return [(st, some(p[0][1]))]
    setref(e, st, a[0], dqset(v, p[:-1]))
    return [(st, some(p[-1][1]))]


@model(r"std::collections::VecDeque::<T, A>::(front|back|get|front_mut|back_mut|get_mut)")
def m_dq_get(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "dq":
        raise Unmodelled("deque operation on %s" % v[0])
    nm = inst.name.split("::")[-1].replace("_mut", "")
    k = {"front": 0, "back": len(v[2]) - 1}.get(nm)
    if k is None:
        if not isconst(a[1]):
            raise Unmodelled("symbolic index")
        k = a[1][2]
    if k < 0 or k >= len(v[2]):
        return [(st, NONE)]
    return [(st, some(optref(a[0], (("x", k),))))]


@model(r"<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index",
       r"<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut")
def m_dq_index(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if not isconst(a[1]):
        raise Unmodelled("symbolic index")
    k = a[1][2]
    if k >= len(v[2]):
        e.event(st, "panic", "index out of bounds", sp)
        return []
    return [(st, optref(a[0], (("x", k),)))]


@model(r"std::collections::VecDeque::<T, A>::capacity")
def m_dq_cap(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "dq":
        raise Unmodelled("capacity of %s" % v[0])
    return [(st, C(v[3]))]


@model(r"std::(string::String|vec::Vec::<T, A>)::(capacity)")
def m_cap(e, st, inst, a, at, dt, d, t, sp):
    # not tracked; assumed to hold a couple of elements
    return [(st, symv(e.newsym(st, ("n", 2, 1 << 62, False))))]


@model(r"std::(string::String|vec::Vec::<T, A>|collections::VecDeque::<T, A>)::(reserve|reserve_exact|shrink_to_fit)")
def m_reserve(e, st, inst, a, at, dt, d, t, sp):
    return [(st, UNIT)]


# ------------------------------------------------------------------ maps
@model(r"std::collections::(HashMap|BTreeMap)::<K, V(, A)?>::(new|with_capacity)",
       r"<std::collections::(HashMap|BTreeMap)<K, V.*> as std::default::Default>::default")
def m_map_new(e, st, inst, a, at, dt, d, t, sp):
    return [(st, ("map", frozen(())))]


class Frozen:
    """Symbol-free table shared by all states (never descended into)."""
    __slots__ = ("e",)

    def __repr__(self):
        return "<%d entries>" % len(self.e)

    def __reduce__(self):
        return frozen, (self.e,)


_frozen = {}


def frozen(t):
    r = _frozen.get(t)
    if r is None:
        r = _frozen[t] = Frozen()
        r.e = t
    return r


def map_entries(v):
    return v[1].e if isinstance(v[1], Frozen) else v[1]


def map_of(ents):
    from engine import has_sym
    return ("map", tuple(ents) if has_sym(ents) else frozen(tuple(ents)))


@model(r"std::collections::(HashMap|BTreeMap)::<K, V.*>::insert")
def m_map_insert(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "map":
        raise Unmodelled("insert into %s" % v[0])
    k = seq(e, st, a[1])[2]
    ents = list(map_entries(v))
    for i, (kk, vv) in enumerate(ents):
        if kk == k:
            ents[i] = (k, a[2])
            setref(e, st, a[0], map_of(tuple(ents)))
            return [(st, some(vv))]
    if parts_const(k) is None:
        raise Unmodelled("map insert with symbolic key")
    setref(e, st, a[0], map_of(tuple(ents) + ((k, a[2]),)))
    return [(st, NONE)]


@model(r"std::collections::(HashMap|BTreeMap)::<K, V.*>::(get|contains_key)")
def m_map_get(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "map":
        raise Unmodelled("lookup in %s" % v[0])
    k = seq(e, st, a[1])
    has = inst.name.endswith("contains_key")
    out = []
    cur = [(st, k[2])]
    for kk, vv in map_entries(v):
        text = parts_const(kk)
        nxt = []
        for s, parts in cur:
            # the key's parts may have been rewritten by substitution in other branches only
            for n, r in eq_lit(e, s, parts, text) if parts_const(parts) is None else [(s, parts_const(parts) == text)]:
                if r:
                    out.append((n, TRUE if has else some(("r", ("K", vv), ()))))
                else:
                    nxt.append((n, parts))
        cur = nxt
        if not cur:
            break
    for s, parts in cur:
        out.append((s, FALSE if has else NONE))
    return out


# ------------------------------------------------------------------ characters and numbers
def pred_model(name):
    def f(e, st, inst, a, at, dt, d, t, sp):
        c = deref(e, st, a[0])
        m = e.charset(st, c)
        if m is None:
            return [(n, C(int(r))) for n, r in e.fork_unknown(st, "predicate on computed character")]
        p = e.cd.pred[name]
        if isconst(c):
            return [(st, C(int(bool(m & p))))]
        return [(n, C(int(r))) for n, r in e._split_char(st, c[1][0][0], p)]
    return f


for nm in ("alphabetic", "numeric", "whitespace", "lowercase", "uppercase", "control"):
    MODELS.append((re.compile(r"std::char::methods::<impl char>::is_" + nm), pred_model(nm)))
MODELS.append((re.compile(r"<char as ucd::Codepoint>::is_(x)?id_start"), pred_model("id_start")))
MODELS.append((re.compile(r"<char as ucd::Codepoint>::is_(x)?id_continue"), pred_model("id_continue")))
for nm, p in (("alphabetic", "alphabetic"), ("numeric", "numeric"), ("lowercase", "lowercase"), ("uppercase", "uppercase"),
              ("white_space", "whitespace")):
    MODELS.append((re.compile(r"<char as ucd::Codepoint>::is_" + nm), pred_model(p)))


@model(r"std::char::methods::<impl char>::is_alphanumeric")
def m_alnum(e, st, inst, a, at, dt, d, t, sp):
    c = deref(e, st, a[0])
    m = e.charset(st, c)
    if m is None or isconst(c):
        if m is None:
            raise Unmodelled("alnum")
        return [(st, C(int(bool(m & (e.cd.pred["alphabetic"] | e.cd.pred["numeric"])))))]
    return [(n, C(int(r))) for n, r in
            e._split_char(st, c[1][0][0], e.cd.pred["alphabetic"] | e.cd.pred["numeric"])]


def digit_mask(e, radix):
    m = 0
    for i in range(min(radix, 10)):
        m |= e.cd.of(48 + i)
    for i in range(max(0, radix - 10)):
        m |= e.cd.of(65 + i) | e.cd.of(97 + i)
    return m


def digit_value(e, st, c, radix):
    """Value of a digit character known to be valid in radix."""
    m = e.charset(st, c)
    one = e.cd.single(m)
    if one is not None:
        return C(int(chr(one), 36))
    vals = []
    for k in range(e.cd.n):
        if m >> k & 1:
            vals.append(int(chr(e.cd.atoms[k][0]), 36))
    s = e.define(st, ("dig", c[1][0][0], radix), ("n", min(vals), max(vals), False))
    e.refine_int(st, s, min(vals), max(vals))
    return symv(s)


@model(r"std::char::methods::<impl char>::(to_digit|is_digit)", r"std::char::convert::to_digit")
def m_to_digit(e, st, inst, a, at, dt, d, t, sp):
    if not isconst(a[1]):
        raise Unmodelled("symbolic radix")
    r = a[1][2]
    m = e.charset(st, a[0])
    if m is None:
        raise Unmodelled("digit of computed character")
    dm = digit_mask(e, r)
    isd = inst.name.endswith("is_digit")
    out = []
    if isconst(a[0]):
        b = bool(m & dm)
        return [(st, C(int(b)) if isd else (some(C(int(chr(a[0][2]), 36))) if b else NONE))]
    for n, b in e._split_char(st, a[0][1][0][0], dm):
        if isd:
            out.append((n, C(int(b))))
        elif b:
            out.append((n, some(digit_value(e, n, a[0], r))))
        else:
            out.append((n, NONE))
    return out


@model(r"std::char::from_u32", r"core::char::(methods::<impl char>::)?from_u32", r"std::char::methods::<impl char>::from_u32",
       r"std::char::convert::from_u32")
def m_from_u32(e, st, inst, a, at, dt, d, t, sp):
    v = a[0]
    out = []
    if e.charset(st, v) is not None and not isconst(v):
        return [(st, some(v))]
    for n, le in e.cmp(st, "Le", v, C(0xD7FF)):
        if le:
            out.append((n, some(char_of(e, n, v))))
            continue
        for n2, ge in e.cmp(n, "Ge", v, C(0xE000)):
            if not ge:
                out.append((n2, NONE))
                continue
            for n3, le3 in e.cmp(n2, "Le", v, C(0x10FFFF)):
                out.append((n3, some(char_of(e, n3, v)) if le3 else NONE))
    return out


@model(r"std::char::(methods::<impl char>::)?from_u32_unchecked", r"std::char::convert::from_u32_unchecked")
def m_from_u32u(e, st, inst, a, at, dt, d, t, sp):
    return [(st, char_of(e, st, a[0]))]


@model(r"(std|core)::char::convert::<impl std::convert::From<u8> for char>::from")
def m_char_from_u8(e, st, inst, a, at, dt, d, t, sp):
    return e.cast(st, "IntToInt", a[0], dt)


@model(r"std::char::(methods::<impl char>::)?from_digit", r"std::char::convert::from_digit")
def m_from_digit(e, st, inst, a, at, dt, d, t, sp):
    raise Unmodelled("from_digit")


@model(r"std::char::methods::<impl char>::len_utf8")
def m_len_utf8(e, st, inst, a, at, dt, d, t, sp):
    return [(st, byte_len(e, st, ("q", "c", (("e", a[0]),))))]


@model(r"std::f64::<impl f64>::mul_add", r"std::num::.*<impl f64>::mul_add", r"core::f64::.*mul_add")
def m_mul_add(e, st, inst, a, at, dt, d, t, sp):
    return [(st, e.mul_add(st, a[0], a[1], a[2]))]


@model(r"std::convert::num::<impl std::convert::From<(u8|u16|u32|i8|i16|i32)> for f64>::from",
       r"core::convert::num::<impl std::convert::From<(u8|u16|u32|i8|i16|i32)> for f64>::from")
def m_f64_from(e, st, inst, a, at, dt, d, t, sp):
    return e.cast(st, "IntToFloat", a[0], dt)


@model(r"(std|core)::convert::num::<impl std::convert::From<(char|u8|u16|u32|bool)> for (u8|u16|u32|u64|usize|i32|i64)>::from",
       r"std::char::convert::<impl std::convert::From<char> for u32>::from",
       r"(std|core)::char::convert::<impl std::convert::From<char> for u32>::from")
def m_int_from(e, st, inst, a, at, dt, d, t, sp):
    return [(st, a[0])]


NUM_DFA_START = "S"


def num_step(q, cls):
    """Rust's f64 grammar (no sign / inf / nan prefixes are needed for accepted inputs)."""
    T = {
        ("S", "d"): "I", ("S", "."): "D0", ("S", "s"): "S1",
        ("S1", "d"): "I", ("S1", "."): "D0",
        ("I", "d"): "I", ("I", "."): "F", ("I", "e"): "E",
        ("D0", "d"): "F",
        ("F", "d"): "F", ("F", "e"): "E",
        ("E", "d"): "X", ("E", "s"): "E1", ("E1", "d"): "X", ("X", "d"): "X",
    }
    return T.get((q, cls), "R")


def float_parse(e, st, parts):
    dig = digit_mask(e, 10)
    dot, ee, sg = e.cd.of(46), e.cd.of(101) | e.cd.of(69), e.cd.of(43) | e.cd.of(45)
    other = e.cd.ALL & ~(dig | dot | ee | sg)

    def stepset(q, m):
        r = set()
        for x in q:
            for mm, c in ((dig, "d"), (dot, "."), (ee, "e"), (sg, "s"), (other, "o")):
                if m & mm:
                    r.add(num_step(x, c))
        return r
    q = {"S"}
    for x in parts:
        if x[0] == "e":
            m = e.charset(st, x[1])
            q = stepset(q, e.cd.ALL if m is None else m)
        else:
            at = st.attr[x[1]]
            m = at[1] if type(at[1]) is int else e.cd.ALL
            for _ in range(at[2]):
                q = stepset(q, m)
            while True:
                n = q | stepset(q, m)
                if n == q:
                    break
                q = n
    acc = {"I", "F", "X"}
    return bool(q & acc), bool(q - acc)


@model(r"core::num::.*<impl std::str::FromStr for f64>::from_str")
def m_parse_f64(e, st, inst, a, at, dt, d, t, sp):
    v = seq(e, st, a[0])
    yes, no = float_parse(e, st, v[2])
    out = []
    if yes:
        n = st.copy() if no else st
        out.append((n, ok(("f", "parse", v[2]))))
    if no:
        out.append((st, err(TOP)))
    return out


@model(r"(core|std)::num::.*<impl std::str::FromStr for (u|i)\w+>::from_str", r"(core|std)::num::<impl (u|i)\w+>::from_str_radix")
def m_parse_int(e, st, inst, a, at, dt, d, t, sp):
    n = st.copy()
    n.uncertain("integer parsing")
    st.uncertain("integer parsing")
    return [(st, ok(TOP)), (n, err(TOP))]


@model(r"(core|std)::num::<impl (u8|u16|u32|u64|usize|i32|i64)>::(wrapping|saturating|checked|overflowing)_(add|sub|mul)")
def m_arith(e, st, inst, a, at, dt, d, t, sp):
    m = re.search(r"<impl (\w+)>::(\w+)_(\w+)$", inst.name)
    ty, mode, op = m.groups()
    bits = 64 if ty.endswith("size") else int(ty[1:])
    lo, hi = (0, (1 << bits) - 1) if ty[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    x, y = a
    if x[0] != "i" or y[0] != "i":
        raise Unmodelled(mode)
    if op == "mul":
        if isconst(y):
            from engine import lmul
            v = lmul(x, y[2])
        elif isconst(x):
            from engine import lmul
            v = lmul(y, x[2])
        else:
            raise Unmodelled("nonlinear " + mode)
    else:
        v = ladd(x, y, 1 if op == "add" else -1)
    out = []
    res = []
    o = e.over(st, v, lo, hi)
    if o is False:
        res = [(st, 0)]
    else:
        for n, le in e.cmp(st, "Le", v, C(hi)):
            if not le:
                res.append((n, 1))
                continue
            for n2, ge in e.cmp(n, "Ge", v, C(lo)):
                res.append((n2, 0 if ge else -1))
    for n, k in res:
        if k == 0:
            r = {"wrapping": v, "saturating": v, "checked": some(v), "overflowing": ("A", 0, (v, FALSE))}[mode]
        elif mode == "saturating":
            r = C(hi if k > 0 else lo)
        elif mode == "checked":
            r = NONE
        else:
            w = symv(e.define(n, ("wrap", v, bits), ("n", lo, hi, False)))
            if isconst(v):
                w = C(v[2] & ((1 << bits) - 1))
            r = w if mode == "wrapping" else ("A", 0, (w, TRUE))
        out.append((n, r))
    return out


@model(r"std::cmp::(min|max)", r"std::cmp::Ord::(min|max)", r"(core|std)::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max)")
def m_minmax(e, st, inst, a, at, dt, d, t, sp):
    if a[0][0] != "i" or a[1][0] != "i":
        return NotImplemented
    mx = inst.name.endswith("max")
    return [(n, a[1] if le == mx else a[0]) for n, le in e.cmp(st, "Le", a[0], a[1])]


# ------------------------------------------------------------------ ranges
@model(r"std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_range_next(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    if v[0] != "A":
        raise Unmodelled("range")
    lo, hi = v[2]
    out = []
    for n, lt in e.cmp(st, "Lt", lo, hi):
        if lt:
            setref(e, n, a[0], ("A", v[1], (ladd(lo, C(1)), hi)))
            out.append((n, some(lo)))
        else:
            out.append((n, NONE))
    return out


@model(r"std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def m_range_back(e, st, inst, a, at, dt, d, t, sp):
    v = deref(e, st, a[0])
    lo, hi = v[2]
    out = []
    for n, lt in e.cmp(st, "Lt", lo, hi):
        if lt:
            h = ladd(hi, C(-1))
            setref(e, n, a[0], ("A", v[1], (lo, h)))
            out.append((n, some(h)))
        else:
            out.append((n, NONE))
    return out


# ------------------------------------------------------------------ memory
@model(r"std::mem::replace")
def m_replace(e, st, inst, a, at, dt, d, t, sp):
    v = e.get(st, a[0][1], a[0][2])
    setref(e, st, a[0], a[1])
    return [(st, v)]


@model(r"std::mem::swap")
def m_swap(e, st, inst, a, at, dt, d, t, sp):
    x, y = e.get(st, a[0][1], a[0][2]), e.get(st, a[1][1], a[1][2])
    setref(e, st, a[0], y)
    setref(e, st, a[1], x)
    return [(st, UNIT)]


@model(r"std::option::Option::<T>::(take|replace)")
def m_opt_take(e, st, inst, a, at, dt, d, t, sp):
    v = e.get(st, a[0][1], a[0][2])
    setref(e, st, a[0], NONE if inst.name.endswith("take") else some(a[1]))
    return [(st, v)]


@model(r"(std|core)::intrinsics::cold_path")
def m_cold(e, st, inst, a, at, dt, d, t, sp):
    return [(st, UNIT)]


@model(r"std::mem::(drop|forget)", r"std::hint::black_box")
def m_drop(e, st, inst, a, at, dt, d, t, sp):
    return [(st, UNIT if "mem" in inst.name else a[0])]


@model(r"std::hint::must_use", r"std::convert::identity", r"<T as std::convert::From<T>>::from", r"<I as std::iter::IntoIterator>::into_iter")
def m_id(e, st, inst, a, at, dt, d, t, sp):
    return [(st, a[0])]


@model(r"std::boxed::Box::<T>::new")
def m_box(e, st, inst, a, at, dt, d, t, sp):
    e.hid += 1
    st.heap[e.hid] = a[0]
    return [(st, ("r", ("H", e.hid), ()))]


# ------------------------------------------------------------------ formatting
@model(r"core::fmt::rt::Argument::<'_>::new_(\w+)", r"std::fmt::rt::Argument::<'_>::new_(\w+)")
def m_fmtarg(e, st, inst, a, at, dt, d, t, sp):
    k = inst.name.split("new_")[1]
    return [(st, ("fmtarg", k, a[0], inst.ga[-1] if inst.ga else None))]


def display(e, st, v, ty, k="display"):
    """Parts of the formatted text of a value."""
    v = deref(e, st, v)
    if k == "display":
        if v[0] in ("q", "str") and v[1] == "c":
            return v[2]
        t = e.p.tys[ty] if isinstance(ty, int) else None
        while t is not None and t.k == "ref":
            t = e.p.tys[t.d["e"]]
        if v[0] == "i" and t is not None and t.k == "char":
            return (("e", v),)
        if v[0] == "i" and isconst(v) and t is not None and t.k == "int":
            return lit(str(v[2]))
        if v[0] == "i" and t is not None and t.k == "int":
            s = e.define(st, ("dec", v), ("s", digit_mask(e, 10) | e.cd.of(45), 1, frozenset()))
            return (("S", s),)
    s = e.newsym(st, ("s", e.cd.ALL, 0, frozenset()))
    return (("S", s),)


def decode_template(bs):
    out = []
    i = 0
    arg = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode()))
            i += n
        else:
            plain = b == 0xC0 or b == 0xC8
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("arg", arg, plain))
            arg += 1
    return out


@model(r"std::fmt::Arguments::<'a>::new", r"core::fmt::Arguments::<'a>::new")
def m_args_new(e, st, inst, a, at, dt, d, t, sp):
    tm = deref(e, st, a[0])
    ar = deref(e, st, a[1])
    bs = [x[1][2] for x in tm[2]]
    parts = ()
    for x in decode_template(bs):
        if x[0] == "lit":
            parts += lit(x[1])
        else:
            fa = ar[2][x[1]][1]
            if fa[0] == "r":
                fa = deref(e, st, fa)
            if fa[0] != "fmtarg":
                raise Unmodelled("format argument")
            if x[2]:
                parts += display(e, st, fa[2], fa[3], fa[1])
            else:
                parts += (("S", e.newsym(st, ("s", e.cd.ALL, 0, frozenset()))),)
    return [(st, ("fmtargs", parts))]


@model(r"std::fmt::Arguments::<'a>::(from_str|from_str_nonconst|new_const)", r"core::fmt::Arguments::<'a>::from_str.*")
def m_args_str(e, st, inst, a, at, dt, d, t, sp):
    return [(st, ("fmtargs", seq(e, st, a[0])[2]))]


@model(r"std::fmt::format", r"alloc::fmt::format")
def m_format(e, st, inst, a, at, dt, d, t, sp):
    if a[0][0] != "fmtargs":
        raise Unmodelled("format")
    return [(st, ("q", "c", a[0][1]))]


@model(r"std::fmt::Formatter::<'a>::(write_fmt|write_str)", r"<std::fmt::Formatter<'_> as std::fmt::Write>::write_(str|fmt|char)")
def m_fmt_write(e, st, inst, a, at, dt, d, t, sp):
    f = deref(e, st, a[0])
    x = a[1]
    p = x[1] if x[0] == "fmtargs" else ((("e", x),) if x[0] == "i" else seq(e, st, x)[2])
    if f[0] == "q":
        setref(e, st, a[0], f[:2] + (f[2] + p,))
    return [(st, ok(UNIT))]


@model(r"std::fmt::Write::write_fmt", r"<std::string::String as std::fmt::Write>::write_(str|fmt|char)")
def m_fmt_write2(e, st, inst, a, at, dt, d, t, sp):
    return m_fmt_write(e, st, inst, a, at, dt, d, t, sp)


@model(r"<str as std::fmt::Display>::fmt", r"<std::string::String as std::fmt::Display>::fmt")
def m_str_fmt(e, st, inst, a, at, dt, d, t, sp):
    f = deref(e, st, a[1])
    if f[0] == "q":
        setref(e, st, a[1], f[:2] + (f[2] + seq(e, st, a[0])[2],))
    return [(st, ok(UNIT))]
