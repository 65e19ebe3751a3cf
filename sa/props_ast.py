"""Contracts of the syntax tree types (crate easter): locations, equality, operators, cover grammar."""
import itertools
import re

import build
from common import Result
from contract import Unit, short
from engine import C, FALSE, NONE, TRUE, UNIT, Unmodelled, isconst, ok, parts_const, some
from models import deref, setref

UN = r".* as .*track::Untrack>::untrack"
REF = r".* as .*track::Tracking(Ref|Mut)>::tracking_(ref|mut)"


SPELL = {
    "unop": {"Minus": "-", "Plus": "+", "Not": "!", "BitNot": "~", "Typeof": "typeof", "Void": "void", "Delete": "delete"},
    "binop": {"Eq": "==", "NEq": "!=", "StrictEq": "===", "StrictNEq": "!==", "Lt": "<", "LEq": "<=", "Gt": ">", "GEq": ">=",
              "LShift": "<<", "RShift": ">>", "URShift": ">>>", "Plus": "+", "Minus": "-", "Times": "*", "Div": "/", "Mod": "%",
              "BitOr": "|", "BitXor": "^", "BitAnd": "&", "In": "in", "Instanceof": "instanceof"},
    "logop": {"Or": "||", "And": "&&"},
    "assop": {"PlusEq": "+=", "MinusEq": "-=", "TimesEq": "*=", "DivEq": "/=", "ModEq": "%=", "LShiftEq": "<<=", "RShiftEq": ">>=",
              "URShiftEq": ">>>=", "BitOrEq": "|=", "BitXorEq": "^=", "BitAndEq": "&="},
}
# ECMA-262 12.6 to 12.13: the cascade of binary operators, as relative levels
LEVEL = [["Or"], ["And"], ["BitOr"], ["BitXor"], ["BitAnd"], ["Eq", "NEq", "StrictEq", "StrictNEq"],
         ["Lt", "LEq", "Gt", "GEq", "In", "Instanceof"], ["LShift", "RShift", "URShift"], ["Plus", "Minus"], ["Times", "Div", "Mod"]]
TOKEN = {"==": "Eq", "!=": "NEq", "===": "StrictEq", "!==": "StrictNEq", "<": "LAngle", "<=": "LEq", ">": "RAngle", ">=": "GEq",
         "<<": "LShift", ">>": "RShift", ">>>": "URShift", "+": "Plus", "-": "Minus", "*": "Star", "/": "Slash", "%": "Mod",
         "|": "BitOr", "^": "BitXor", "&": "BitAnd", "in": "Reserved:In", "instanceof": "Reserved:Instanceof",
         "||": "LogicalOr", "&&": "LogicalAnd", "+=": "PlusAssign", "-=": "MinusAssign", "*=": "StarAssign", "/=": "SlashAssign",
         "%=": "ModAssign", "<<=": "LShiftAssign", ">>=": "RShiftAssign", ">>>=": "URShiftAssign", "|=": "BitOrAssign",
         "^=": "BitXorAssign", "&=": "BitAndAssign"}


class Check:
    def __init__(self):
        dump, self.hash = build.upper_dump("easter.rs", "easter")
        self.u = u = Unit(dump)
        self.leaves = {}
        self.locty = {}
        self.spanopt = None

    # ---------------------------------------------------------------- types
    def tname(self, t):
        return self.u.p.tys[t].d.get("name", "")

    def short(self, t):
        s = self.u.p.tys[t].s
        return re.sub(r"[A-Za-z_0-9]+::", "", s)

    def args(self, t):
        return [x for x in self.u.p.tys[t].d.get("args", []) if isinstance(x, int)]

    def is_loc(self, t):
        """Option<Span> or Option<Posn>."""
        n = self.u.p.tys[t]
        return n.k == "adt" and n.d["name"] == "std::option::Option" and self.tname(self.args(t)[0]).endswith(("track::Span", "track::Posn"))

    def located(self, t, seen=()):
        """Does a value of the type contain a location?"""
        if t in self.locty:
            return self.locty[t]
        if t in seen:
            return False
        n = self.u.p.tys[t]
        r = False
        if n.k == "adt":
            nm = n.d["name"]
            if nm.endswith(("track::Span", "track::Posn")):
                r = True
            elif nm in ("std::vec::Vec", "std::boxed::Box", "std::option::Option"):
                r = self.located(self.args(t)[0], seen + (t,))
            elif not nm.startswith(("std::", "core::", "alloc::")):
                r = any(self.located(f["t"], seen + (t,)) for v in n.d["vars"] for f in v["f"])
        elif n.k == "tuple":
            r = any(self.located(f, seen + (t,)) for f in n.d["f"])
        if not seen:
            self.locty[t] = r
        return r

    # ---------------------------------------------------------------- leaves
    def m_untrack(self, e, st, inst, a, at, dt, d, t, sp):
        r = a[0]
        v = deref(e, st, r)
        setref(e, st, r, ("un", v))
        return [(st, UNIT)]

    def m_ref(self, e, st, inst, a, at, dt, d, t, sp):
        r = a[0]
        while True:
            x = e.get(st, r[1], r[2])
            if x[0] != "r":
                break
            r = x
        return [(st, ("r", ("T", r), ()))]

    # ---------------------------------------------------------------- values
    def values(self, st0, t):
        """[(state, value, what)] covering the values of a type, one level deep."""
        u = self.u
        n = u.p.tys[t]
        nm = n.d.get("name", "") if n.k == "adt" else ""
        out = []
        if nm == "std::boxed::Box":
            st = st0.copy()
            u.e.hid += 1
            st.heap[u.e.hid] = u.sym(st, self.args(t)[0])
            return [(st, ("box", u.e.hid), "a box")]
        if nm == "std::vec::Vec":
            for k in range(4):
                st = st0.copy()
                out.append((st, ("q", "e", tuple(("e", u.sym(st, self.args(t)[0])) for _ in range(k))), "%d elements" % k))
            return out
        if n.k == "adt" and n.d["adt"] in ("Enum", "Struct") and not nm.startswith("std::string"):
            for i, v in enumerate(n.d["vars"]):
                st = st0.copy()
                out.append((st, ("A", i, tuple(u.sym(st, f["t"]) for f in v["f"])), v["n"]))
            return out
        st = st0.copy()
        return [(st, u.sym(st, t), "any value")]

    def fields(self, t, v):
        """[(name, type, value)] of a value built by values()."""
        n = self.u.p.tys[t]
        if v[0] == "q":
            return [("element %d" % i, self.args(t)[0], x[1]) for i, x in enumerate(v[2])]
        return [(f["n"], f["t"], x) for f, x in zip(n.d["vars"][v[1]]["f"], v[2])]

    # ---------------------------------------------------------------- untrack
    def clean(self, t, v, orig):
        """v: what untrack left of orig; None or what is wrong."""
        if v == ("un", orig):
            return None
        if v[0] == "un":
            return "is not the value that was there"
        if self.is_loc(t):
            return None if v == NONE else "keeps its location"
        if not self.located(t):
            return None if v == orig else "changes although it has no location"
        return "keeps its locations"

    def untrack(self):
        u = self.u
        u.leaves((UN, self.m_untrack))
        k = 0
        semi = set()
        for inst in list(u.p.insts):
            if inst.raw is None or not re.fullmatch(UN, inst.name):
                continue
            t = u.p.tys[inst.raw["locals"][1]].d["e"]
            nm = self.short(t)
            for st, v, what in self.values(u.state(), t):
                k += 1
                c = u.cell(st, v)
                root = "untrack of %s" % nm
                orig = v if v[0] != "box" else st.heap[v[1]]
                for s, r in u.paths_of(root, st, [c], inst=inst.id):
                    w = u.e.get(s, c[1], c[2])
                    if self.is_loc(t):
                        if w != NONE:
                            u.bad(what, "the location is not removed", root, s, got=w)
                        continue
                    if v[0] == "box":
                        w = s.heap[v[1]] if w == v else w
                        m = self.clean(self.args(t)[0], w, orig)
                        if m:
                            u.bad(what, "the boxed value %s" % m, root, s, got=w)
                        continue
                    if nm == "Semi":
                        semi.add(w)
                        if len(semi) > 1:
                            u.bad("semi", "inserted and explicit semicolons stay different", root, s)
                        if w[0] != "A" or any(self.clean(f, x, x) for _, f, x in self.fields(t, w)):
                            u.bad(what, "a semicolon keeps its position", root, s, got=w)
                        continue
                    if v[0] not in ("A", "q"):
                        if w != v:
                            u.bad(what, "%s changes" % what, root, s, got=w)
                        continue
                    if w[0] != v[0] or (w[0] == "A" and w[1] != v[1]) or len(w[2]) != len(v[2]):
                        u.bad(what, "%s becomes something else" % what, root, s, got=w)
                        continue
                    for (fn, ft, fo), (_, _, fv) in zip(self.fields(t, v), self.fields(t, w)):
                        m = self.clean(ft, fv, fo)
                        if m:
                            u.bad("%s.%s" % (what, fn), "in %s, %s %s" % (what, fn if fn[0] == "e" else "field " + fn, m), root, s, got=fv)
        return k

    # ---------------------------------------------------------------- tracking_ref / tracking_mut
    def tracking(self):
        u = self.u
        u.leaves((REF, self.m_ref))
        k = 0
        for inst in list(u.p.insts):
            if inst.raw is None or not re.fullmatch(REF, inst.name):
                continue
            t = u.p.tys[inst.raw["locals"][1]].d["e"]
            if u.p.tys[t].k == "ref":
                continue
            root = "%s of %s" % (inst.name.rsplit("::", 1)[1], self.short(t))
            for st, v, what in self.values(u.state(), t):
                k += 1
                c = u.cell(st, v)
                for s, r in u.paths_of(root, st, [c], inst=inst.id):
                    if self.norm(s, u.e.get(s, c[1], c[2])) != self.norm(s, v):
                        u.bad(what, "asking for the location of %s changes it" % what, root, s)
                    if self.is_loc(t):
                        if not (r[0] == "r" and r[1:] == c[1:]):
                            u.bad(what, "not the location itself", root, s, got=r)
                        continue
                    own = [i for i, (fn, ft, _) in enumerate(self.fields(t, v)) if self.is_loc(ft)]
                    named = [i for i in own if self.fields(t, v)[i][0] == "location"]
                    own = named or own[:1]
                    if own:
                        want = ("r", c[1], c[2] + (("f", own[0]),))
                        good = self.same_place(st, r, c, own[0])
                    else:
                        good = False
                        if r[0] == "r" and r[1][0] == "T":
                            g = r[1][1]
                            good = [i for i, f in enumerate(self.fields(t, v)) if self.located(f[1]) and self.same_place(st, g, c, i)][:1] == [0]
                            want = "the location of its first part"
                        elif r[0] == "r":
                            want = "the location of its part"
                        else:
                            want = None
                    if not good:
                        u.bad(what, "the location of %s is not %s" % (what, "its own location field" if own else want), root, s, got=r)
        return k

    # ---------------------------------------------------------------- equality
    def m_eq(self, e, st, inst, a, at, dt, d, t, sp):
        x, y = (deref(e, st, v) for v in a)
        out = []
        known = x[0] == y[0] == "q" and all(p[0] == "e" for p in x[2] + y[2])
        for r in (1, 0):
            if known and (len(x[2]) != len(y[2]) or not x[2]) and r != int(len(x[2]) == len(y[2])):
                continue
            s = st.copy()
            s.g = dict(s.g, eqs=s.g.get("eqs", ()) + ((x, y, r),))
            out.append((s, C(r)))
        return out

    def norm(self, s, v):
        while v[0] == "box" or v[0] == "r" and v[1][0] == "H":
            v = s.heap[v[1]] if v[0] == "box" else self.u.e.get(s, v[1], v[2])
        if v[0] == "o":
            v = s.facts.get(("exp", v[1]), v)
        if v[0] in ("A", "q"):
            return (v[0], v[1], tuple(("e", self.norm(s, x[1])) if v[0] == "q" and x[0] == "e" else self.norm(s, x) if v[0] == "A" else x
                                      for x in v[2]))
        return v

    def same(self, t, x, y, eqs):
        """Are two values known to be equal (1), known to be different (0) or neither (None)?"""
        if (x, y) in eqs or (y, x) in eqs:
            return eqs.get((x, y), eqs.get((y, x)))
        if x[0] == y[0] and x[0] in ("A", "q") and x[0] == "A":
            if x[1] != y[1]:
                return 0
            rs = [self.same(None, p, q, eqs) for p, q in zip(x[2], y[2])]
            return 0 if 0 in rs else None if None in rs else 1
        if x[0] == y[0] == "q":
            if any(p[0] != "e" for p in x[2] + y[2]):
                return None
            if len(x[2]) != len(y[2]):
                return 0
            rs = [self.same(None, p[1], q[1], eqs) for p, q in zip(x[2], y[2])]
            return 0 if 0 in rs else None if None in rs else 1
        if isconst(x) and isconst(y):
            return int(x == y)
        if x == y and x[0] == "A" and not x[2]:
            return 1
        return None

    def alts(self, st, t):
        """Values that cover a field type and that a comparison can look into."""
        u = self.u
        n = u.p.tys[t]
        if n.k == "bool":
            return [C(0), C(1)]
        if n.k == "adt" and n.d["name"] == "std::option::Option" and self.tname(self.args(t)[0]) == "std::vec::Vec":
            el = self.args(self.args(t)[0])[0]
            return [NONE] + [some(("q", "e", tuple(("e", u.sym(st, el)) for _ in range(k)))) for k in range(3)]
        return [u.sym(st, t)]

    def noargs(self, t, v):
        """`new f` and `new f()` are the same expression."""
        if self.short(t) == "Expr" and self.u.variant(t, v[1]) == "New":
            return ("A", v[1], tuple(some(("q", "e", ())) if x == NONE and i == 2 else x for i, x in enumerate(v[2])))
        return v

    def equality(self):
        u = self.u
        u.leaves((r"<.* as std::cmp::PartialEq(<.*>)?>::eq|std::vec::partial_eq::.*::eq", self.m_eq))
        k = 0
        for inst in list(u.p.insts):
            if inst.raw is None or not re.fullmatch(r"<.*easter::[a-z]+::\w+(<.*>)? as std::cmp::PartialEq>::eq", inst.name):
                continue
            t = u.p.tys[inst.raw["locals"][1]].d["e"]
            nm = self.short(t)
            root = "equality of %s" % nm
            vs = self.values(u.state(), t)
            for i, (_, _, what) in enumerate(vs):
                for j, (_, _, what2) in enumerate(vs):
                    k += 1
                    st0 = u.state()
                    xs = itertools.product(*[self.alts(st0, f["t"]) for f in u.p.tys[t].d["vars"][i]["f"]])
                    ys = list(itertools.product(*[self.alts(st0, f["t"]) for f in u.p.tys[t].d["vars"][j]["f"]]))
                    for x in xs:
                        for y in ys:
                            self.one_eq(root, inst, st0.copy(), t, ("A", i, x), ("A", j, y),
                                        what if i == j else "%s and %s" % (what, what2))
        return k

    def one_eq(self, root, inst, st, t, x, y, what):
        u = self.u
        cx, cy = u.cell(st, x), u.cell(st, y)
        seen = set()
        for s, r in u.paths_of(root, st, [cx, cy], inst=inst.id):
            eqs = {(self.norm(s, p), self.norm(s, q)): v for p, q, v in s.g.get("eqs", ())}
            a, b = self.norm(s, u.e.get(s, cx[1], cx[2])), self.norm(s, u.e.get(s, cy[1], cy[2]))
            got = r[2] if isconst(r) else None
            if got is None:
                # the comparison of two scalar fields is the result
                got = "?"
            want = self.same(t, self.noargs(t, a), self.noargs(t, b), eqs)
            seen.add(got)
            if got == "?" or want is None or want != got:
                fs = [f["n"] for f, p, q in zip(u.p.tys[t].d["vars"][a[1]]["f"], a[2], b[2]) if self.same(None, p, q, eqs) is None] \
                    if a[1] == b[1] else []
                m = "two %s compare %s" % (what, {1: "equal", 0: "different"}.get(got, "by something else"))
                if want is None and fs:
                    m += " although %s %s not compared" % (", ".join("field " + f for f in fs), "is" if len(fs) == 1 else "are")
                u.bad("%s|%s" % (what, got), m, root, s)

    # ---------------------------------------------------------------- operators
    def lit(self, s):
        return ("str", "c", tuple(("e", C(ord(c))) for c in s))

    def tagname(self, t, v):
        """Variant name of a tag, or of the tag in an operator."""
        n = self.u.p.tys[t]
        if v[0] != "A":
            return None
        if n.d["adt"] == "Enum":
            return self.u.variant(t, v[1])
        i = [i for i, f in enumerate(n.d["vars"][0]["f"]) if f["n"] == "tag"][0]
        return self.tagname(n.d["vars"][0]["f"][i]["t"], v[2][i])

    def loc(self, t, v):
        n = self.u.p.tys[t]
        return [x for f, x in zip(n.d["vars"][v[1]]["f"], v[2]) if f["n"] == "location"][0]

    def operators(self):
        u = self.u
        u.leaves()
        every = sorted({s for t in SPELL.values() for s in t.values()} | {"", "=", "++", "--", "in ", "=>", "Plus", "!!"})
        level = {}
        for kind, tab in SPELL.items():
            for root, wrap in ((kind + "_parse", 0), (kind + "_op_parse", 1)):
                if "root_" + root not in u.p.roots:
                    continue
                rt = u.argtys(root)[1]
                want = {v: k for k, v in tab.items()}
                for text in every + [None]:
                    st = u.state()
                    a = self.lit(text) if text is not None else ("str", "c", (("S", u.e.newsym(st, ("s", u.e.cd.ALL, 0, frozenset()))),))
                    for s, r in u.paths_of(root, st, [a]):
                        acc = r[0] == "A" and u.variant(rt, r[1]) == "Ok"
                        if text is None:
                            continue        # any other text: the paths where it equals an operator are checked above
                        if acc != (text in want):
                            u.bad(text, "%r is %s" % (text, "accepted" if acc else "rejected"), root, s)
                        elif acc:
                            ot = self.args(rt)[0]
                            if self.tagname(ot, r[2][0]) != want[text]:
                                u.bad(text, "%r becomes %s" % (text, self.tagname(ot, r[2][0])), root, s)
                            if wrap and self.loc(ot, r[2][0]) != NONE:
                                u.bad("loc", "a parsed operator has a location", root, s)
            for root in (kind + "_show", kind + "_prec"):
                if "root_" + root not in u.p.roots:
                    continue
                t = u.p.tys[u.argtys(root)[0][0]].d["e"]
                names = [v["n"] for v in u.p.tys[t].d["vars"]]
                if root.endswith("show") and set(names) != set(tab):
                    u.bad("variants", "the operators are %s" % " ".join(names), root)
                for i, nm in enumerate(names):
                    st = u.state()
                    args = [u.cell(st, ("A", i, ()))]
                    if root.endswith("show"):
                        args.append(u.cell(st, ("q", "c", ())))
                    for s, r in u.paths_of(root, st, args):
                        if root.endswith("prec"):
                            level.setdefault(nm, set()).add(r)
                            continue
                        out = self.shown(s, args[1])
                        if out != tab.get(nm):
                            u.bad(nm, "%s is written %r" % (nm, out), root, s)
        order = [[k for k in SPELL["assop"]]] + LEVEL
        for i, p in enumerate(order):
            for j, q in enumerate(order):
                for x in p:
                    for y in q:
                        if not level.get(x) or not level.get(y):
                            u.und["no precedence of %s or %s" % (x, y)] = 1
                        elif any(not isconst(v) for v in level[x] | level[y]):
                            u.und["the precedence of %s or %s is not a constant" % (x, y)] = 1
                        elif any((v[2] > w[2]) - (v[2] < w[2]) != (i > j) - (i < j) for v in level[x] for w in level[y]):
                            u.bad(min(x, y) + "|" + max(x, y), "%s does not bind %s %s" %
                                  (x, "as tightly as" if i == j else "tighter than" if i > j else "less tightly than", y), "precedence")
        for kind in ("binop", "logop", "assop"):
            root = "to_" + kind
            self.to_op(root, kind)

    def shown(self, s, f):
        return parts_const(self.u.e.get(s, f[1], f[2])[2])

    def to_op(self, root, kind):
        u = self.u
        at, rt = u.argtys(root)
        tok = u.p.tys[at[0]].d["e"]
        ot = self.args(rt)[0]
        fs = u.p.tys[tok].d["vars"][0]["f"]
        dt = [f["t"] for f in fs if f["n"] == "value"][0]
        want = {TOKEN[sp]: nm for nm, sp in SPELL[kind].items() if sp in TOKEN}
        for i, v in enumerate(u.p.tys[dt].d["vars"]):
            st = u.state()
            fields = []
            for f in v["f"]:
                n = u.p.tys[f["t"]]
                fields.append([(("A", j, ()), w["n"]) for j, w in enumerate(n.d["vars"])] if v["n"] == "Reserved"
                              else [(u.sym(st, f["t"]), "")])
            for fv in itertools.product(*fields):
                name = v["n"] + "".join(":" + x[1] for x in fv if x[1])
                for allow in ((0, 1) if kind == "binop" else (None,)):
                    s0 = st.copy()
                    data = ("A", i, tuple(x[0] for x in fv))
                    tv = ("A", 0, tuple(data if f["n"] == "value" else u.sym(s0, f["t"]) for f in fs))
                    loc = self.loc(tok, tv)
                    c = u.cell(s0, tv)
                    w = want.get(name)
                    if w == "In" and not allow:
                        w = None
                    for s, r in u.paths_of(root, s0, [c] + ([C(allow)] if allow is not None else [])):
                        got = None if r == NONE else self.tagname(ot, r[2][0])
                        if got != w:
                            u.bad("%s|%s" % (name, allow), "the token %s%s becomes %s" %
                                  (name, "" if allow is None or "In" not in name else " (in %sallowed)" % ("" if allow else "not "), got or "no operator"),
                                  root, s)
                        elif got and self.norm(s, self.loc(ot, r[2][0])) != self.norm(s, some(loc)):
                            u.bad("loc|" + name, "the location of the operator is not that of the token", root, s, got=r)

    # ---------------------------------------------------------------- conversions
    def m_loc(self, e, st, inst, a, at, dt, d, t, sp):
        """The location of a node, whatever its form: one unknown per value (A02 says where it is kept)."""
        r = a[0]
        while e.get(st, r[1], r[2])[0] == "r":
            r = e.get(st, r[1], r[2])
        v = self.norm(st, e.get(st, r[1], r[2]))
        return [(st, ("r", ("H", self.locof(st, v)), ()))]

    def locof(self, st, v):
        u = self.u
        for w, h in st.g.get("locs", ()):
            if self.norm(st, w) == v:
                return h
        u.e.hid += 1
        if self.spanopt is None:
            self.spanopt = [t.id for t in u.p.tys if self.is_loc(t.id) and self.tname(self.args(t.id)[0]).endswith("Span")][0]
        st.heap[u.e.hid] = u.sym(st, self.spanopt)
        st.g = dict(st.g, locs=st.g.get("locs", ()) + ((v, u.e.hid),))
        return u.e.hid

    def where(self, s, v):
        """The location of a value at the end of a path."""
        return self.norm(s, s.heap[self.locof(s, self.norm(s, v))])

    def spanned(self, s, v, w):
        """What the span from v to w is on this path: a value, or None if the code did not look."""
        a, b = self.where(s, v), self.where(s, w)
        if a == NONE or b == NONE:
            return NONE
        if a[0] == "o" or b[0] == "o":
            return None
        x, y = self.norm(s, a[2][0]), self.norm(s, b[2][0])
        if x[0] == "o":
            x = self.u.e.expand(s, x)
        if y[0] == "o":
            y = self.u.e.expand(s, y)
        tid = self.u.ty("track::Span")
        f = [x["n"] for x in self.u.p.tys[tid].d["vars"][0]["f"]]
        return some(("A", 0, tuple(x[2][i] if n == "start" else y[2][i] for i, n in enumerate(f))))

    def name(self, t, v):
        """(variant or None, fields by name) of a value."""
        n = self.u.p.tys[t]
        x = n.d["vars"][v[1]]
        return x["n"], [(f["n"], f["t"], w) for f, w in zip(x["f"], v[2])]

    def make(self, ty, variant, *fs):
        """A value of an enum (or of a struct, variant None)."""
        u = self.u
        vs = u.p.tys[ty].d["vars"]
        if variant is None:
            return ("A", 0, fs)
        return ("A", [v["n"] for v in vs].index(variant), fs)

    def m_conv(self, e, st, inst, a, at, dt, d, t, sp):
        kind = inst.name.rsplit("::", 1)[1]
        okt, errt = self.args(dt)
        out = []
        for good in (1, 0):
            s = st.copy()
            v = self.u.sym(s, okt if good else errt)
            s.g = dict(s.g, conv=s.g.get("conv", ()) + ((kind, a[0], good, v),))
            out.append((s, ("A", 0 if good else 1, (v,))))
        return out

    def conv(self, s, kind, v):
        for k, w, good, r in s.g.get("conv", ()):
            if k == kind and self.norm(s, w) == self.norm(s, v):
                return good, r
        return None

    def cover(self):
        u = self.u
        conv = r"<.* as .*cover::IntoAssign\w+>::into_assign_(target|patt|prop)"
        n = 0
        insts = {}
        for inst in u.p.insts:
            if inst.raw is not None and re.fullmatch(conv, inst.name):
                insts[inst.name.rsplit("::", 1)[1]] = inst
        E = u.ty("expr::Expr")
        P = u.ty("obj::Prop")
        item = u.ty("expr::ExprListItem")
        u.leaves((conv, self.m_conv), (REF, self.m_loc))
        targets = {"Id": "Id", "Dot": "Dot", "Brack": "Brack"}
        # a single target
        for st, v, what in self.values(u.state(), E):
            n += 1
            root = "into_assign_target"
            inst = insts[root]
            rt = inst.raw["locals"][0]
            T = self.args(rt)[0]
            for s, r in u.paths_of(root, st, [v], inst=inst.id):
                if what in targets:
                    want = ("A", 0, (self.make(T, targets[what], *v[2]),))
                    if self.norm(s, r) != self.norm(s, want):
                        u.bad(what, "an expression %s is not the same assignment target" % what, root, s, got=r)
                elif not self.rejects(s, rt, r, "InvalidAssignTarget", [self.where(s, v)]):
                    u.bad(what, "an expression %s is not rejected at its location" % what, root, s, got=r)
        # patterns
        root = "into_assign_patt"
        inst = insts[root]
        rt = inst.raw["locals"][0]
        PT = self.args(rt)[0]
        CP = [f["t"] for w in u.p.tys[PT].d["vars"] if w["n"] == "Compound" for f in w["f"]][0]
        cf = {w["n"]: [f["t"] for f in w["f"]] for w in u.p.tys[CP].d["vars"]}
        RP = self.args(self.args(cf["Arr"][2])[0])[0]
        names = [w["n"] for w in u.p.tys[E].d["vars"]]
        for st, v, what in self.values(u.state(), E):
            if what in ("Obj", "Arr"):
                continue
            n += 1
            for s, r in u.paths_of(root, st, [v], inst=inst.id):
                c = self.conv(s, "into_assign_target", v)
                if c is None:
                    # the case was decided on the spot
                    want = ("A", 0, (self.make(PT, "Simple", self.make(self.args_of(PT, "Simple"), what, *v[2])),)) if what in targets else None
                    good = self.norm(s, r) == self.norm(s, want) if want else \
                        self.rejects(s, rt, r, "InvalidAssignTarget", [self.where(s, v)])
                elif c[0]:
                    good = self.norm(s, r) == self.norm(s, ("A", 0, (self.make(PT, "Simple", c[1]),)))
                else:
                    good = self.norm(s, r) == self.norm(s, ("A", 1, (c[1],)))
                if not good:
                    u.bad(what, "an expression %s is not converted as an assignment target" % what, root, s, got=r)
        for k in range(4):
            n += 1
            st = u.state()
            props = [u.sym(st, P) for _ in range(k)]
            loc = u.sym(st, self.u.p.tys[E].d["vars"][names.index("Obj")]["f"][0]["t"])
            v = self.make(E, "Obj", loc, ("q", "e", tuple(("e", x) for x in props)))
            for s, r in u.paths_of(root, st, [v], inst=inst.id):
                cs = [self.conv(s, "into_assign_prop", x) for x in props]
                if r[1] == 0:
                    want = self.make(PT, "Compound", self.make(CP, "Obj", loc, ("q", "e", tuple(("e", c[1]) for c in cs if c))))
                    if any(c is None or not c[0] for c in cs) or self.norm(s, r[2][0]) != self.norm(s, want):
                        u.bad("obj", "an object with %d properties is not the pattern with these properties" % k, root, s, got=r)
                elif not any(c and not c[0] and self.norm(s, c[1]) == self.norm(s, r[2][0]) for c in cs):
                    u.bad("obj|err", "an object is rejected although its properties are patterns", root, s, got=r)
        # arrays
        kinds = ("hole", "Expr", "Spread")
        lt = u.p.tys[E].d["vars"][names.index("Arr")]["f"][0]["t"]
        sl = [f["t"] for w in u.p.tys[item].d["vars"] if w["n"] == "Spread" for f in w["f"]]
        for k in range(4):
            for shape in itertools.product(kinds, repeat=k):
                if shape.count("Spread") > 1 and k > 2:
                    continue
                n += 1
                st = u.state()
                xs = [None if x == "hole" else (u.sym(st, sl[0]) if x == "Spread" else None, u.sym(st, E)) for x in shape]
                els = [NONE if x is None else some(self.make(item, sh, *([x[0]] if sh == "Spread" else []), x[1])) for x, sh in zip(xs, shape)]
                loc = u.sym(st, lt)
                v = self.make(E, "Arr", loc, ("q", "e", tuple(("e", x) for x in els)))
                text = "[" + ",".join({"hole": "", "Expr": "e", "Spread": "...e"}[x] for x in shape) + "]"
                for s, r in u.paths_of(root, st, [v], inst=inst.id):
                    cs = [None if x is None else self.conv(s, "into_assign_patt", x[1]) for x in xs]
                    stray = [x[0] for x, sh in list(zip(xs, shape))[:-1] if sh == "Spread"]
                    if r[1] == 0:
                        if stray:
                            u.bad("stray|" + text, "%s is accepted as a pattern" % text, root, s)
                            continue
                        if any(x is not None and (c is None or not c[0]) for x, c in zip(xs, cs)):
                            u.bad("part|" + text, "%s is accepted although an element is not a pattern" % text, root, s)
                            continue
                        rest = NONE
                        body = list(zip(xs, cs))
                        if shape and shape[-1] == "Spread":
                            x, c = body.pop()
                            rf = [f["n"] for f in u.p.tys[RP].d["vars"][0]["f"]]
                            rest = some(("A", 0, tuple(x[0] if f == "location" else c[1] for f in rf)))
                        want = self.make(PT, "Compound", self.make(CP, "Arr", loc, ("q", "e", tuple(
                            ("e", NONE if x is None else some(c[1])) for x, c in body)), rest))
                        if self.norm(s, r[2][0]) != self.norm(s, want):
                            u.bad("arr|" + text, "%s is not converted element by element" % text, root, s, got=self.norm(s, r[2][0]), want=self.norm(s, want))
                    else:
                        if any(c and not c[0] and self.norm(s, c[1]) == self.norm(s, r[2][0]) for c in cs):
                            continue
                        if not (stray and self.rejects(s, rt, r, "InvalidAssignTarget", [self.norm(s, x) for x in stray])):
                            u.bad("arr|err|" + text, "%s is rejected although its elements are patterns" % text, root, s, got=r)
        # properties
        root = "into_assign_prop"
        inst = insts[root]
        rt = inst.raw["locals"][0]
        PP = self.args(rt)[0]
        for st0, v0, what in self.values(u.state(), P):
            vals = [(st0, v0, what)]
            if what == "Regular":
                i = [i for i, (_, t, _) in enumerate(self.fields(P, v0)) if self.short(t) == "PropVal"][0]
                PV = self.fields(P, v0)[i][1]
                vals = [(s, ("A", v0[1], v0[2][:i] + (w,) + v0[2][i + 1:]), x) for s, w, x in self.values(st0, PV)]
            for st, v, what in vals:
                n += 1
                for s, r in u.paths_of(root, st, [v], inst=inst.id):
                    if what == "Init":
                        c = self.conv(s, "into_assign_patt", v[2][i][2][0])
                        if c is None and self.conv(s, "into_assign_target", v[2][i][2][0]) and self.norm(s, v[2][i][2][0])[0] == "o":
                            u.bad("nested", "the value of a property is only converted to a simple target, never to a pattern", root, s)
                            continue
                        if c is None:
                            u.und["the value of a property is not converted by into_assign_patt"] = 1
                            continue
                        want = ("A", 0, (self.make(PP, "Regular", v[2][0], v[2][1], c[1]),)) if c[0] else ("A", 1, (c[1],))
                        # the location is that of the property
                        alt = want
                        if c[0]:
                            alt = ("A", 0, (self.make(PP, "Regular", self.where(s, v), v[2][1], c[1]),))
                        if self.norm(s, r) not in (self.norm(s, want), self.norm(s, alt)):
                            u.bad(what, "a property with a value is not the same property pattern", root, s, got=r)
                    elif what == "Shorthand":
                        if self.norm(s, r) != self.norm(s, ("A", 0, (self.make(PP, "Shorthand", *v[2]),))):
                            u.bad(what, "a shorthand property is not the same shorthand pattern", root, s, got=r)
                    elif not self.rejects(s, rt, r, "InvalidPropPatt", [self.where(s, v), self.norm(s, v[2][0])]):
                        u.bad(what, "a property %s is not rejected at its location" % what, root, s, got=r)
        return n

    def expect(self, root, key, msg, s, got, want):
        if self.norm(s, got) != self.norm(s, want):
            self.u.bad(key, msg, root, s, got=self.norm(s, got), want=self.norm(s, want))

    def ctor(self, ty, variant, s, **kw):
        """A node by field name; tuple fields are called f0, f1, ..."""
        u = self.u
        vs = u.p.tys[ty].d["vars"]
        i = 0 if variant is None else [v["n"] for v in vs].index(variant)
        return ("A", i, tuple(kw["f" + f["n"] if f["n"].isdigit() else f["n"]] for f in vs[i]["f"]))

    def builders(self):
        u = self.u
        u.leaves((REF, self.m_loc))
        Id, E, D, CD, PI = u.ty("id::Id"), u.ty("expr::Expr"), u.ty("decl::Dtor"), u.ty("decl::ConstDtor"), u.argtys("id_patt")[1]
        cp = [f["t"] for w in u.p.tys[PI].d["vars"] if w["n"] == "Compound" for f in w["f"]][0]
        n = 0

        def spans(root, s, r, ty, v, lhs, rhs):
            """The location of the result covers the pattern and the initializer."""
            got = self.norm(s, self.loc(ty, r) if "location" in [f["n"] for f in u.p.tys[ty].d["vars"][r[1]]["f"]] else r[2][0])
            want = self.spanned(s, lhs, rhs)
            if want is None or got != self.norm(s, want):
                u.bad("span", "the location does not extend from the pattern to the initializer", root, s, got=got, want=want)
            return got
        st0 = u.state()
        nm, l = u.sym(st0, u.argtys("id_new")[0][0]), u.sym(st0, u.argtys("id_new")[0][1])
        for s, r in u.paths_of("id_new", st0.copy(), [nm, l]):
            self.expect("id_new", "fields", "the identifier does not have the given name and location", s, r, self.ctor(Id, None, s, name=nm, location=l))
        for root, ty, variant in (("id_patt", PI, "Simple"), ("id_expr", E, "Id")):
            st = u.state()
            x = u.sym(st, Id)
            for s, r in u.paths_of(root, st, [x]):
                self.expect(root, "value", "the result is not the identifier itself", s, r, self.make(ty, variant, x))
        st = u.state()
        x = u.sym(st, Id)
        for s, r in u.paths_of("id_dtor", st, [x]):
            self.expect("id_dtor", "value", "the result does not declare the identifier, at its location, without initializer", s, r,
                        self.make(D, "Simple", self.where(s, x), x, NONE))
        for pre, ty in (("dtor", D), ("cdtor", CD)):
            for kind in ("simple", "compound", "init", "init_opt"):
                root = "%s_%s" % (pre, kind)
                for form in ("Simple", "Compound"):
                    if kind in ("simple", "compound") and kind != form.lower():
                        continue
                    for opt in ((None, 0, 1) if kind == "init_opt" else (2,)):
                        if opt is None:
                            continue
                        n += 1
                        st = u.state()
                        part = u.sym(st, Id if form == "Simple" else cp)
                        lhs = self.make(PI, form, part)
                        e = u.sym(st, E)
                        args = [part if kind in ("simple", "compound") else lhs, e if opt == 2 else some(e) if opt else NONE]
                        for s, r in u.paths_of(root, st, args):
                            if kind == "init_opt":
                                bad = opt == 0 and (form == "Compound" or pre == "cdtor")
                                if (r[1] == 1) != bad:
                                    u.bad("accept|%s|%s" % (form, opt), "%s pattern with%s initializer is %s" %
                                          (form.lower(), "" if opt else "out", "rejected" if r[1] else "accepted"), root, s)
                                    continue
                                if bad:
                                    self.expect(root, "err", "the rejected pattern is not given back", s, r[2][0], lhs)
                                    continue
                                r = r[2][0]
                            if opt == 0:
                                self.expect(root, "plain", "the declarator is not the identifier at its location", s, r,
                                            self.make(D, "Simple", self.where(s, part), part, NONE))
                                continue
                            # where() of the pattern may be asked for the pattern or for its only part
                            got = self.norm(s, r)
                            locs = [self.spanned(s, a, e) for a in (part, lhs)]
                            want = [self.norm(s, self.make(ty, form, w, part, some(e) if form == "Simple" else e) if ty == D else
                                              self.ctor(ty, None, s, location=w, patt=lhs, value=e)) for w in locs if w is not None]
                            if got not in want:
                                u.bad("value|" + form, "the declarator does not consist of the pattern and its initializer, from the start of "
                                      "the one to the end of the other", root, s, got=got, want=want)
        return n + self.directives() + self.simple()

    def simple(self):
        u = self.u
        ty = u.p.tys[u.argtys("patt_simple")[0][0]].d["e"]
        n = 0
        for st, v, what in self.values(u.state(), ty):
            n += 1
            for s, r in u.paths_of("patt_simple", st, [u.cell(st, v)]):
                if r != C(int(what == "Simple")):
                    u.bad(what, "a %s pattern is%s simple" % (what.lower(), "" if r == C(1) else " not"), "patt_simple", s)
        return n

    def directives(self):
        u = self.u
        S, E, D, SL, LI = u.ty("stmt::Stmt"), u.ty("expr::Expr"), u.ty("stmt::Dir"), u.ty("token::StringLiteral"), u.ty("stmt::StmtListItem")
        n = 0
        ev = [w["n"] for w in u.p.tys[E].d["vars"]]
        cases = []
        for st, v, what in self.values(u.state(), S):
            if what != "Expr":
                cases.append((st, v, what, None))
                continue
            for s2, w, x in self.values(st, E):
                lit = None
                if x == "String":
                    lit = u.e.expand(s2, w[2][1])
                    w = ("A", w[1], (w[2][0], lit))
                cases.append((s2, ("A", v[1], (v[2][0], w, v[2][2])), "Expr " + x, lit))
        for st, v, what, lit in cases:
            for pre, wrap in (("stmt", None), ("item", "Stmt")):
                n += 1
                x = v if wrap is None else self.make(LI, wrap, v)
                dirv = lit and self.ctor(D, None, st, location=v[2][0], string=lit, semi=v[2][2])
                s0 = st.copy()
                for s, r in u.paths_of(pre + "_isdir", s0, [u.cell(s0, x)]):
                    if r != C(int(lit is not None)):
                        u.bad(what, "a statement %s is%s a directive" % (what, "" if r == C(1) else " not"), pre + "_isdir", s)
                s0 = st.copy()
                for s, r in u.paths_of(pre + "_todir", s0, [u.cell(s0, x)]):
                    self.expect(pre + "_todir", what, "a statement %s does not become %s" % (what, "its directive" if lit else "no directive"), s, r,
                                some(dirv) if lit else NONE)
                s0 = st.copy()
                for s, r in u.paths_of(pre + "_intodir", s0, [x]):
                    self.expect(pre + "_intodir", what, "a statement %s is not turned into %s" % (what, "its directive" if lit else "itself, as an error"),
                                s, r, ("A", 0, (dirv,)) if lit else ("A", 1, (x,)))
        for st, v, what in self.values(u.state(), LI):
            if what == "Stmt":
                continue
            n += 1
            s0 = st.copy()
            for s, r in u.paths_of("item_isdir", s0, [u.cell(s0, v)]):
                if r != C(0):
                    u.bad(what, "a declaration is a directive", "item_isdir", s)
            s0 = st.copy()
            for s, r in u.paths_of("item_todir", s0, [u.cell(s0, v)]):
                self.expect("item_todir", what, "a declaration becomes a directive", s, r, NONE)
            for s, r in u.paths_of("item_intodir", st.copy(), [v]):
                self.expect("item_intodir", what, "a declaration is not given back", s, r, ("A", 1, (v,)))
        # the text of a directive is what was written between the quotes
        df = u.p.tys[D].d["vars"][0]["f"]
        lf = u.p.tys[SL].d["vars"][0]["f"]
        for quote in (None, '"', "'"):
            st = u.state()
            texts = [("q", "c", (("S", u.e.newsym(st, ("s", u.e.cd.ALL, 0, frozenset()))),)) for _ in range(2)]
            q = (("e", C(ord(quote))),) if quote else ()
            src = ("q", "c", q + texts[0][2] + q)
            lit = ("A", 0, tuple((some(src) if quote else NONE) if f["n"] == "source" else texts[1] for f in lf))
            v = ("A", 0, tuple(lit if f["n"] == "string" else u.sym(st, f["t"]) for f in df))
            st.g["in"] = texts[0 if quote else 1]
            n += 1
            for s, r in u.paths_of("dir_pragma", st, [u.cell(st, v)]):
                w = u.deref(s, r)
                if w[2:3] != s.g["in"][2:3]:
                    u.bad("pragma|%d" % bool(quote), "the text is not %s" % (
                        "what the source has between its quotes" if quote else "the value of a literal without a source"), "dir_pragma", s, got=w)
        return n

    def args_of(self, t, variant):
        return [f["t"] for w in self.u.p.tys[t].d["vars"] if w["n"] == variant for f in w["f"]][0]

    def rejects(self, s, rt, r, variant, locs):
        et = self.args(rt)[1]
        if r[0] != "A" or r[1] != 1:
            return False
        e = self.norm(s, r[2][0])
        return e[0] == "A" and self.u.variant(et, e[1]) == variant and e[2][0] in locs

    def same_place(self, st, r, c, i):
        """Is r the i-th field of what c refers to?  Places are compared by what they hold: fields are distinct symbols."""
        if r[0] != "r" or r[1] != c[1]:
            return False
        p = r[2][len(c[2]):]
        v = self.u.e.get(st, c[1], c[2])
        return p == (i,) or (len(p) == 1 and self.u.e.get(st, r[1], r[2]) == v[2][i])


EXPL = ("Abstract interpretation of the MIR of easter and of what its derive macros generate (%(what)s): all %(paths)d paths of "
        "%(roots)d calls were compared with the contract over %(fns)d functions.")


def run(what, *parts):
    def f(tier):
        c = Check()
        u = c.u
        n = 0
        for p in parts:
            try:
                n += getattr(c, p)() or 0
            except Unmodelled as x:
                u.und["%s: %s" % (p, x)] = 1
        r = Result()
        r.violations = list(u.viol.values())
        r.undecided = sorted(u.und)
        if not u.paths:
            r.violations.append({"key": "floor", "msg": "nothing could be analysed"})
        r.coverage = {"explanation": EXPL % {"roots": u.roots, "paths": u.paths, "fns": len(u.fns), "what": what},
                      "paths": u.paths, "roots": u.roots, "cases": n, "functions": sorted(n for n in u.fns if "easter" in n)[:120],
                      "source_hash": c.hash[:16]}
        r.assumptions = ["std's containers and strings behave as modelled in sa/models.py",
                         "the derive macros and easter are compiled against the shims described in DESIGN.md"]
        return r
    return f


CHECKS = {
    "A01": run("removal of locations", "untrack"),
    "A03": run("equality of nodes", "equality"),
    "A04": run("operator tables", "operators"),
    "A05": run("cover grammar", "cover"),
    "A06": run("builders of declarators and directives", "builders"),
    "A02": run("access to locations", "tracking"),
}
