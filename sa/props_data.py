"""Contracts of joker's data types: literal equality, word names, spans, error texts."""
import itertools
import build
from common import Result
from contract import Unit, short
from engine import C, NONE, TRUE, Unmodelled, isconst, parts_const, some
from lexspec import ATOMS, RESERVED


class Check:
    def __init__(self):
        dump, self.hash = build.joker_dump()
        self.u = Unit(dump)

    def str(self, st):
        e = self.u.e
        return ("q", "c", (("S", e.newsym(st, ("s", e.cd.ALL, 0, frozenset()))),))

    def lit(self, s):
        return ("q", "c", tuple(("e", C(ord(c))) for c in s))

    def text(self, s, v):
        v = self.u.deref(s, v)
        return parts_const(v[2]) if v[0] in ("q", "str") else None

    def struct(self, st, tid, **kw):
        """A struct with the given fields; the others opaque."""
        fs = self.u.p.tys[tid].d["vars"][0]["f"]
        if any(k not in [f["n"] for f in fs] for k in kw):
            raise Unmodelled("fields of " + self.u.p.tys[tid].s)
        return ("A", 0, tuple(kw[f["n"]] if f["n"] in kw else self.u.sym(st, f["t"]) for f in fs))

    def equal(self, root, st, a, b, want, what):
        """want: True/False, or ("feq"|"seqeq", x, y): the result is exactly that comparison."""
        u = self.u
        res = u.paths_of(root, st, [u.cell(st, a), u.cell(st, b)])
        if want not in (True, False) and res and not (any(x == C(1) for _, x in res) or any(not isconst(x) for _, x in res)):
            u.bad(what, "%s never compare equal" % what, root, res[0][0], missing=True)
        for s, x in res:
            if want in (True, False):
                if x != C(int(want)):
                    u.bad(what, "%s do not compare %s" % (what, "equal" if want else "different"), root, s, got=x)
                continue
            k = ("def", want[0]) + tuple(sorted(want[1:], key=repr))
            d = s.facts.get(k)
            got = None
            if isconst(x):
                if d is None:
                    got = x == C(0) and len(res) == 2
                else:
                    lo, hi = u.e.bounds(s, ("i", ((d[0], 1),), 0))
                    got = lo == hi == x[2]
            elif d is not None:
                got = x == ("i", ((d[0], 1),), 0)
            if not got:
                u.bad(what, "the result for %s is not the comparison of the values" % what, root, s, missing=True, got=x)

    def literals(self):
        u = self.u
        e = u.e
        for root, fld in (("number_eq", "value"), ("string_eq", "value")):
            ty = u.p.tys[u.argtys(root)[0][0]].d["e"]
            st = u.state()
            v = self.str(st) if root == "string_eq" else ("f", "sym", e.newsym(st, ("o", None)))
            w = self.str(st) if root == "string_eq" else ("f", "sym", e.newsym(st, ("o", None)))
            # whatever the sources are, the comparison is the comparison of the values
            self.equal(root, st, self.struct(st, ty, **{fld: v}), self.struct(st, ty, **{fld: w}),
                       ("seqeq", v[2], w[2]) if root == "string_eq" else ("feq", v, w), "literals with arbitrary sources")
        root = "string_eq"
        ty = u.p.tys[u.argtys(root)[0][0]].d["e"]
        st = u.state()
        v = self.str(st)
        self.equal(root, st, self.struct(st, ty, value=v), self.struct(st, ty, value=v), True, "string literals with the same value")
        for x, y, want in ((1.0, 1.0, True), (1.0, 2.0, False), (0.5, 0.25, False)):
            root = "number_eq"
            ty = u.p.tys[u.argtys(root)[0][0]].d["e"]
            st = u.state()
            self.equal(root, st, self.struct(st, ty, value=("f", "const", x)), self.struct(st, ty, value=("f", "const", y)), want,
                       "the numbers %s and %s" % (x, y))
        root = "regexp_eq"
        ty = u.p.tys[u.argtys(root)[0][0]].d["e"]

        def rx(st, pat, flags):
            return self.struct(st, ty, pattern=pat, flags=("q", "c", tuple(("e", x) for x in flags)))

        def ch(st):
            return ("i", ((e.newsym(st, ("c", e.cd.ALL)), 1),), 0)
        for n in range(4):
            st = u.state()
            p = self.str(st)
            f = [ch(st) for _ in range(n)]
            for k in range(max(1, n)):
                s2 = st.copy()
                self.equal(root, s2, rx(s2, p, f), rx(s2, p, f[k:] + f[:k]), True,
                           "regular expressions with the same pattern and the same flags in another order")
            if n == 2:
                s2 = st.copy()
                self.equal(root, s2, rx(s2, p, f), rx(s2, p, f[::-1]), True,
                           "regular expressions with the same pattern and the same flags in another order")
        words = ["".join(w) for n in range(4) for w in itertools.product("gim", repeat=n)]
        for f in words:
            for g in words:
                if set(f) == set(g) and sorted(f) != sorted(g):
                    continue        # a flag given twice: not settled
                st = u.state()
                p = self.str(st)
                self.equal(root, st, rx(st, p, [C(ord(x)) for x in f]), rx(st, p, [C(ord(x)) for x in g]), sorted(f) == sorted(g),
                           "regular expressions with the flags %r and %r" % (f, g))
        st = u.state()
        self.equal(root, st, rx(st, self.lit("a"), []), rx(st, self.lit("b"), []), False, "regular expressions with other patterns")
        st = u.state()
        p, q = self.str(st), self.str(st)
        self.equal(root, st, rx(st, p, []), rx(st, q, []), ("seqeq", p[2], q[2]), "regular expressions without flags")

    def names(self):
        u = self.u
        atom = u.ty("word::Atom")
        res = u.ty("word::Reserved")
        for root, tid, words in (("atom_name", atom, ATOMS), ("reserved_name", res, RESERVED)):
            seen = {}
            for i, var in enumerate(u.p.tys[tid].d["vars"]):
                st = u.state()
                v = ("A", i, ())
                arg = u.cell(st, v) if u.p.tys[u.argtys(root)[0][0]].k == "ref" else v
                for s, x in u.paths_of(root, st, [arg]):
                    t = self.text(s, x)
                    if t not in words or t.lower() != var["n"].lower():
                        u.bad("name|" + var["n"], "the word %s is named %r" % (var["n"], t), root, s)
                    seen[t] = var["n"]
        # every text: the words of the table become their atoms, every other text stays itself
        st = u.state()
        txt = self.str(st)
        tot = set()
        for s, x in u.paths_of("name_from", st, [txt]):
            self.name_of(s, x, txt, tot)
        for w in sorted(ATOMS):
            st = u.state()
            for s, x in u.paths_of("name_from", st, [self.lit(w)]):
                x = u.deref(s, x)
                n = u.variant(self.namety(), x[1])
                a = u.deref(s, x[2][0]) if n == "Atom" else None
                if a is None or u.variant(atom, a[1]).lower() != w:
                    u.bad("from|" + w, "the name %r is not converted to its atom" % w, "name_from", s, got=x)
        for root in ("name_string", "name_asref", "name_atom"):
            for i, var in enumerate(u.p.tys[self.namety()].d["vars"]):
                for j, av in enumerate(u.p.tys[atom].d["vars"]) if var["n"] == "Atom" else [(0, None)]:
                    st = u.state()
                    txt = self.str(st)
                    v = ("A", i, (("A", j, ()) if var["n"] == "Atom" else txt,))
                    arg = u.cell(st, v) if root != "name_string" else v
                    for s, x in u.paths_of(root, st, [arg]):
                        if root == "name_atom":
                            good = x == (some(("A", j, ())) if av else NONE)
                        elif av:
                            good = self.text(s, x) == av["n"].lower()
                        else:
                            d = u.deref(s, x)
                            good = d[0] in ("q", "str") and d[2] == txt[2]
                        if not good:
                            u.bad("of|%s|%s" % (var["n"], av["n"] if av else ""), "does not return the text (atom) of the name", root, s, got=x)

    def namety(self):
        return self.u.ty("word::Name")

    def name_of(self, s, x, txt, tot):
        u = self.u
        x = u.deref(s, x)
        if u.variant(self.namety(), x[1]) == "String":
            v = u.deref(s, x[2][0])
            if v[0] != "q" or v[2] != txt[2]:
                u.bad("from text", "the text of a name is changed", "name_from", s, got=x)

    def spans(self):
        u = self.u
        st = u.state()
        tys, _ = u.argtys("span")
        a, b = u.sym(st, tys[0]), u.sym(st, tys[1])
        va, vb = st.heap[a[1][1]], st.heap[b[1][1]]
        for s, x in u.paths_of("span", st, [a, b]):
            ka, kb = (s.facts.get(("var", v[1])) if v[0] == "o" else v[1] for v in (va, vb))
            if x[1] == 1:
                if (ka, kb) != (1, 1):
                    u.bad("some", "a location is made up from a missing one", "span", s)
                    continue
                l, r = [s.facts[("exp", v[1])][2][0] if v[0] == "o" else v[2][0] for v in (va, vb)]
                want = [self.field(s, l, "start"), self.field(s, r, "end")]
                got = [self.field(s, x[2][0], "start"), self.field(s, x[2][0], "end")]
                if got != want:
                    u.bad("ends", "the combined location does not run from the first start to the second end", "span", s, got=got, want=want)
            elif ka != 0 and kb != 0:
                u.bad("none", "the combined location of two locations is missing", "span", s)
        st = u.state()
        tys, _ = u.argtys("untrack_span")
        a = u.sym(st, tys[0])
        for s, x in u.paths_of("untrack_span", st, [a]):
            if u.deref(s, a) != NONE:
                u.bad("untrack", "untracking a location keeps it", "untrack_span", s)

    def field(self, s, v, n):
        u = self.u
        tid = u.ty("track::Span")
        v = u.deref(s, v)
        if v[0] == "o":
            v = u.e.expand(s, v)
        for i, f in enumerate(u.p.tys[tid].d["vars"][0]["f"]):
            if f["n"] == n:
                return v[2][i]
        raise Unmodelled("field " + n)

    def errors(self):
        """Every kind of lexical error has a text of its own that is not empty."""
        u = self.u
        tid = u.ty("joker::error::Error")
        texts = {}
        for i, var in enumerate(u.p.tys[tid].d["vars"]):
            st = u.state()
            f = u.cell(st, ("q", "c", ()))
            v = ("A", i, tuple(u.sym(st, x["t"]) for x in var["f"]))
            for s, x in u.paths_of("error_display", st, [u.cell(st, v), f]):
                d = u.deref(s, f)
                if d[0] != "q":
                    u.und["text of %s" % var["n"]] = 1
                    continue
                t = ""
                for p in d[2]:
                    if p[0] != "e" or not isconst(p[1]):
                        break
                    t += chr(p[1][2])
                if not t.strip():
                    u.bad("empty|" + var["n"], "the text of %s does not name the error" % var["n"], "error_display", s)
                o = texts.setdefault(t.strip(": "), var["n"])
                if o != var["n"]:
                    u.bad("same|%s|%s" % (o, var["n"]), "%s and %s have the same text" % (o, var["n"]), "error_display", s)


EXPL = ("Abstract interpretation of the MIR of joker's public functions on opaque arguments (%(what)s): all %(paths)d paths of "
        "%(roots)d calls were compared with the contract over %(fns)d functions.")


def run(what, *parts):
    def f(tier):
        c = Check()
        u = c.u
        for p in parts:
            try:
                getattr(c, p)()
            except Unmodelled as x:
                u.und["%s: %s" % (p, x)] = 1
        r = Result()
        r.violations = list(u.viol.values())
        r.undecided = sorted(u.und)
        if not u.paths:
            r.violations.append({"key": "floor", "msg": "nothing could be analysed"})
        r.coverage = {"explanation": EXPL % {"roots": u.roots, "paths": u.paths, "fns": len(u.fns), "what": what},
                      "paths": u.paths, "roots": u.roots, "functions": sorted(n for n in u.fns if "joker" in n)[:80],
                      "source_hash": c.hash[:16]}
        r.assumptions = ["std's string, vector and sort operations behave as modelled in sa/models.py"]
        return r
    return f


CHECKS = {
    "D01": run("equality of number, string and regular expression literals", "literals"),
    "D02": run("word names and conversions", "names"),
    "D03": run("combining and erasing locations, error texts", "spans", "errors"),
}
