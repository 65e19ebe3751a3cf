"""Contracts of the JSON accessors: every abstract path of every accessor, for an opaque value of
every variant (or an opaque object), is compared with the accessor's contract."""
import build
from common import Result
from contract import Unit
from engine import NONE, TRUE, FALSE, Infeasible, Unmodelled, isconst, parts_const, some
from models import deref, model, seq, setref

TYNAME = {"array": "Array", "string": "String", "object": "Object", "bool": "Boolean", "i64": "Number", "u64": "Number",
          "f64": "Number", "number": "Number", "null": "Null"}
VARTY = {"Null": "Null", "Bool": "Boolean", "I64": "Number", "U64": "Number", "F64": "Number", "String": "String",
         "Array": "Array", "Object": "Object"}
MSG = {"bool": "boolean"}
TEXT = {"Null": "null", "String": "string", "Object": "object", "Number": "number", "Array": "array", "Boolean": "boolean"}
KINDS = ["array", "string", "object", "bool", "i64", "u64", "f64", "number"]


# ------------------------------------------------------------------ opaque objects
# ("obj", id, ((key parts, cell or None, removed), ...)): what has been found out about a BTreeMap
def lookup(e, st, a, valty):
    """[(state, index of the entry, present)]"""
    v = deref(e, st, a[0])
    k = seq(e, st, a[1])[2]
    for i, x in enumerate(v[2]):
        if x[0] == k:
            return [(st, i, x[1] is not None and x[1][0] == "r")]
    n = st.copy()
    e.hid += 1
    n.heap[e.hid] = e.opaque(n, valty)
    setref(e, n, a[0], v[:2] + (v[2] + ((k, ("r", ("H", e.hid), ()), FALSE),),))
    setref(e, st, a[0], v[:2] + (v[2] + ((k, NONE, FALSE),),))
    return [(st, len(v[2]), False), (n, len(v[2]), True)]


def obj_models(vty):
    import re

    def get(e, st, inst, a, at, dt, d, t, sp):
        v = deref(e, st, a[0])
        if v[0] != "obj":
            return NotImplemented
        out = []
        for s, i, there in lookup(e, st, a, vty):
            ent = deref(e, s, a[0])[2][i]
            if inst.name.endswith("contains_key"):
                out.append((s, TRUE if there and ent[2] == FALSE else FALSE))
            elif there and ent[2] == FALSE:
                out.append((s, some(ent[1])))
            else:
                out.append((s, NONE))
        return out

    def remove(e, st, inst, a, at, dt, d, t, sp):
        v = deref(e, st, a[0])
        if v[0] != "obj":
            return NotImplemented
        out = []
        for s, i, there in lookup(e, st, a, vty):
            o = deref(e, s, a[0])
            ent = o[2][i]
            if there and ent[2] == FALSE:
                setref(e, s, a[0], o[:2] + (o[2][:i] + ((ent[0], ent[1], TRUE),) + o[2][i + 1:],))
                out.append((s, some(deref(e, s, ent[1]))))
            else:
                out.append((s, NONE))
        return out

    def insert(e, st, inst, a, at, dt, d, t, sp):
        v = deref(e, st, a[0])
        if v[0] != "obj":
            return NotImplemented
        out = []
        for s, i, there in lookup(e, st, a, vty):
            o = deref(e, s, a[0])
            ent = o[2][i]
            old = some(deref(e, s, ent[1])) if there and ent[2] == FALSE else NONE
            e.hid += 1
            s.heap[e.hid] = a[2]
            setref(e, s, a[0], o[:2] + (o[2][:i] + ((ent[0], ("r", ("H", e.hid), ()), FALSE),) + o[2][i + 1:],))
            out.append((s, old))
        return out

    def clear(e, st, inst, a, at, dt, d, t, sp):
        v = deref(e, st, a[0])
        if v[0] != "obj":
            return NotImplemented
        setref(e, st, a[0], ("obj", v[1], v[2] + (((("e", ("i", (), -1)),), NONE, TRUE),)))
        return [(st, ("A", 0, ()))]

    b = r"std::collections::BTreeMap::<K, V.*>::"
    return [(re.compile(b + "(get|get_mut|contains_key)"), get), (re.compile(b + "remove"), remove),
            (re.compile(b + "insert"), insert), (re.compile(b + "clear"), clear)]


class Check:
    def __init__(self):
        dump, self.hash = build.unjson_dump()
        vty = []
        self.u = u = Unit(dump)
        for n in u.p.tys:
            if n.k == "adt" and n.d["name"].endswith(("serde_json::Value", "serde_json::value::Value")):
                vty.append(n.id)
        if len(vty) != 1:
            raise Unmodelled("serde_json Value")
        self.vty = vty[0]
        u.e.models.extra[:] = obj_models(self.vty)
        self.vars = [v["n"] for v in u.p.tys[self.vty].d["vars"]]
        self.tyty = u.ty("ty::Ty")
        self.errty = u.ty("error::Error")

    # -------------------------------------------------------------- results
    def err_of(self, s, x):
        """(variant name, payload) of an unjson error."""
        x = self.u.deref(s, x)
        if x[0] == "o":
            return None, ()
        return self.u.variant(self.errty, x[1]), x[2]

    def text(self, s, v):
        v = self.u.deref(s, v)
        if v[0] in ("q", "str") and v[1] == "c":
            return v[2]
        return None

    def mismatch(self, root, s, x, kind, opt, var):
        """x must be TypeMismatch naming the requested type and the type of the value found."""
        n, f = self.err_of(s, x)
        if n != "TypeMismatch":
            self.u.bad("error kind", "a value of another type is reported as %s" % n, root, s, got=x)
            return
        want = MSG.get(kind, kind)
        t = self.text(s, f[0])
        t = parts_const(t) if t is not None else None
        if t is None or not (t == want or opt and t == want + " or null"):
            self.u.bad("error expected", "the type mismatch names %r as the requested type instead of %r" % (t, want), root, s)
        ty = self.u.deref(s, f[1])
        if ty[0] != "A" or self.u.variant(self.tyty, ty[1]) != VARTY[var]:
            self.u.bad("error actual|" + var, "the type mismatch misreports the type of a %s value" % var, root, s, got=ty)

    def same(self, s, kind, got, s_pay, var):
        """Is got the value contained in the variant, as requested?"""
        e = self.u.e
        g = self.u.deref(s, got)
        w = self.u.deref(s, s_pay)
        if g == w or g[0] in ("q", "str", "dq") and w[0] in ("q", "str", "dq") and g[1:3] == w[1:3]:
            return True
        if kind in ("f64", "number") and var in ("I64", "U64"):
            return g == ("f", "ofint", w)
        return False

    def value_result(self, root, kind, opt, s, x, v):
        """Result x of asking for `kind` in the value v."""
        u = self.u
        sym = v[1]
        i = s.facts.get(("var", sym))
        live = [i] if i is not None else range(len(self.vars))
        for i in live:
            var = self.vars[i]
            pay = s.facts.get(("exp", sym))
            own = {"array": "Array", "string": "String", "object": "Object", "bool": "Bool", "i64": "I64", "u64": "U64",
                   "f64": "F64"}.get(kind)
            num = var in ("I64", "U64", "F64")
            if x[1] == 0:
                got = x[2][0]
                if opt:
                    if got[0] != "A":
                        u.und["%s: result not decoded" % root] = 1
                        continue
                    if got[1] == 0:
                        if var != "Null":
                            u.bad("none|" + var, "a %s value is taken for null" % var, root, s)
                        continue
                    got = got[2][0]
                okvar = own == var or kind == "number" and num or \
                    (kind, var) in (("i64", "U64"), ("u64", "I64"), ("f64", "I64"), ("f64", "U64"))
                if not okvar:
                    u.bad("accepts|" + var, "a %s value is accepted as %s" % (var, kind), root, s)
                elif pay is None or not self.same(s, kind, got, pay[2][0], var):
                    u.bad("value|" + var, "the value returned is not the %s contained in the value" % var, root, s, got=got, want=pay)
            else:
                if var == "Null" and opt:
                    u.bad("rejects|Null", "null is rejected", root, s)
                elif own == var or kind == "number" and num:
                    u.bad("rejects|" + var, "a %s value is rejected" % var, root, s)
                elif root.startswith(("get_i64", "get_u64", "get_f64")) and not opt and num and var != "F64":
                    # the other integer representation is accepted when it fits
                    fits = kind == "f64"
                    if not fits and pay is not None:
                        lo, hi = u.e.bounds(s, pay[2][0])
                        fits = not (hi > (1 << 63) - 1 and lo > (1 << 63) - 1 if kind == "i64" else hi < 0)
                    if fits:
                        u.bad("rejects|" + var, "a %s value that fits is rejected" % var, root, s)
                    else:
                        self.mismatch(root, s, x[2][0], kind, opt, var)
                else:
                    self.mismatch(root, s, x[2][0], kind, opt, var)

    # -------------------------------------------------------------- obligations
    def value_roots(self):
        u = self.u
        for kind in KINDS:
            for opt in ("", "_opt"):
                own = kind in ("array", "string", "object")
                root = ("into_" if own else "to_") + kind + opt
                st = u.state()
                v = u.sym(st, self.vty)
                arg = v if own else u.cell(st, v)
                for s, x in u.paths_of(root, st, [arg]):
                    self.value_result(root, kind, bool(opt), s, x, v)

    def field_roots(self):
        u = self.u
        for how in ("get", "extract"):
            for kind in KINDS + ["field"]:
                for opt in ("", "_opt") if kind != "field" else ("",):
                    self.field_root(how, kind, opt)

    def field_root(self, how, kind, opt):
        u = self.u
        root = "%s_%s%s" % (how, kind, opt)
        st = u.state()
        obj = u.cell(st, ("obj", u.e.newsym(st, ("o", None)), ()))
        tys, _ = u.argtys(root)
        name = u.sym(st, tys[1])
        nparts = name[2]
        for s, x in u.paths_of(root, st, [obj, name]):
            o = u.deref(s, obj)
            ents = {ent[0]: ent for ent in o[2]}
            ent = ents.get(nparts)
            for k, en in ents.items():
                if k != nparts and en[2] == TRUE:
                    u.bad("other", "a field other than the named one is removed", root, s, key=k)
            if ent is None:
                u.bad("field", "returns without looking up the named field", root, s)
                continue
            there = ent[1][0] == "r"
            if not there:
                n = f = None
                if x[1] == 1:
                    n, f = self.err_of(s, x[2][0])
                if n != "MissingField":
                    u.bad("missing", "a missing field is not reported as a missing field", root, s, got=x)
                elif self.text(s, f[0]) != nparts:
                    u.bad("missing name", "the missing field is reported under another name", root, s, got=f)
                continue
            v0 = s.heap[ent[1][1][1]]
            v = self.orig(s, ent[1])
            if how == "get" and ent[2] == TRUE:
                u.bad("removed", "reading a field removes it", root, s)
            if how == "extract" and ent[2] != TRUE and x[1] == 0:
                u.bad("kept", "an extracted field stays in the object", root, s)
            if kind == "field":
                if x[1] != 0 or u.deref(s, x[2][0]) != v0:
                    u.bad("value", "the field returned is not the named one", root, s, got=x)
                continue
            if v is None:
                u.und["%s: field value not decoded" % root] = 1
                continue
            self.value_result(root, kind, bool(opt), s, x, v)

    def orig(self, s, ref):
        """The opaque value a cell held at the start (it may have been expanded since)."""
        v = s.heap[ref[1][1]]
        if v[0] == "o":
            return v
        for k, x in s.facts.items():
            if k[0] == "exp" and x == v and self.isval(s, k[1]):
                return ("o", k[1])
        return None

    def isval(self, s, sym):
        return s.attr.get(sym) == ("o", self.vty)

    def types(self):
        u = self.u
        st = u.state()
        v = u.sym(st, self.vty)
        for s, x in u.paths_of("ty", st, [u.cell(st, v)]):
            i = s.facts.get(("var", v[1]))
            for i in [i] if i is not None else range(len(self.vars)):
                x = u.deref(s, x)
                if x[0] != "A" or u.variant(self.tyty, x[1]) != VARTY[self.vars[i]]:
                    u.bad("ty|" + self.vars[i], "the type of a %s value is misreported" % self.vars[i], "ty", s, got=x)
        for i, var in enumerate(u.p.tys[self.tyty].d["vars"]):
            st = u.state()
            f = u.cell(st, ("q", "c", ()))
            for s, x in u.paths_of("ty_display", st, [u.cell(st, ("A", i, ())), f]):
                t = parts_const(u.deref(s, f)[2])
                if t != TEXT.get(var["n"]):
                    u.bad("text|" + var["n"], "the type %s is displayed as %r" % (var["n"], t), "ty_display", s)

    def errors(self):
        u = self.u
        want = {"type": "TypeMismatch", "field": "MissingField", "array": "WrongArrayLength", "index": "IndexOutOfBounds",
                "string": "IllegalString"}
        for n, var in want.items():
            root = n + "_error"
            st = u.state()
            tys, _ = u.argtys(root)
            args = [u.sym(st, t) for t in tys]
            for s, x in u.paths_of(root, st, list(args)):
                k, f = self.err_of(s, x[2][0]) if x[1] == 1 else (None, ())
                if k != var or len(f) != len(args) or any(a != b for a, b in zip(f, args)):
                    u.bad("error", "does not build %s of its arguments" % var, root, s, got=x)
        for i, var in enumerate(u.p.tys[self.errty].d["vars"]):
            st = u.state()
            f = u.cell(st, ("q", "c", ()))
            pay = [u.sym(st, x["t"]) for x in var["f"]]
            for s, x in u.paths_of("error_display", st, [u.cell(st, ("A", i, tuple(pay))), f]):
                self.display(var["n"], s, u.deref(s, f)[2], pay)

    def display(self, name, s, parts, pay):
        """Every payload appears exactly once, in its role."""
        u = self.u
        roles = {"TypeMismatch": ["expected ", ", got "], "WrongArrayLength": ["expected array of length ", ", got array of length "],
                 "IndexOutOfBounds": ["length ", "array index "], "MissingField": ["'"], "IllegalString": ["expected ", ", got "]}.get(name)
        if roles is None:
            return
        chunks = []
        cur = ""
        for x in parts:
            if x[0] == "e" and isconst(x[1]):
                cur += chr(x[1][2])
            else:
                chunks.append((cur, x))
                cur = ""
        if len(chunks) != len(pay):
            u.bad("display|" + name, "the text of %s mentions %d of its %d parts" % (name, len(chunks), len(pay)), "error_display", s)
            return
        for i, p in enumerate(pay):
            hit = [c for c, x in chunks if self.isdisp(s, x, p)]
            if len(hit) != 1:
                # a part whose display is not modelled (quoted, nested) is only counted
                continue
            if not hit[0].endswith(roles[i]):
                u.bad("role|%s|%d" % (name, i), "the text of %s shows part %d as %r" % (name, i, hit[0]), "error_display", s)

    def isdisp(self, s, x, p):
        if p[0] in ("q", "str"):
            return (x,) == p[2]
        if p[0] == "i":
            for k, v in s.facts.items():
                if k[0] == "def" and k[1] == "dec" and k[2] == p and x == ("S", v[0]):
                    return True
        return False


EXPL = ("Abstract interpretation of the MIR of %(roots)d accessors (serde_json's and std's code included) on an opaque value of "
        "every variant, an object of which nothing is known and an arbitrary field name; all %(paths)d resulting paths were "
        "compared with the contract (%(what)s) over %(fns)d functions.")
ASSUME = ["BTreeMap get/remove/insert behave as a map keyed by string contents",
          "the JSON library is serde_json 0.8.6 as found in the cargo cache"]


FIELD = ("field", "missing", "missing name", "other", "removed", "kept", "value")


def run(what, *parts, **kw):
    def f(tier):
        c = Check()
        for p in parts:
            try:
                getattr(c, p)()
            except Unmodelled as x:
                c.u.und["%s: %s" % (p, x)] = 1
        u = c.u
        r = Result()
        r.violations = [v for v in u.viol.values() if not kw.get("keys") or v["key"].split("|")[1] in kw["keys"]]
        r.undecided = sorted(u.und)
        if not u.paths:
            r.violations.append({"key": "floor", "msg": "no path of any accessor could be analysed"})
        r.coverage = {"explanation": EXPL % {"roots": u.roots, "paths": u.paths, "fns": len(u.fns), "what": what},
                      "paths": u.paths, "roots": u.roots, "functions": sorted(n for n in u.fns if "unjson" in n),
                      "source_hash": c.hash[:16]}
        r.assumptions = ASSUME
        return r
    return f


CHECKS = {
    "J01": run("which values are accepted, what is returned", "value_roots", "field_roots"),
    "J02": run("which field is addressed, what happens to the object", "field_roots", keys=FIELD + ("panic",)),
    "J03": run("types and error texts", "types", "errors"),
}
