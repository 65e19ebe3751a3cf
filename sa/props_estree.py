"""estree's readers: a JSON object becomes the node its type and fields describe.  Every reader is analysed on
its own; the fields it takes out of an object and the readers it calls are recorded, and each path is compared
with a small reference reader that sees the same answers."""
import os
import re

import build
from common import Result
from contract import Unit
from engine import C, FALSE, NONE, TRUE, UNIT, Infeasible, Unmodelled, err, isconst, ok, parts_const, some

OBJ = r"<std::collections::BTreeMap<std::string::String, h_estree::serde_json::Value> as h_estree::"
EST = "h_estree::estree::"
ANY = ("_",)
LOG = "log"
LISTS = {"expr_list": "into_expr_list_item", "exprs": "into_expr", "expr_opt_list": "into_expr_list_item",
         "stmt_list": "into_stmt_list_item", "prop_list": "into_prop", "dtor_list": "into_dtor", "case_list": "into_case"}
MAXLEN = 3
LOWERR = ("object", "object_opt", "array", "string", "bool", "bool_opt", "field")


class Missing(Exception):
    pass


class Fails(Exception):
    def __init__(self, entry):
        self.entry = entry


class Reject(Exception):
    pass


class N:
    """A node to be: type, variant, fields in order (or by name)."""
    def __init__(self, ty, *f, **kw):
        self.ty, _, self.var = ty.partition(".")
        self.f, self.kw = f, kw


class Units:
    def __init__(self):
        dump, self.hash = build.upper_dump("estree.rs", "estree")
        self.u = u = Unit(dump)
        self.e = u.e
        self.e.lazy = 9
        self.e.unroll = 2 * MAXLEN
        self.e.SUMMARY_SIZE = 10 ** 9
        self.byname = {}
        for i in range(len(u.p.insts)):
            self.byname.setdefault(u.p.insts[i].name, []).append(i)
        self.tagty = u.ty("estree::tag::Tag")
        self.tags = [v["n"] for v in u.p.tys[self.tagty].d["vars"]]
        self.kinds, self.names = [], []
        self.install()
        self.forms = {}
        self.done = {}

    # ------------------------------------------------------------- the record
    def seq(self, st):
        return [p[1] for p in st.g[LOG][2]]

    def num(self, l, x):
        if x not in l:
            l.append(x)
        return C(l.index(x))

    def log(self, st, kind, obj, name, res):
        v = ("A", 0, (self.num(self.kinds, kind), obj, self.num(self.names, name), res))
        st.g[LOG] = ("q", "e", st.g[LOG][2] + (("e", v),))

    def entries(self, st):
        return [(self.kinds[v[2][0][2]], self.res(st, v[2][1]), self.names[v[2][2][2]], v[2][3]) for v in self.seq(st)]

    def val(self, st, v):
        while v[0] in ("r", "box"):
            v = self.e.get(st, v[1], v[2]) if v[0] == "r" else st.heap[v[1]]
        return v

    def text(self, st, v):
        v = self.val(st, v)
        t = parts_const(v[2]) if v[0] in ("q", "str") and v[1] == "c" else None
        return t

    def res(self, st, v):
        """A value with all that is known of its parts, boxes looked through."""
        while True:
            if v[0] == "o" and ("exp", v[1]) in st.facts:
                v = st.facts[("exp", v[1])]
            elif v[0] == "box":
                v = st.heap[v[1]]
            elif v[0] == "r":
                v = self.e.get(st, v[1], v[2])
            else:
                break
        if v[0] == "A":
            return ("A", v[1], tuple(self.res(st, x) for x in v[2]))
        if v[0] == "q":
            return ("q", v[1], tuple(("e", self.res(st, x[1])) if x[0] == "e" else x for x in v[2]))
        return v

    def args(self, dt):
        return [x for x in self.u.p.tys[dt].d["args"] if isinstance(x, int)]

    def install(self):
        m = []
        e = self.e

        def answer(st, kind, obj, name, dt, values):
            """The outcomes of reading something: the values, or an error."""
            out = []
            for v in values:
                n = st.copy()
                v = v(n) if callable(v) else v
                self.log(n, kind, obj, name, ok(v))
                out.append((n, ok(v)))
            n = st.copy()
            x = e.opaque(n, self.args(dt)[1])
            self.log(n, kind, obj, name, err(x))
            return out + [(n, err(x))]

        def field(kind):
            def f(e, st, inst, a, at, dt, d, t, sp):
                obj, name = self.val(st, a[0]), self.text(st, a[1])
                if name is None or obj[0] != "o":
                    raise Unmodelled("field of an unknown name")
                if any(k in LOWERR + tuple(LISTS) + ("params", "script") and o == obj and n == name for k, o, n, _ in self.entries(st)):
                    self.u.bad("twice|" + name, "the field %s is taken out twice" % name, self.root, st)
                    raise Infeasible()
                okt = self.args(dt)[0]
                if kind == "bool":
                    vs = [TRUE, FALSE]
                elif kind == "bool_opt":
                    vs = [some(TRUE), some(FALSE), NONE]
                elif kind == "object_opt":
                    vs = [NONE, lambda n: some(e.opaque(n, self.args(okt)[0]))]
                elif kind == "array":
                    el = self.args(okt)[0]
                    vs = [lambda n, k=k: ("q", "e", tuple(("e", e.opaque(n, el)) for _ in range(k))) for k in range(MAXLEN + 1)]
                elif kind in LISTS:
                    el = self.args(okt)[0]
                    top = MAXLEN if self.root == "extract_script" else 2
                    vs = [lambda n, k=k: ("q", "e", tuple(("e", e.opaque(n, el)) for _ in range(k))) for k in range(top + 1)]
                else:
                    vs = [lambda n: e.opaque(n, okt)]
                return answer(st, kind, obj, name, dt, vs)
            return f

        for k in LOWERR:
            m.append((OBJ + r"unjson::ExtractField>::extract_" + k + "$", field(k)))
        for k in list(LISTS) + ["params", "script"]:
            m.append((OBJ + r"estree::node::ExtractNode>::extract_" + k + "$", field(k)))

        def get_string(e, st, inst, a, at, dt, d, t, sp):
            obj, name = self.val(st, a[0]), self.text(st, a[1])
            for k, o, n, r in self.entries(st):
                if k == "get_string" and o == obj and n == name:
                    return [(st, r)]
            return answer(st, "get_string", obj, name, dt, [lambda n: e.opaque(n, self.args(dt)[0])])

        m.append((OBJ + r"unjson::GetField>::get_string$", get_string))

        def contains(e, st, inst, a, at, dt, d, t, sp):
            obj, name = self.val(st, a[0]), self.text(st, a[1])
            if name is None:
                return NotImplemented
            for k, o, n, r in self.entries(st):
                if k == "has" and o == obj and n == name:
                    return [(st, r)]
            out = []
            for r in (TRUE, FALSE):
                n = st.copy()
                self.log(n, "has", obj, name, r)
                out.append((n, r))
            return out

        m.append((r"std::collections::BTreeMap::<K, V.*>::contains_key", contains))

        def tag(e, st, inst, a, at, dt, d, t, sp):
            obj = self.val(st, a[0])
            for k, o, n, r in self.entries(st):
                if k == "tag" and o == obj:
                    return [(st, r)]
            return answer(st, "tag", obj, "", dt, [("A", k, ()) for k in range(len(self.tags))])

        m.append((OBJ + r"estree::tag::TagOf>::tag$", tag))

        def tageq(e, st, inst, a, at, dt, d, t, sp):
            x, y = self.res(st, a[0]), self.res(st, a[1])
            if x[0] != "A" or y[0] != "A":
                raise Unmodelled("comparison of unknown tags")
            return [(st, C(int((x == y) != inst.name.endswith("::ne"))))]

        m.append((r"<h_estree::estree::tag::Tag as std::cmp::PartialEq>::(eq|ne)$", tageq))

        def reader(e, st, inst, a, at, dt, d, t, sp):
            f = inst.name.split("::")[-1]
            obj = self.val(st, a[0])
            if f != "into_const" and obj[0] != "o":
                raise Unmodelled("%s of a known value" % f)
            arg = self.res(st, a[1]) if len(a) > 1 else UNIT
            okt = self.args(dt)[0]
            if f == "into_fun":
                arg = ("A", 0, (arg,))
            vs = [lambda n: e.opaque(n, okt)]
            if f == "into_fun" and self.root == "into_prop":
                def fun(k):
                    def g(n):
                        o = e.opaque(n, okt)
                        x = e.expand(n, o)
                        fs = [y["n"] for y in e.p.tys[okt].d["vars"][0]["f"]]
                        i = fs.index("params")
                        p = e.expand(n, x[2][i])
                        pt = e.p.tys[okt].d["vars"][0]["f"][i]["t"]
                        pf = e.p.tys[pt].d["vars"][0]["f"]
                        j = [y["n"] for y in pf].index("list")
                        el = self.args(pf[j]["t"])[0]
                        p = ("A", 0, p[2][:j] + (("q", "e", tuple(("e", e.opaque(n, el)) for _ in range(k))),) + p[2][j + 1:])
                        return ("A", 0, x[2][:i] + (p,) + x[2][i + 1:])
                    return g
                vs = [fun(k) for k in range(3)] if arg == ("A", 0, (UNIT,)) else vs
            return answer(st, f, ("A", 9, (obj, arg)) if f == "into_fun" else obj, "", dt, vs)

        m.append((OBJ + r"estree::[a-z]+::(Into[A-Za-z]+)(<.*>)?>::into_(expr|expr_list_item|lit|id|patt|prop|prop_key|fun|dtor|for_head|"
                  r"for_in_head|for_of_head|stmt|stmt_list_item|case|catch|block)$", reader))
        m.append((r"<std::vec::Vec<.*easter::decl::Dtor> as .*IntoConst>::into_const$", reader))

        def unobj(e, st, inst, a, at, dt, d, t, sp):
            obj = self.val(st, a[0])
            f = inst.name.split("::")[-1]
            okt = self.args(dt)[0]
            vs = [lambda n: e.opaque(n, okt)] if f == "into_object" else [NONE, lambda n: some(e.opaque(n, self.args(okt)[0]))]
            return answer(st, f, obj, "", dt, vs)

        m.append((r"<.*serde_json::Value as .*unjson::Unjson>::into_object(_opt)?$", unobj))

        def cover(e, st, inst, a, at, dt, d, t, sp):
            obj = self.val(st, a[0])
            return answer(st, inst.name.split("::")[-1], obj, "", dt, [lambda n: e.opaque(n, self.args(dt)[0])])

        m.append((r".*cover::IntoAssign(Patt|Target)>::into_assign_(patt|target)$", cover))

        def parse(e, st, inst, a, at, dt, d, t, sp):
            v = self.val(st, a[0])
            if v[0] not in ("q", "str"):
                raise Unmodelled("operator text")
            o = self.args(dt)[0]
            return answer(st, "parse:" + re.sub(r".*punc::|>+$", "", self.u.p.tys[o].s), ("q", "c", v[2]), "", dt, [lambda n: e.opaque(n, o)])

        m.append((r"<.*easter::punc::Op<T> as std::str::FromStr>::from_str$", parse))

        def streq(e, st, inst, a, at, dt, d, t, sp):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if x[0] not in ("q", "str") or y[0] not in ("q", "str"):
                return NotImplemented
            c = parts_const(y[2])
            if c is None:
                x, y = y, x
                c = parts_const(y[2])
            if c is None or len(x[2]) != 1 or x[2][0][0] != "S":
                return NotImplemented
            neg = inst.name.endswith("::ne")
            k = self.known(st, x[2][0][1], c)
            if k is not None:
                return [(st, C(int(k != neg)))]
            out = []
            for r in (True, False):
                n = st.copy()
                self.log(n, "streq", ("q", "c", x[2]), c, C(int(r)))
                out.append((n, C(int(r != neg))))
            return out

        m.append((r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$", streq))
        m.append((r"<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", streq))

        def textof(e, st, inst, a, at, dt, d, t, sp):
            v = self.res(st, a[0])
            p = (("S", self.e.define(st, ("text", v), ("s", e.cd.ALL, 0, frozenset()))),)
            return [(st, (("str" if "as_ref" in inst.name else "q"), "c", p))]

        m.append((r"<?.*joker::word::Name(::| as .*>::)(into_string|as_ref|as_str)$", textof))

        def namefrom(e, st, inst, a, at, dt, d, t, sp):
            v = self.val(st, a[0])
            o = self.u.ty("joker::word::Name")
            return [(st, ("o", e.define(st, ("namefrom", v[2]), ("o", o))))]

        m.append((r"<.*joker::word::Name as std::convert::From<.*String>>::from$", namefrom))

        def numlit(e, st, inst, a, at, dt, d, t, sp):
            k = re.sub(r"^<| as.*", "", inst.name)
            return [(st, ("o", e.define(st, ("numlit", k, a[0]), ("o", dt))))]

        m.append((r"<[iuf]64 as .*IntoNumberLiteral>::into_number_literal$", numlit))

        def opaque(e, st, inst, a, at, dt, d, t, sp):
            return [(st, e.opaque(st, dt))]

        def cell(e, st, inst, a, at, dt, d, t, sp):
            e.hid += 1
            st.heap[e.hid] = e.opaque(st, self.u.p.tys[dt].d["e"])
            return [(st, ("r", ("H", e.hid), ()))]

        m.append((r"<.*serde_json::Value as .*ty::TyOf>::ty$", opaque))
        m.append((r"(std|alloc)::fmt::format$", opaque))
        m.append((r".* as .*track::TrackingRef>::tracking_ref$", cell))
        m.append((r".*joker::track::span$", opaque))

        def directive(e, st, inst, a, at, dt, d, t, sp):
            f = inst.name.split("::")[-1]
            v = self.res(st, a[0])
            for k, o, n, r in self.entries(st):
                if k == "dir" and o == v:
                    break
            else:
                out = []
                for r in (TRUE, FALSE):
                    n = st.copy()
                    self.log(n, "dir", v, "", r)
                    out += directive(e, n, inst, a, at, dt, d, t, sp)
                return out
            if f == "is_directive":
                return [(st, r)]
            return [(st, some(("o", e.define(st, ("directive", v), ("o", self.args(dt)[0])))) if r == TRUE else NONE)]

        m.append((r".*easter::stmt::StmtListItem::(is|to)_directive$", directive))
        self.u.leaves(*m)

    def known(self, st, sym, c):
        """Whether a text is the constant c, as far as the path has found out."""
        for k, o, n, r in self.entries(st):
            if k == "streq" and o[2][0][1] is sym:
                if n == c:
                    return r == TRUE
                if r == TRUE:
                    return False
        return None

    # ------------------------------------------------------------- runs
    def insts(self, name):
        r = re.compile(r"<.* as h_estree::estree::.*>::" + name + "$")
        return [i for n, l in self.byname.items() for i in l if r.match(n)]

    def analyse(self, name, spec, what, inst=None, arg=None):
        """Every path of reader `name` against the reference reader."""
        u = self.u
        self.root = name
        l = [inst] if inst is not None else self.insts(name)
        if not l:
            u.und["no function %s" % name] = 1
            return
        raw = u.p.insts[l[0]].raw
        st = u.state()
        st.g[LOG] = ("q", "e", ())
        at = raw["locals"][1:1 + raw["argc"]]
        byref = u.p.tys[at[0]].k == "ref"
        o = u.sym(st, u.p.tys[at[0]].d["e"] if byref else at[0])
        if arg is not None:
            o = arg(st, at[0])
        st.g["self"] = o
        args = [u.cell(st, o) if byref else o]
        if len(at) > 1:
            t = u.p.tys[at[1]]
            if t.k == "ref":
                args.append(("str", "c", tuple(("e", C(ord(c))) for c in "field")))
            else:
                x = u.sym(st, at[1])
                st.g["arg"] = x
                args.append(x)
        got = set()
        for s, r in u.paths_of(name, st, args, inst=l[0]):
            if r[0] != "A":
                u.und["%s: unknown result" % name] = 1
                continue
            R = Reader(self, s)
            rr = self.res(s, r)
            # what the path found out by itself has no part in the reference
            want, why = None, None
            try:
                want = spec(R, s.g["self"], s.g.get("arg"))
            except Missing as x:
                why = x
            except Fails as x:
                why = x
            except Reject as x:
                why = x
            form = R.form or "?"
            if rr[1] == 0:
                if why is not None:
                    if isinstance(why, Missing):
                        u.bad("unread|%s|%s" % (form, why), "%s is built without looking at %s" % (form, why), name, s)
                    elif isinstance(why, Fails):
                        u.bad("ignored|%s" % form, "%s is built although %s %s failed" % (form, why.entry[0], why.entry[2]), name, s)
                    else:
                        u.bad("accepted|%s" % form, "%s is accepted (%s)" % (form, why), name, s)
                    continue
                d = self.differ(s, rr[2][0], want)
                if d:
                    u.bad("value|%s|%s" % (form, d), "%s does not become what it stands for (%s)" % (form, d), name, s, got=rr[2][0])
                else:
                    got.add(form)
            else:
                self.rejected(name, s, R, spec, rr, want, why, form)
        self.forms[name] = sorted(got)
        for f in what:
            if f not in got:
                u.bad("never|" + f, "%s is never accepted" % f, name, missing=True)

    def rejected(self, name, s, R, spec, rr, want, why, form):
        u = self.u
        if isinstance(why, Reject):
            return
        if isinstance(why, Fails):
            k, o, n, r = why.entry
            if k.startswith("parse:") or k in ("into_assign_patt", "into_assign_target", "get_string"):
                return
            if not self.within(rr, self.res(s, r[2][0])):
                u.bad("error|%s" % form, "the error of %s %s is not the one reported for %s" % (k, n, form), name, s)
            return
        if isinstance(why, Missing):
            failed = [x for x in self.entries(s) if x[3][0] == "A" and x[3][1] == 1 and x[0] not in ("has", "streq", "dir")]
            asked = []
            accepts = Reader.explore(self, s, spec, R, asked)
            bad = [x for x in failed if not any(a[0] == x[0] and a[1] == x[1] and a[2] == x[2] for a in asked)]
            if not failed and not accepts:
                return
            if not failed or bad:
                u.bad("rejects|%s|%s" % (form, bad[0][0] + " " + bad[0][2] if bad else ""),
                      "%s is rejected because of %s" % (form, "%s %s, which it does not have" % (bad[0][0], bad[0][2]) if bad else "nothing it contains"),
                      name, s)
            return
        u.bad("rejects|%s" % form, "%s is rejected" % form, name, s)

    def within(self, v, x):
        if v == x:
            return True
        return v[0] == "A" and any(self.within(y, x) for y in v[2])

    def differ(self, s, v, want, at="result"):
        """Where a value is not the node wanted; None if it is."""
        if want is ANY:
            return None
        if isinstance(want, N):
            t = [x for x in self.u.p.tys if x.k == "adt" and x.d["name"].endswith("::" + want.ty)]
            if not t:
                return "no type " + want.ty
            vs = t[0].d["vars"]
            i = [x["n"] for x in vs].index(want.var) if want.var else 0
            if v[0] == "o":
                return "%s: anything" % at
            if v[0] != "A" or v[1] != i:
                return "%s: not %s" % (at, want.var or want.ty)
            fs = [x["n"] for x in vs[i]["f"]]
            w = list(want.f) if not want.kw else [want.kw.get(n, ANY) for n in fs]
            if len(w) != len(v[2]) or any(k not in fs for k in want.kw):
                return "%s: fields" % at
            for n, x, y in zip(fs, v[2], w):
                d = self.differ(s, x, y, "%s.%s" % (want.var or want.ty, n))
                if d:
                    return d
            return None
        if isinstance(want, list):
            if v[0] != "q" or any(p[0] != "e" for p in v[2]) or len(v[2]) != len(want):
                return "%s: not those elements" % at
            for k, (p, w) in enumerate(zip(v[2], want)):
                d = self.differ(s, p[1], w, "%s[%d]" % (at, k))
                if d:
                    return d
            return None
        if isinstance(want, tuple) and want and want[0] == "some":
            if v[0] != "A" or v[1] != 1:
                return "%s: not Some" % at
            return self.differ(s, v[2][0], want[1], at)
        if want is None:
            return None if v == NONE else "%s: not None" % at
        if want in (True, False) and isinstance(want, bool):
            return None if v == C(int(want)) else "%s: not %s" % (at, want)
        if v[0] == "q" and v[1] == "c" or v[0] == "str":
            v = ("q", "c", v[2])
        return None if v == self.res(s, want) else "%s: another part" % at


class Reader:
    """Answers the reference reader with what the path has read."""
    def __init__(self, c, s, choices=None, asked=None):
        self.c, self.s = c, s
        self.log = c.entries(s)
        self.form = None
        self.choices, self.asked, self.pos = choices, asked, 0

    @staticmethod
    def explore(c, s, spec, R, asked):
        """Everything the reference reader could ask for, whatever the answers not yet given."""
        todo, n, accepts = [[]], 0, False
        while todo and n < 3000:
            n += 1
            ch = todo.pop()
            r = Reader(c, s, ch, asked)
            try:
                spec(r, s.g["self"], s.g.get("arg"))
                accepts = True
            except (Missing, Fails, Reject):
                pass
            for k in range(len(ch), len(r.made)):
                for alt in range(1, r.made[k][1]):
                    todo.append([x[0] for x in r.made[:k]] + [alt])
        return accepts or n >= 3000

    made = ()

    def choose(self, n):
        if self.made == ():
            self.made = []
        k = self.choices[len(self.made)] if len(self.made) < len(self.choices) else 0
        self.made.append((k, n))
        return k

    def read(self, kind, obj, name="", kinds=1):
        """The answer given, or (when exploring) None."""
        o = self.c.res(self.s, obj) if obj is not None else None
        if self.asked is not None:
            self.asked.append((kind, o, name))
        if o is not None:
            for x in self.log:
                if x[0] == kind and x[1] == o and x[2] == name:
                    r = x[3]
                    if kind in ("has", "dir"):
                        return r
                    if r[1] == 1:
                        if self.asked is None:
                            raise Fails(x)
                        return None
                    return r[2][0]
        if self.asked is None:
            raise Missing("%s%s" % (kind, " '%s'" % name if name else ""))
        return None

    # what a reader can ask
    def tag(self, o):
        v = self.read("tag", o)
        if v is None:
            return self.c.tags[self.choose(len(self.c.tags))]
        return self.c.tags[v[1]]

    def has(self, o, name):
        v = self.read("has", o, name)
        return bool(self.choose(2)) if v is None else v == TRUE

    def bool(self, o, name):
        v = self.read("bool", o, name)
        return bool(self.choose(2)) if v is None else v == TRUE

    def bool_opt(self, o, name):
        v = self.read("bool_opt", o, name)
        if v is None:
            return (None, True, False)[self.choose(3)]
        return None if v == NONE else v[2][0] == TRUE

    def string(self, o, name):
        return self.read("string", o, name)

    def field(self, o, name):
        return self.read("field", o, name)

    def object(self, o, name):
        return self.read("object", o, name)

    def object_opt(self, o, name):
        v = self.read("object_opt", o, name)
        if v is None:
            return ("unknown",) if self.choose(2) else None
        return None if v == NONE else v[2][0]

    def array(self, o, name):
        v = self.read("array", o, name)
        if v is None:
            return [None] * self.choose(MAXLEN + 1)
        return [p[1] for p in v[2]]

    def list(self, kind, o, name):
        return self.read(kind, o, name)

    def into(self, what, o):
        if o == ("unknown",):
            o = None
        return self.read("into_" + what, o)

    def fun(self, o, arg):
        return self.read("into_fun", None if o is None else ("A", 9, (o, ("A", 0, (arg,)))))

    def parse(self, ty, v):
        return self.read("parse:" + ty, v)

    def is_(self, v, c):
        if v is None:
            return bool(self.choose(2))
        k = self.c.known(self.s, v[2][0][1], c)
        if k is None:
            if self.asked is None:
                raise Missing("whether it is '%s'" % c)
            return bool(self.choose(2))
        return k

    def case(self, v, consts):
        """The constant a text is; one that is none of them is turned down."""
        for c in consts:
            if self.is_(v, c):
                return c
        raise Reject("another word than %s" % ", ".join(consts))

    # readers of fields
    def expr(self, o, n):
        return self.into("expr", self.object(o, n))

    def stmt(self, o, n):
        return self.into("stmt", self.object(o, n))

    def id(self, o, n):
        return self.into("id", self.object(o, n))

    def patt(self, o, n):
        return self.into("patt", self.object(o, n))

    def block(self, o, n):
        return self.into("block", self.object(o, n))

    def opt(self, what, o, n):
        x = self.object_opt(o, n)
        return None if x is None else ("some", self.into(what, x))

    def name(self, v):
        if v is None:
            return None
        x = self.c.res(self.s, v)
        if x[0] != "A":
            raise Missing("the name of the identifier")
        fs = [y["n"] for y in self.c.u.p.tys[self.c.u.ty("easter::id::Id")].d["vars"][0]["f"]]
        return x[2][fs.index("name")]

    def text(self, v):
        x = self.name(v)
        if x is None:
            return None
        k = self.s.facts.get(("def", "text", x))
        if k is None:
            raise Missing("the text of the identifier")
        return ("q", "c", (("S", k[0]),))


# ----------------------------------------------------------------- expressions
def x_expr(R, o, arg):
    t = R.form = R.tag(o)
    if t == "Identifier":
        return N("Expr.Id", R.into("id", o))
    if t == "Literal":
        return R.into("lit", o)
    if t in ("BinaryExpression", "LogicalExpression"):
        op = R.parse("BinopTag" if t[0] == "B" else "LogopTag", R.string(o, "operator"))
        return N("Expr.Binop" if t[0] == "B" else "Expr.Logop", ANY, op, R.expr(o, "left"), R.expr(o, "right"))
    if t == "AssignmentExpression":
        op = R.string(o, "operator")
        right = R.expr(o, "right")
        left = R.expr(o, "left")
        if R.is_(op, "="):
            R.form += " ="
            return N("Expr.Assign", ANY, R.into("assign_patt", left), right)
        R.form += " op="
        return N("Expr.BinAssign", ANY, R.parse("AssopTag", op), R.into("assign_target", left), right)
    if t == "UnaryExpression":
        return N("Expr.Unop", ANY, R.parse("UnopTag", R.string(o, "operator")), R.expr(o, "argument"))
    if t == "UpdateExpression":
        op = R.case(R.string(o, "operator"), ("++", "--"))
        pre = R.bool(o, "prefix")
        R.form += " %s %s" % (op, "before" if pre else "after")
        return N("Expr.%s%s" % ("Pre" if pre else "Post", "Inc" if op == "++" else "Dec"), ANY, R.into("assign_target", R.expr(o, "argument")))
    if t == "MemberExpression":
        obj = R.expr(o, "object")
        if R.bool(o, "computed"):
            R.form += " computed"
            return N("Expr.Brack", ANY, obj, R.expr(o, "property"))
        R.form += " dotted"
        return N("Expr.Dot", ANY, obj, N("DotKey", value=R.text(R.id(o, "property"))))
    if t == "CallExpression":
        return N("Expr.Call", ANY, R.expr(o, "callee"), R.list("expr_list", o, "arguments"))
    if t == "NewExpression":
        return N("Expr.New", ANY, R.expr(o, "callee"), ("some", R.list("expr_list", o, "arguments")))
    if t == "ArrayExpression":
        return N("Expr.Arr", ANY, R.list("expr_opt_list", o, "elements"))
    if t == "FunctionExpression":
        i = R.opt("id", o, "id")
        if i is None:
            R.form += " unnamed"
            return N("Expr.Fun", R.fun(o, NONE))
        R.form += " named"
        return N("Expr.Fun", R.fun(o if i[1] is not None else None, some(R.c.res(R.s, i[1])) if i[1] is not None else None))
    if t == "SequenceExpression":
        return N("Expr.Seq", ANY, R.list("exprs", o, "expressions"))
    if t == "ObjectExpression":
        return N("Expr.Obj", ANY, R.list("prop_list", o, "properties"))
    if t == "ConditionalExpression":
        return N("Expr.Cond", ANY, R.expr(o, "test"), R.expr(o, "consequent"), R.expr(o, "alternate"))
    if t == "ThisExpression":
        return N("Expr.This", ANY)
    if t == "MetaProperty":
        m, p = R.id(o, "meta"), R.id(o, "property")
        if R.is_(R.text(m), "new") and R.is_(R.text(p), "target"):
            return N("Expr.NewTarget", ANY)
        raise Reject("another meta property than new.target")
    raise Reject("a %s is no expression" % t)


EXPRS = ("Identifier Literal BinaryExpression LogicalExpression UnaryExpression CallExpression NewExpression ArrayExpression "
         "SequenceExpression ObjectExpression ConditionalExpression ThisExpression MetaProperty").split() + [
    "AssignmentExpression =", "AssignmentExpression op=", "UpdateExpression ++ before", "UpdateExpression ++ after",
    "UpdateExpression -- before", "UpdateExpression -- after", "MemberExpression computed", "MemberExpression dotted",
    "FunctionExpression unnamed", "FunctionExpression named"]


def x_item(R, o, arg):
    if R.tag(o) == "SpreadElement":
        R.form = "SpreadElement"
        return N("ExprListItem.Spread", ANY, R.expr(o, "argument"))
    R.form = "Expression"
    return N("ExprListItem.Expr", R.into("expr", o))


def x_id(R, o, arg):
    t = R.form = R.tag(o)
    if t != "Identifier":
        raise Reject("a %s is no identifier" % t)
    s = R.string(o, "name")
    k = R.s.facts.get(("def", "namefrom", s[2])) if s is not None else None
    if s is not None and k is None:
        raise Missing("the name")
    return N("Id", name=("o", k[0]) if k else None)


def x_patt(R, o, arg):
    R.form = "pattern"
    return N("Patt.Simple", R.into("id", o))


def x_lit(R, o, arg):
    v = R.field(o, "value")
    vt = R.c.u.p.tys[R.c.u.ty("serde_json::Value")]
    names = [x["n"] for x in vt.d["vars"]]
    if v is None:
        k, p = names[R.choose(len(names))], None
    else:
        i = R.c.e.lazy_variant(R.s, v[1]) if v[0] == "o" else v[1]
        if i is None:
            x = R.s.facts.get(("exp", v[1]))
            i = x[1] if x else R.s.facts.get(("var", v[1]))
        if i is None:
            if R.asked is None:
                raise Missing("the kind of value")
            k, p = names[R.choose(len(names))], None
        else:
            k = names[i]
            x = R.c.e.expand(R.s, v, i) if v[0] == "o" else v
            p = x[2][0] if x[2] else None
    R.form = k
    if k == "Null" and not R.has(o, "regex"):
        return N("Expr.Null", ANY)
    if k == "Bool":
        if p is not None:
            lo, hi = R.c.e.bounds(R.s, p)
            if lo != hi:
                raise Missing("the truth value")
            R.form += " %s" % bool(lo)
            return N("Expr.True" if lo else "Expr.False", ANY)
        return None
    if k == "String":
        return N("Expr.String", ANY, N("StringLiteral", source=None, value=p))
    if k in ("I64", "U64", "F64"):
        if p is None:
            return None
        x = R.s.facts.get(("def", "numlit", k.lower(), p))
        if x is None:
            raise Missing("the number")
        return N("Expr.Number", ANY, ("o", x[0]))
    if k in ("Null", "Object"):
        R.form = "RegExp as " + k
        r = R.object(o, "regex")
        p, f = R.read("string", r, "pattern"), R.read("string", r, "flags")
        return N("Expr.RegExp", ANY, N("RegExpLiteral", pattern=p, flags=f))
    raise Reject("a literal of kind %s" % k)


def x_prop(R, o, arg):
    if R.has(o, "computed"):
        R.form = "computed"
        if R.bool(o, "computed"):
            raise Reject("a computed name")
    key, val = R.object(o, "key"), R.object(o, "value")
    kind = R.form = R.case(R.string(o, "kind"), ("init", "get", "set"))
    if kind == "init":
        if R.bool(o, "method"):
            R.form = "method"
            k = R.into("prop_key", key)
            return N("Prop.Method", R.fun(val if k is not None else None, R.c.res(R.s, k) if k is not None else None))
        if R.bool(o, "shorthand"):
            R.form = "shorthand"
            return N("Prop.Shorthand", R.into("id", key))
        return N("Prop.Regular", ANY, R.into("prop_key", key), N("PropVal.Init", R.into("expr", val)))
    if kind == "get":
        body = R.list("script", R.object(val, "body"), "body")
        return N("Prop.Regular", ANY, R.into("prop_key", key), N("PropVal.Get", ANY, body))
    f = R.fun(val, UNIT)
    k = R.into("prop_key", key) if R.asked is not None else None
    if f is None:
        return None
    fs = [y["n"] for y in [t for t in R.c.u.p.tys if t.k == "adt" and t.d["name"].endswith("fun::Fun")][0].d["vars"][0]["f"]]
    ps = [y["n"] for y in R.c.u.p.tys[R.c.u.ty("easter::fun::Params")].d["vars"][0]["f"]]
    pl = f[2][fs.index("params")]
    pl = R.c.res(R.s, pl)[2][ps.index("list")]
    if len(pl[2]) != 1:
        raise Reject("a setter of %d parameters" % len(pl[2]))
    return N("Prop.Regular", ANY, R.into("prop_key", key), N("PropVal.Set", ANY, pl[2][0][1], f[2][fs.index("body")]))


def x_key(R, o, arg):
    if R.tag(o) == "Identifier":
        R.form = "identifier"
        return N("PropKey.Id", ANY, R.text(R.into("id", o)))
    R.form = "literal"
    v = R.into("lit", o)
    if v is None:
        return None
    et = R.c.u.p.tys[R.c.u.ty("easter::expr::Expr")]
    names = [x["n"] for x in et.d["vars"]]
    i = R.c.e.lazy_variant(R.s, v[1]) if v[0] == "o" else v[1]
    if i is None:
        ex = R.s.facts.get(("exp", v[1]))
        i = ex[1] if ex else None
    if i is None or names[i] not in ("Number", "String"):
        raise Reject("a literal that is no property name")
    R.form = names[i]
    x = R.c.e.expand(R.s, v, i) if v[0] == "o" else v
    return N("PropKey." + names[i], ANY, x[2][1])


# ----------------------------------------------------------------- statements
def semi():
    return N("Semi.Explicit", ANY)


def x_stmt_any(decl):
    def st(v):
        return N("StmtListItem.Stmt", v) if decl else v

    def f(R, o, arg):
        t = R.form = R.tag(o)
        if t == "FunctionDeclaration":
            if not decl:
                raise Reject("a declaration where a statement is required")
            i = R.id(o, "id")
            return N("StmtListItem.Decl", N("Decl.Fun", R.fun(o if i is not None else None, R.c.res(R.s, i) if i is not None else None)))
        if t == "VariableDeclaration":
            d = R.list("dtor_list", o, "declarations")
            k = R.case(R.string(o, "kind"), ("var", "let", "const"))
            R.form = k
            if k == "var":
                return st(N("Stmt.Var", ANY, d, semi()))
            if not decl:
                raise Reject("a declaration where a statement is required")
            if k == "let":
                return N("StmtListItem.Decl", N("Decl.Let", ANY, d, semi()))
            return N("StmtListItem.Decl", N("Decl.Const", ANY, R.into("const", d), semi()))
        if t == "EmptyStatement":
            return st(N("Stmt.Empty", ANY))
        if t == "ExpressionStatement":
            return st(N("Stmt.Expr", ANY, R.expr(o, "expression"), semi()))
        if t == "IfStatement":
            a, b, c = R.expr(o, "test"), R.stmt(o, "consequent"), R.opt("stmt", o, "alternate")
            R.form += " else" if c else ""
            return st(N("Stmt.If", ANY, a, b, c))
        if t == "DoWhileStatement":
            return st(N("Stmt.DoWhile", ANY, R.stmt(o, "body"), R.expr(o, "test"), semi()))
        if t == "WhileStatement":
            return st(N("Stmt.While", ANY, R.expr(o, "test"), R.stmt(o, "body")))
        if t == "ForStatement":
            i, a, b = R.opt("for_head", o, "init"), R.opt("expr", o, "test"), R.opt("expr", o, "update")
            R.form += " %d%d%d" % (i is not None, a is not None, b is not None)
            return st(N("Stmt.For", ANY, i, a, b, R.stmt(o, "body")))
        if t == "ForInStatement":
            return st(N("Stmt.ForIn", ANY, R.into("for_in_head", R.object(o, "left")), R.expr(o, "right"), R.stmt(o, "body")))
        if t == "ForOfStatement":
            return st(N("Stmt.ForOf", ANY, R.into("for_of_head", R.object(o, "left")), R.expr(o, "right"), R.stmt(o, "body")))
        if t == "BlockStatement":
            return st(N("Stmt.Block", R.into("block", o)))
        if t == "ReturnStatement":
            a = R.opt("expr", o, "argument")
            R.form += " value" if a else ""
            return st(N("Stmt.Return", ANY, a, semi()))
        if t == "LabeledStatement":
            return st(N("Stmt.Label", ANY, R.id(o, "label"), R.stmt(o, "body")))
        if t in ("BreakStatement", "ContinueStatement"):
            a = R.opt("id", o, "label")
            R.form += " label" if a else ""
            return st(N("Stmt.Break" if t[0] == "B" else "Stmt.Cont", ANY, a, semi()))
        if t == "SwitchStatement":
            return st(N("Stmt.Switch", ANY, R.expr(o, "discriminant"), R.list("case_list", o, "cases")))
        if t == "WithStatement":
            return st(N("Stmt.With", ANY, R.expr(o, "object"), R.stmt(o, "body")))
        if t == "ThrowStatement":
            return st(N("Stmt.Throw", ANY, R.expr(o, "argument"), semi()))
        if t == "DebuggerStatement":
            return st(N("Stmt.Debugger", ANY, semi()))
        if t == "TryStatement":
            a, b, c = R.block(o, "block"), R.opt("catch", o, "handler"), R.opt("block", o, "finalizer")
            R.form += " catch" * bool(b) + " finally" * bool(c)
            return st(N("Stmt.Try", ANY, a, b, c))
        raise Reject("a %s is no statement" % t)
    return f


STMTS = ("var EmptyStatement ExpressionStatement IfStatement DoWhileStatement WhileStatement ForInStatement ForOfStatement BlockStatement "
         "ReturnStatement LabeledStatement BreakStatement ContinueStatement SwitchStatement WithStatement ThrowStatement "
         "DebuggerStatement TryStatement").split() + ["IfStatement else", "ReturnStatement value", "BreakStatement label",
                                                      "ContinueStatement label", "TryStatement catch", "TryStatement finally",
                                                      "TryStatement catch finally"] + [
    "ForStatement %d%d%d" % (a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def x_forhead(R, o, arg):
    if R.tag(o) != "VariableDeclaration":
        R.form = "expression"
        return N("ForHead.Expr", ANY, R.into("expr", o))
    d = R.list("dtor_list", o, "declarations")
    k = R.form = R.case(R.string(o, "kind"), ("var", "let", "const"))
    return N("ForHead." + k.capitalize(), ANY, R.into("const", d) if k == "const" else d)


def x_forin(of):
    T = "ForOfHead" if of else "ForInHead"

    def f(R, o, arg):
        if R.tag(o) != "VariableDeclaration":
            R.form = "pattern"
            return N(T + ".Patt", R.into("assign_patt", R.into("expr", o)))
        l = R.array(o, "declarations")
        kind = R.string(o, "kind")
        if len(l) != 1:
            raise Reject("%d declarations" % len(l))
        d = R.read("into_object", l[0])
        lhs = R.patt(d, "id")
        if not of:
            init = R.opt("expr", d, "init")
            if init is not None:
                R.form = "initializer"
                if not R.is_(kind, "var"):
                    raise Reject("an initializer")
                simple = R.choose(2) == 0 if lhs is None else R.c.e.lazy_variant(R.s, lhs[1]) if lhs[0] == "o" else lhs[1]
                if lhs is None:
                    return None
                if simple is None:
                    if R.asked is None:
                        raise Missing("whether the variable is a pattern")
                    return None
                pt = [t for t in R.c.u.p.tys if t.k == "adt" and t.d["name"].endswith("patt::Patt")][0]
                if pt.d["vars"][simple]["n"] != "Simple":
                    raise Reject("an initializer of a pattern")
                x = R.c.e.expand(R.s, lhs, simple) if lhs[0] == "o" else lhs
                return N(T + ".VarInit", ANY, x[2][0], init[1])
        k = R.form = R.case(kind, ("var", "let", "const"))
        return N(T + "." + k.capitalize(), ANY, lhs)
    return f


def x_case(R, o, arg):
    t = R.opt("expr", o, "test")
    R.form = "case" if t else "default"
    return N("Case", test=t, body=R.list("stmt_list", o, "consequent"))


def x_catch(R, o, arg):
    R.form = "catch"
    return N("Catch", param=R.patt(o, "param"), body=R.block(o, "body"))


def x_block(R, o, arg):
    t = R.form = R.tag(o)
    if t != "BlockStatement":
        raise Reject("a %s is no block" % t)
    return N("Block", items=R.list("stmt_list", o, "body"))


def x_dtor(R, o, arg):
    lhs = R.patt(o, "id")
    init = R.opt("expr", o, "init")
    if lhs is None:
        return None
    i = R.c.e.lazy_variant(R.s, lhs[1]) if lhs[0] == "o" else lhs[1]
    if i is None:
        raise Missing("whether the variable is a pattern")
    pt = [t for t in R.c.u.p.tys if t.k == "adt" and t.d["name"].endswith("patt::Patt")][0]
    x = R.c.e.expand(R.s, lhs, i) if lhs[0] == "o" else lhs
    R.form = pt.d["vars"][i]["n"] + (" with" if init else " without") + " value"
    if pt.d["vars"][i]["n"] == "Simple":
        return N("Dtor.Simple", ANY, x[2][0], init)
    if init is None:
        raise Reject("a pattern without a value")
    return N("Dtor.Compound", ANY, x[2][0], init[1])


def x_fun(R, o, arg):
    R.form = "function"
    g = R.bool_opt(o, "generator")
    R.form = ("generator" if g else "function") + (" stated" if g is not None else "")
    return N("Fun", id=arg, params=R.list("params", o, "params"), body=R.list("script", R.object(o, "body"), "body"), generator=bool(g))


def x_script_of(R, o, arg):
    R.form = "script"
    return R.list("script", o, "body")


# ----------------------------------------------------------------- lists
def x_list(kind):
    def f(R, o, arg):
        l = R.array(o, "field")
        R.form = "%d elements" % len(l)
        out = []
        for x in l:
            if kind == "expr_opt_list":
                y = R.read("into_object_opt", x)
                if y == NONE:
                    out.append(None)
                    continue
                out.append(("some", R.into("expr_list_item", y[2][0] if y is not None else None)))
            else:
                out.append(R.read(LISTS[kind], R.read("into_object", x)))
        return out
    return f


def x_params(R, o, arg):
    l = [R.read("into_object", x) for x in R.array(o, "field")]
    R.form = "%d parameters" % len(l)
    rest = None
    if l and R.tag(l[-1]) == "RestElement":
        R.form += " and rest"
        rest = ("some", N("RestPatt", patt=R.patt(l[-1], "argument")))
        l = l[:-1]
    return N("Params", list=[R.into("patt", x) for x in l], rest=rest)


def x_script(R, o, arg):
    v = R.list("stmt_list", o, "field")
    if v is None:
        return None
    l = [p[1] for p in v[2]]
    n = 0
    while n < len(l) and R.read("dir", l[n]) == TRUE:
        n += 1
    R.form = "%d statements, %d directives" % (len(l), n)
    dirs = []
    for x in l[:n]:
        k = R.s.facts.get(("def", "directive", R.c.res(R.s, x)))
        if k is None:
            raise Missing("a directive")
        dirs.append(("o", k[0]))
    return N("Body", dirs=dirs, items=l[n:])


def x_assign(what):
    def f(R, o, arg):
        R.form = "target"
        return R.into("assign_" + what, R.expr(o, "field"))
    return f


def x_one(what, opt):
    def f(R, o, arg):
        if opt:
            v = R.opt(what, o, "field")
            R.form = "present" if v else "absent"
            return v
        R.form = what
        return R.into(what, R.object(o, "field"))
    return f


def x_const(R, o, arg):
    out = []
    dt = R.c.u.p.tys[R.c.u.ty("easter::decl::Dtor")].d["vars"]
    R.form = "%d declarators" % len(o[2])
    for p in o[2]:
        v = R.c.res(R.s, p[1])
        i = R.c.e.lazy_variant(R.s, v[1]) if v[0] == "o" else v[1]
        if i is None:
            raise Missing("the kind of declarator")
        x = R.c.e.expand(R.s, v, i) if v[0] == "o" else v
        if dt[i]["n"] == "Compound":
            out.append(N("ConstDtor", patt=N("Patt.Compound", x[2][1]), value=x[2][2]))
            continue
        v = R.c.res(R.s, x[2][2])
        j = R.c.e.lazy_variant(R.s, v[1]) if v[0] == "o" else v[1]
        if j is None:
            raise Missing("the value of a constant")
        if j == 0:
            raise Reject("a constant without a value")
        v = R.c.e.expand(R.s, v, j) if v[0] == "o" else v
        out.append(N("ConstDtor", patt=N("Patt.Simple", x[2][1]), value=v[2][0]))
    return out


def x_tag(R, o, arg):
    s = R.read("get_string", o, "type")
    for n in ESTREE:
        if R.is_(s, n):
            R.form = n
            return N("Tag." + n)
    raise Reject("no type of node")


# the node types of ESTree that have a reader
ESTREE = sorted({f.split()[0] for f in EXPRS + STMTS if f != "var"} | {"SpreadElement", "RestElement", "FunctionDeclaration", "VariableDeclaration"})


def numbers(c):
    """Number literals: the value is the number's, the source (of an integer) its decimal digits."""
    u, e = c.u, c.e
    c.root = "into_number_literal"
    for i in c.insts("into_number_literal"):
        k = re.sub(r"^<| as .*", "", u.p.insts[i].name)
        name = "%s::into_number_literal" % k
        st = u.state()
        st.g[LOG] = ("q", "e", ())
        v = u.sym(st, u.p.insts[i].raw["locals"][1])
        n = 0
        for s, r in u.paths_of(name, st, [v], inst=i):
            n += 1
            r = c.res(s, r)
            if k == "f64":
                want = N("NumberLiteral", source=None, value=ANY)
                val = v
            else:
                d = s.facts.get(("def", "dec", v))
                want = N("NumberLiteral", source=("some", N("NumberSource.DecimalInt", ("q", "c", (("S", d[0]),)) if d else C(0), None)), value=ANY)
                val = ("f", "ofint", v)
            x = c.differ(s, r, want)
            fs = [y["n"] for y in u.p.tys[u.ty("NumberLiteral")].d["vars"][0]["f"]]
            if x:
                u.bad("source", "the source of the literal is not its decimal digits (%s)" % x, name, s)
            elif r[2][fs.index("value")] != val:
                u.bad("value", "the value of the literal is not the number", name, s, got=r)
        if not n:
            u.bad("never", "no number becomes a literal", name, missing=True)


# ----------------------------------------------------------------- the checks
def lens(n, f):
    return [f % k for k in range(n + 1)]


ROOTS = {
    # name: (property, reference, forms that must be accepted)
    "into_expr": ("E01", x_expr, EXPRS), "into_expr_list_item": ("E01", x_item, ["SpreadElement", "Expression"]),
    "into_lit": ("E01", x_lit, ["Null", "Bool True", "Bool False", "String", "I64", "U64", "F64", "RegExp as Null", "RegExp as Object"]),
    "into_id": ("E01", x_id, ["Identifier"]), "into_patt": ("E01", x_patt, ["pattern"]),
    "into_prop": ("E01", x_prop, ["init", "get", "set", "method", "shorthand"]),
    "into_prop_key": ("E01", x_key, ["identifier", "Number", "String"]),
    "extract_expr_list": ("E01", x_list("expr_list"), lens(MAXLEN, "%d elements")),
    "extract_exprs": ("E01", x_list("exprs"), lens(MAXLEN, "%d elements")),
    "extract_expr_opt_list": ("E01", x_list("expr_opt_list"), lens(MAXLEN, "%d elements")),
    "extract_prop_list": ("E01", x_list("prop_list"), lens(MAXLEN, "%d elements")),
    "into_stmt": ("E02", x_stmt_any(False), STMTS),
    "into_stmt_list_item": ("E02", x_stmt_any(True), STMTS + ["let", "const", "FunctionDeclaration"]),
    "into_for_head": ("E02", x_forhead, ["expression", "var", "let", "const"]),
    "into_for_in_head": ("E02", x_forin(False), ["pattern", "initializer", "var", "let", "const"]),
    "into_for_of_head": ("E02", x_forin(True), ["pattern", "var", "let", "const"]),
    "into_case": ("E02", x_case, ["case", "default"]), "into_catch": ("E02", x_catch, ["catch"]),
    "into_block": ("E02", x_block, ["BlockStatement"]),
    "into_dtor": ("E02", x_dtor, ["Simple with value", "Simple without value", "Compound with value"]),
    "into_fun": ("E02", x_fun, ["function", "function stated", "generator stated"]),
    "into_const": ("E02", x_const, lens(2, "%d declarators")), "tag": ("E03", x_tag, ESTREE),
    "into_script": ("E02", x_script_of, ["script"]),
    "extract_stmt_list": ("E02", x_list("stmt_list"), lens(MAXLEN, "%d elements")),
    "extract_dtor_list": ("E02", x_list("dtor_list"), lens(MAXLEN, "%d elements")),
    "extract_case_list": ("E02", x_list("case_list"), lens(MAXLEN, "%d elements")),
    "extract_params": ("E02", x_params, lens(MAXLEN, "%d parameters") + ["%d parameters and rest" % k for k in range(1, MAXLEN + 1)]),
    "extract_script": ("E02", x_script, ["%d statements, %d directives" % (a, b) for a in range(MAXLEN + 1) for b in range(a + 1)]),
}
for _n in ("id", "stmt", "expr", "patt", "block"):
    ROOTS["extract_" + _n] = ("E01" if _n in ("id", "expr", "patt") else "E02", x_one(_n, False), [_n])
for _n in ("id", "stmt", "expr", "catch"):
    ROOTS["extract_%s_opt" % _n] = ("E01" if _n in ("id", "expr") else "E02", x_one(_n, True), ["present", "absent"])
for _n in ("target", "patt"):
    ROOTS["extract_assign_" + _n] = ("E01", x_assign(_n), ["target"])



def dtors(c, k):
    def f(st, t):
        el = c.args(t)[0]
        return ("q", "e", tuple(("e", c.u.sym(st, el)) for _ in range(k)))
    return f


WHAT = {
    "E01": "every expression, literal, identifier, pattern and property form of ESTree becomes the node made of the parts its fields name",
    "E02": "every statement, declaration, loop head, function and script form of ESTree becomes the node made of the parts its fields name",
    "E03": "nothing else is accepted: type names, words and shapes outside the forms are errors, an error of a part is reported as it is, "
           "and a tree is rejected only for a part it has to have",
}
BUILDS = ("value", "never", "twice", "source", "unread")


def category(key, prop):
    """A node that is not what its tree says belongs to the reader's property; what is let through or turned down to E03."""
    k = key.partition("|")[2].partition("|")[0]
    return prop if k in BUILDS else "E03"


def run(prop):
    def f(tier):
        c = Units()
        u = c.u
        r = Result()
        viol = []

        def flush(owner):
            viol.extend(v for v in u.viol.values() if category(v["key"], owner) == prop)
            u.viol.clear()
        stats = {}
        for n, (owner, spec, forms) in sorted(ROOTS.items()):
            p0 = u.paths
            try:
                if n == "into_const":
                    for k in range(MAXLEN):
                        c.analyse(n, spec, ["%d declarators" % k], arg=dtors(c, k))
                elif n == "into_fun":
                    for i in c.insts(n):
                        c.analyse(n, spec, forms, inst=i)
                else:
                    c.analyse(n, spec, forms)
            except Unmodelled as x:
                u.und["%s: %s" % (n, x)] = 1
            stats[n] = {"paths": u.paths - p0, "forms": len(c.forms.get(n, []))}
            flush(owner)
        try:
            numbers(c)
        except Unmodelled as x:
            u.und["numbers: %s" % x] = 1
        flush("E01")
        r.violations += viol
        r.undecided += sorted(u.und)
        if not u.paths:
            r.violations.append({"key": "floor", "msg": "nothing could be analysed"})
        r.coverage = {
            "explanation": "Abstract execution of the readers' compiled MIR, one at a time over an opaque JSON object: the fields taken out, the "
                           "texts compared and the readers called are recorded, and each path's result is compared with a reference reader of "
                           "ESTree given the same answers (%d paths of %d readers). Rule: %s. Lists are followed up to %d elements." % (
                               u.paths, len(stats), WHAT[prop], MAXLEN),
            "readers": stats, "paths": u.paths, "node_types": len(ESTREE), "functions": sorted(x for x in u.fns if "estree::estree" in x)[:120],
            "source_hash": c.hash[:16]}
        r.assumptions = ["unjson's extractors answer as U-properties decide: the field's value once, or an error",
                         "a reader called is taken to satisfy the contract it is itself analysed against",
                         "easter's covers, operator tables, directives and builders are as A04-A06 decide",
                         "std's containers and strings behave as modelled in sa/models.py"]
        return r
    return f


CHECKS = {k: run(k) for k in WHAT}
