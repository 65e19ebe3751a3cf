"""The parser as a set of procedures over a token stream: every procedure is analysed on its own, with the
nonterminals it calls replaced by their contract.  The tokens consumed and the nonterminals called are
recorded in order (the trace); tokens are opaque and refined only by the tests the code makes."""
import re

import build
from contract import Unit
from engine import C, FALSE, NONE, TRUE, UNIT, Infeasible, Unmodelled, err, isconst, ok, some, symv  # noqa: F401
from models import deref, setref

P = "h_esprit::esprit::parser::Parser::<I>::"
LX = r".*joker::(lexer::)?Lexer::<I>::"
# Procedures analysed on their own: name -> (kind of the node, level, what was consumed before the call, argument types).
# The level of an expression is its place in the grammar: 0 Expression ... 9 PrimaryExpression.
E, S = "Expr", "Stmt"
FORP = (("kw", "For"), ("p", "LParen"))
NTS = {
    "expression": (E, 0, (), ()), "assignment_expression": (E, 1, (), ()), "conditional_expression": (E, 2, (), ()),
    "unary_expression": (E, 4, (), ()), "lhs_expression": (E, 6, (), ()), "call_expression": (E, 7, (), ()),
    "primary_expression": (E, 9, (), ()), "paren_expression": (E, 9, (), ()),
    "more_expressions": (E, 0, (("arg", 0, E, 1),), ("Expr",)), "more_assignment": (E, 1, (("arg", 0, E, 2),), ("Expr",)),
    "more_conditional": (E, 2, (("arg", 0, E, 3),), ("Expr",)), "more_infix_expressions": (E, 3, (("arg", 0, E, 4),), ("Expr",)),
    "more_suffixes": (E, 7, (("arg", 0, E, 7),), ("Expr",)),
    "new_expression": (E, 6, (("toks", 0, "New"),), ("Vec",)),
    "more_new_expression": (E, 6, (("toks", 0, "New"), ("arg", 1, E, 9)), ("Vec", "Expr")),
    "array_literal": (E, 9, (("tok", 0, "LBrack"),), ("Token",)), "object_literal": (E, 9, (("tok", 0, "LBrace"),), ("Token",)),
    "arguments": ("Arguments", 0, (), ()), "expr_list_item": ("ExprListItem", 0, (), ()),
    "object_property": ("Prop", 0, (), ()), "more_prop_init": ("Prop", 0, (("arg", 0, "PropKey", 0),), ("PropKey",)),
    "function_body": ("Script", 0, (), ("[")), "script_body": ("Script", 0, (), ()),
    "formal_parameters": ("Params", 0, (), ()), "pattern": ("Patt", 0, (), ()), "binding_pattern": ("CompoundPatt", 0, (), ()),
    "declarator": ("Dtor", 0, (), ()), "const_declarator": ("ConstDtor", 0, (), ()),
    "statement": (S, 0, (), ()), "stmt_list_item": ("StmtListItem", 0, (), ("bool",)), "statement_list": ("Items", 0, (), ()),
    "block": ("Block", 0, (), ()), "body_directives": ("Dirs", 0, (), ()), "switch_cases": ("Cases", 0, (), ()),
    "more_for": (S, 0, FORP + (("arg", 0, "ForHead?", 0),), ("Option",)),
    "more_for_in": (S, 0, FORP + (("arg", 0, "ForInHead", 0), ("kw", "In")), ("Box",)),
    "more_for_of": (S, 0, FORP + (("arg", 0, "ForOfHead", 0), ("id", "Of")), ("Box",)),
    "for_var": (S, 0, FORP, ()), "for_let": (S, 0, FORP, ()), "for_const": (S, 0, FORP, ()), "for_expr": (S, 0, FORP, ()),
    "labelled_statement": (S, 0, (("arg", 0, "Id", 0),), ("Id",)),
    "let_declaration": ("Decl", 0, (("id", "Let"),), ("Posn",)),
    "const_declaration": ("Decl", 0, (), ()), "function_declaration": ("Decl", 0, (), ()),
    "module_items": ("ModItems", 0, (), ()), "program_items": ("ProgramItems", 0, (), ()),
}
for _s in ("var if do while for switch break continue return with throw try debugger empty expression").split():
    NTS[_s + "_statement"] = (S, 0, (), ())
MORE_COMMA = {"Dtor": "declarator", "ConstDtor": "const_declarator", "Expr": "assignment_expression"}
# after these a token has been looked at, as the continuation of an expression
BUFFERED = {"expression", "assignment_expression", "conditional_expression", "lhs_expression", "call_expression",
            "more_expressions", "more_assignment", "more_conditional", "more_infix_expressions", "more_suffixes", "new_expression",
            "more_new_expression", "more_comma", "declarator", "const_declarator"}
PRAGMAS = ("use strict", "use module", "use asm")
LOOK, TRACE, LOG = "look", "trace", "log"


class Parse:
    def __init__(self):
        dump, self.hash = build.upper_dump("esprit.rs", "esprit")
        self.u = u = Unit(dump)
        self.e = e = u.e
        e.lazy = 8
        e.SUMMARY_SIZE = 10 ** 9
        self.byname = {}
        for i, x in u.p.insts.items() if hasattr(u.p.insts, "items") else enumerate(u.p.insts):
            self.byname.setdefault(x.name, []).append(x.id)
        T = self.ty
        self.tokty, self.dataty, self.resty = T("joker::token::Token"), T("joker::token::TokenData"), T("joker::word::Reserved")
        self.namety, self.atomty = T("joker::word::Name"), T("joker::word::Atom")
        self.errty = T("esprit::error::Error")
        self.vars = {}
        self.root = None
        self.budget = 0
        self.cuts = set(n for n in NTS if self.fits(n))
        self.install()

    def ty(self, suffix):
        return self.u.ty(suffix)

    def fits(self, name):
        """Does the procedure have the parameters its contract is stated for?"""
        l = self.byname.get(P + name, [])
        if len(l) != 1:
            return False
        raw = self.u.p.insts[l[0]].raw
        ts = [re.sub(r"([a-z_0-9]+::)+", "", self.u.p.tys[x].s) for x in raw["locals"][1:1 + raw["argc"]]]
        want = NTS[name][3]
        return len(ts) == 1 + len(want) and all(w in x for w, x in zip(want, ts[1:]))

    def names(self, tid):
        v = self.vars.get(tid)
        if v is None:
            v = self.vars[tid] = [x["n"] for x in self.u.p.tys[tid].d["vars"]]
        return v

    # ------------------------------------------------------------- token stream
    def seq(self, st, k):
        return [p[1] for p in st.g[k][2]]

    def setseq(self, st, k, l):
        st.g[k] = ("q", "e", tuple(("e", x) for x in l))

    def log(self, st, *v):
        self.setseq(st, LOG, self.seq(st, LOG) + [("A", 0, v)])

    def complain(self, st, key, msg):
        self.u.bad(key, msg, self.root, st)

    def token(self, st, op):
        """A token read from the input."""
        e = self.e
        loc = ("o", e.newsym(st, ("o", self.spanty)))
        nl = symv(e.newsym(st, ("n", 0, 1, False)))
        v = ("A", 0, (loc, nl, ("o", e.newsym(st, ("o", self.dataty)))))
        tr = self.seq(st, TRACE)
        last = tr[-1] if tr else None
        if not (last is not None and last[1] == 1 and self.ntname(last) in BUFFERED) and \
                not ((last is None or last[1] == 1 and self.ntname(last) == "arg") and isconst(st.g["pre"]) and st.g["pre"][2] == 1):
            self.goal(st, last, op)
        e.hid += 1
        st.heap[e.hid] = v
        return ("r", ("H", e.hid), ())

    def goal(self, st, last, op):
        """Is the lexical goal right after what was read last?"""
        self.log(st, C(1), last if last is not None else NONE, C(1 if op else 0))

    def ntname(self, item):
        return self.ntnames[item[2][0][2]]

    def spans(self, st):
        return ("o", self.e.newsym(st, ("o", self.spanopt)))

    def fill(self, st, op):
        l = self.seq(st, LOOK)
        if l:
            return [st]
        out = []
        n = st.copy()
        self.setseq(st, LOOK, [self.token(st, op)])
        out.append((st, None))
        x = ("o", self.e.newsym(n, ("o", self.lexerr)))
        n.g["lexerr"] = x
        out.append((n, err(x)))
        return out

    def install(self):
        u, e = self.u, self.e
        self.spanty = self.ty("joker::track::Span")
        self.posnty = self.ty("joker::track::Posn")
        self.lexerr = self.ty("joker::error::Error")
        self.spanopt = None
        for t in u.p.tys:
            if t.k == "adt" and t.d["name"] == "std::option::Option" and t.s.endswith("joker::track::Span>"):
                self.spanopt = t.id
        self.ntnames = sorted(NTS) + ["more_comma", "arg", "directive"]
        m = []

        def lx(name, f):
            m.append((LX + name + "$", f))

        def peek(e, st, inst, a, at, dt, d, t, sp):
            out = []
            for x in self.fill(st, self.opflag(e, st, a[1])):
                if isinstance(x, tuple):
                    s, r = x
                    if r is not None:
                        out.append((s, r))
                        continue
                else:
                    s = x
                out.append((s, ok(self.seq(s, LOOK)[0])))
            return out

        def read(e, st, inst, a, at, dt, d, t, sp):
            out = []
            for x in self.fill(st, self.opflag(e, st, a[1])):
                if isinstance(x, tuple):
                    s, r = x
                    if r is not None:
                        out.append((s, r))
                        continue
                else:
                    s = x
                v = self.take(s)
                out.append((s, ok(v if inst.name.endswith("read_token") else UNIT)))
            return out

        def repeek(e, st, inst, a, at, dt, d, t, sp):
            self.ensure(st)
            return [(st, self.seq(st, LOOK)[0])]

        def reread(e, st, inst, a, at, dt, d, t, sp):
            self.ensure(st)
            return [(st, self.take(st))]

        def unread(e, st, inst, a, at, dt, d, t, sp):
            tr, lk = self.seq(st, TRACE), self.seq(st, LOOK)
            if not tr or tr[-1][1] != 0 or self.norm(st, tr[-1][2][0]) != self.norm(st, a[1]):
                self.complain(st, "pushback", "a token that is not the last one read is pushed back")
                raise Infeasible()
            if len(lk) >= 2:
                self.complain(st, "pushback full", "a token is pushed back onto a full lookahead buffer")
                raise Infeasible()
            self.setseq(st, TRACE, tr[:-1])
            e.hid += 1
            st.heap[e.hid] = a[1]
            self.setseq(st, LOOK, [("r", ("H", e.hid), ())] + lk)
            return [(st, UNIT)]

        lx("peek_token", peek)
        lx("(read|skip)_token", read)
        lx("repeek_token", repeek)
        lx("reread_token", reread)
        lx("unread_token", unread)
        lx("posn", lambda e, st, inst, a, at, dt, d, t, sp: [(st, ("o", e.newsym(st, ("o", self.posnty))))])

        def tref(e, st, inst, a, at, dt, d, t, sp):
            for ty in ("easter::stmt::Stmt", "easter::decl::Decl", "easter::stmt::Body", "easter::fun::Fun"):
                if not re.match(r"<[^ ]*%s(<[^ ]*>)? as " % ty, inst.name):
                    continue
                r = a[0]
                while True:
                    x = e.get(st, r[1], r[2])
                    if x[0] != "r":
                        break
                    r = x
                tid = self.ty(ty)
                if x[0] == "A" and x[1] < len(e.p.tys[tid].d["vars"]):
                    f = e.p.tys[tid].d["vars"][x[1]]["f"]
                    if f and f[0]["t"] == self.spanopt:
                        return [(st, ("r", r[1], r[2] + (0,)))]
            e.hid += 1
            st.heap[e.hid] = self.spans(st)
            return [(st, ("r", ("H", e.hid), ()))]

        m.append((r".* as .*track::Tracking(Ref|Mut)>::tracking_(ref|mut)$", tref))
        m.append((r".*joker::track::span$", lambda e, st, inst, a, at, dt, d, t, sp: [(st, self.spans(st))]))
        m.append((r"<.*esprit::parser::Parser<I> as .*track::Tracking>::vec_span",
                  lambda e, st, inst, a, at, dt, d, t, sp: [(st, self.spans(st))]))

        def eq(e, st, inst, a, at, dt, d, t, sp):
            neg = inst.name.endswith("::ne")
            out = []
            for s, r in self.equal(st, self.val(st, a[0]), self.val(st, a[1])):
                out.append((s, TRUE if r != neg else FALSE))
            return out

        m.append((r"<.*token::TokenData as std::cmp::PartialEq>::(eq|ne)$", eq))
        m.append((r"<.*(word::Reserved|word::Name|word::Atom) as std::cmp::PartialEq>::(eq|ne)$", eq))
        for f in NTS:
            m.append((re.escape(P + f) + "$", self.nt(f)))
        m.append((re.escape(P) + "more_comma$", self.more_comma))
        m.append((re.escape(P) + "match_directive_opt$", self.directive))
        m.append((r".*easter::stmt::Dir::pragma$", self.pragma))
        m.append((re.escape(P) + "strict_check$", self.strict_check))
        m.append((re.escape(P) + "new_id$", self.new_id))
        u.leaves(*(self.more() + m))

    def more(self):
        e = self.e

        def cover(e, st, inst, a, at, dt, d, t, sp):
            v = self.val(st, a[0])
            if v[0] != "o":
                return NotImplemented
            f = [x for x in e.p.tys[dt].d["args"] if isinstance(x, int)]
            n = st.copy()
            x = e.opaque(n, f[1])
            r = ("o", e.define(st, ("cover", inst.name.split("::")[-1], v[1]), ("o", f[0])))
            return [(st, ok(r)), (n, err(x))]

        def params(e, st, inst, a, at, dt, d, t, sp):
            r = self.nt("formal_parameters")(e, st, inst, a, at, dt, d, t, sp)
            s = r[0][0]
            tr = self.seq(s, TRACE)
            it = tr[-1]
            p = e.expand(s, it[2][1])
            f = e.p.tys[s.attr[it[2][1][1]][1]].d["vars"][0]["f"]
            i = [x["n"] for x in f].index("list")
            el = [x for x in e.p.tys[f[i]["t"]].d["args"] if isinstance(x, int)][0]
            p = ("A", 0, p[2][:i] + (("q", "e", (("e", e.opaque(s, el)),)),) + p[2][i + 1:])
            self.setseq(s, TRACE, tr[:-1] + [("A", 1, (it[2][0], p) + it[2][2:])])
            return [(s, ok(p)), r[1]]

        def labels(e, st, inst, a, at, dt, d, t, sp):
            f = inst.name.split("::")[-1]
            k = self.norm(st, self.val(st, a[1])) if len(a) > 1 else None
            m = self.val(st, a[0]) if a else None
            if f == "new":
                return [(st, ("A", 7, (("q", "e", ()),)))]
            c = NONE if m[0] == "o" else m
            if f in ("insert", "remove"):
                self.log(st, C(2), C(1 if f == "insert" else 0), k)
                if m[0] == "o":
                    m = ("A", 8, (m, ("q", "e", ())))
                lst = m[2][-1][2]
                x = ("A", 0 if f == "remove" else 1, (k,) + ((a[2],) if f == "insert" else ()))
                setref(e, st, a[0], ("A", m[1], m[2][:-1] + (("q", "e", lst + (("e", x),)),)))
                return [(st, ("o", e.newsym(st, ("o", dt))))]
            if f == "contains_key":
                s = e.define(st, ("has", m, k), ("n", 0, 1, False))
                self.log(st, C(3), k, symv(s))
                return [(st, symv(s))]
            if f == "get":
                out = []
                s = e.define(st, ("has", m, k), ("n", 0, 1, False))
                self.log(st, C(3), k, symv(s))
                for n, b in e.cmp(st, "Ne", symv(s), C(0)):
                    if b:
                        v = ("o", e.define(n, ("label", m, k), ("o", self.ty("esprit::context::LabelType"))))
                        self.log(n, C(4), k, v)
                        e.hid += 1
                        n.heap[e.hid] = v
                        out.append((n, some(("r", ("H", e.hid), ()))))
                    else:
                        out.append((n, NONE))
                return out
            return NotImplemented

        def text(e, st, inst, a, at, dt, d, t, sp):
            v = self.norm(st, self.val(st, a[0]))
            return [(st, ("q", "c", (("S", e.define(st, ("text", v), ("s", e.cd.ALL, 0, frozenset()))),)))]

        def namefrom(e, st, inst, a, at, dt, d, t, sp):
            v = self.val(st, a[0])
            if v[:2] != ("q", "c"):
                return NotImplemented
            return [(st, ("o", e.define(st, ("namefrom", v[2]), ("o", self.namety))))]

        def prec(e, st, inst, a, at, dt, d, t, sp):
            v = self.norm(st, self.val(st, a[0]))
            if v[0] != "A" or len(v[2]) != 2:
                return NotImplemented
            tag = v[2][1]
            return [(st, symv(e.define(st, ("prec", tag), ("n", 0, 1000, False))))]

        def toop(e, st, inst, a, at, dt, d, t, sp):
            f = inst.name.split("::")[-1]
            tok = self.norm(st, self.val(st, a[0]))
            flag = a[1] if len(a) > 1 else NONE
            n = st.copy()
            ot = [x for x in e.p.tys[dt].d["args"] if isinstance(x, int)][0]
            op = e.expand(st, ("o", e.newsym(st, ("o", ot))))
            tagt = e.p.tys[ot].d["vars"][0]["f"][1]["t"]
            op = ("A", 0, (op[2][0], ("o", e.define(st, (f, tok, flag), ("o", tagt)))))
            self.log(st, C(5), tok, flag, TRUE)
            self.log(n, C(5), tok, flag, FALSE)
            return [(n, NONE), (st, some(op))]

        def uninit(e, st, inst, a, at, dt, d, t, sp):
            e.hid += 1
            st.heap[e.hid] = ("A", 0, (UNIT, ("A", 0, (UNIT,))))
            return [(st, ("A", 0, (("r", ("H", e.hid), ()),)))]

        def tovec(e, st, inst, a, at, dt, d, t, sp):
            if a[0][0] != "A":
                return NotImplemented
            v = self.val(st, a[0][2][0])[2][1][2][0]
            return [(st, v)]

        def rev(e, st, inst, a, at, dt, d, t, sp):
            v = self.val(st, a[0])
            if v[:2] != ("q", "e") or any(x[0] != "e" for x in v[2]):
                return NotImplemented
            setref(e, st, a[0], ("q", "e", tuple(reversed(v[2]))))
            return [(st, UNIT)]

        def collect(e, st, inst, a, at, dt, d, t, sp):
            if not e.p.tys[dt].s.endswith("easter::stmt::ModItem>"):
                return NotImplemented
            return [(st, e.opaque(st, dt))]

        def stmt(e, st, inst, a, at, dt, d, t, sp):
            """A statement where no declaration may stand."""
            if self.root == "stmt_list_item" or a[1] != FALSE:
                return self.nt("stmt_list_item")(e, st, inst, a, at, dt, d, t, sp)
            r = self.nt("stmt_list_item")(e, st, inst, a, at, dt, d, t, sp)
            s = r[0][0]
            v = self.seq(s, TRACE)[-1][2][1]
            ok_ = e.expand(s, v, self.names(self.okty(dt)).index("Stmt"))
            return [(s, ok(ok_)), r[1]]

        return [(r"std::iter::Iterator::collect", collect), (re.escape(P) + "stmt_list_item$", stmt),
                (r"std::boxed::Box::<T>::new_uninit", uninit), (r"std::boxed::box_assume_init_into_vec_unsafe", tovec),
                (r".*cover::IntoAssign(Patt|Target)>::into_assign_(patt|target)$", cover),
                (re.escape(P) + "formal_parameters$", params),
                (r"std::collections::HashMap::<K, V.*>::.*", labels),
                (r"std::rc::Rc::<T>::new", lambda e, st, inst, a, at, dt, d, t, sp: [(st, a[0])]),
                (r"<std::rc::Rc<.*> as std::clone::Clone>::clone", lambda e, st, inst, a, at, dt, d, t, sp: [(st, self.val(st, a[0]))]),
                (r"<.*joker::word::(Name|Atom|Reserved) as std::clone::Clone>::clone",
                 lambda e, st, inst, a, at, dt, d, t, sp: [(st, self.val(st, a[0]))]),
                (r"<.*easter::patt::(Compound)?Patt<.*> as std::clone::Clone>::clone",
                 lambda e, st, inst, a, at, dt, d, t, sp: [(st, self.val(st, a[0]))]),
                (r"core::slice::<impl \[T\]>::reverse", rev),
                (r"<?.*joker::word::(Name|Reserved)(::| as .*>::)into_string", text),
                (r"<.*joker::word::Name as std::convert::From<.*String>>::from", namefrom),
                (r"<.*easter::punc::Op<.*> as .*Precedence>::precedence", prec),
                (r"<.*token::Token as .*ToOp>::to_(binop|logop|assop)", toop)]

    def opflag(self, e, st, v):
        if not isconst(v):
            raise Unmodelled("lexical goal")
        return bool(v[2])

    def take(self, st):
        lk = self.seq(st, LOOK)
        v = self.e.get(st, lk[0][1], lk[0][2])
        self.setseq(st, LOOK, lk[1:])
        if self.budget and len(self.seq(st, TRACE)) >= self.budget:
            self.e.truncated += 1
            raise Infeasible()
        self.setseq(st, TRACE, self.seq(st, TRACE) + [("A", 0, (v,))])
        return v

    def ensure(self, st):
        if self.seq(st, LOOK):
            return
        tr = self.seq(st, TRACE)
        if tr and tr[-1][1] == 1 and self.ntname(tr[-1]) in BUFFERED or not tr and st.g["pre"][2] == 1:
            self.setseq(st, LOOK, [self.token(st, False)])
            return
        self.complain(st, "no lookahead", "a token is taken from an empty lookahead buffer")
        raise Infeasible()

    def norm(self, st, v):
        """A value with everything that is known about its parts."""
        while v[0] == "o" and ("exp", v[1]) in st.facts:
            v = st.facts[("exp", v[1])]
        if v[0] == "A":
            return ("A", v[1], tuple(self.norm(st, x) for x in v[2]))
        return v

    def val(self, st, v):
        while v[0] == "r":
            v = self.e.get(st, v[1], v[2])
        if v[0] == "box":
            v = st.heap[v[1]]
        return v

    def equal(self, st, x, y):
        """[(state, equal?)] of two values."""
        e = self.e
        x, y = self.norm(st, self.val(st, x)), self.norm(st, self.val(st, y))
        if x == y:
            return [(st, True)]
        if x[0] == "A" and y[0] == "A":
            if x[1] != y[1]:
                return [(st, False)]
            cur, out = [st], []
            for a, b in zip(x[2], y[2]):
                nxt = []
                for s in cur:
                    for n, r in self.equal(s, a, b):
                        (nxt if r else out).append(n if r else (n, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        if x[0] == "o" and y[0] == "A" or x[0] == "A" and y[0] == "o":
            if x[0] == "A":
                x, y = y, x
            out = []
            for s, is_ in self.variant(st, x, y[1]):
                if not is_:
                    out.append((s, False))
                else:
                    out += self.equal(s, e.expand(s, x, y[1]), y)
            return out
        raise Unmodelled("comparison of unknown values")

    def variant(self, st, o, i):
        """[(state, is variant i?)] of an opaque value."""
        e = self.e
        s = o[1]
        t = e.p.tys[st.attr[s][1]]
        if len(t.d["vars"]) < e.lazy:
            out = []
            k = st.facts.get(("var", s))
            for j in range(len(t.d["vars"])):
                if k is not None and k != j:
                    continue
                n = st.copy()
                n.facts[("var", s)] = j
                out.append((n, j == i))
            return out
        d = e.lazy_disc(st, s)
        if d[0] == "i" and not d[1]:
            return [(st, d[2] == t.d["vars"][i]["d"])]
        return e.cmp(st, "Eq", d, C(t.d["vars"][i]["d"]))

    # ------------------------------------------------------------- nonterminals
    def ctx(self, st):
        """The parser's context at a call: strict, function, iteration, switch, allow_in, labels."""
        return st.heap[self.cellid][2][4]

    def nt(self, name):
        def f(e, st, inst, a, at, dt, d, t, sp):
            if name not in self.cuts:
                return NotImplemented
            lk = self.seq(st, LOOK)
            if not self.entered(st, name, lk):
                self.complain(st, "entry|" + name, "%s is entered on another token than it takes" % name)
                raise Infeasible()
            if name == "more_prop_init" and self.unlocated(st, a[1]):
                self.complain(st, "panic|unlocated key", "more_prop_init is given a key without a location, which it unwraps")
                raise Infeasible()
            n = st.copy()
            x = e.opaque(n, self.errty)
            n.g["nterr"] = x
            tid = self.okty(dt)
            v = self.result(st, name, tid)
            extra = tuple(self.argval(st, y) for y in a[1:])
            item = ("A", 1, (C(self.ntnames.index(name)), v, self.ctx(st), ("A", 0, extra), ("A", 0, tuple(self.val(st, y) for y in lk))))
            self.setseq(st, TRACE, self.seq(st, TRACE) + [item])
            self.setseq(st, LOOK, [])
            return [(st, ok(v)), (n, err(x))]
        return f

    def unlocated(self, st, v):
        """Is this property key known to be built without a location?"""
        v = self.val(st, v)
        if v[0] != "A" or not v[2]:
            return False
        return self.norm(st, self.val(st, v[2][0])) == NONE

    def result(self, st, name, tid):
        return self.e.opaque(st, tid)

    def more_comma(self, e, st, inst, a, at, dt, d, t, sp):
        if self.root == "more_comma":
            return NotImplemented
        tid = self.okty(dt)
        n = st.copy()
        x = e.opaque(n, self.errty)
        n.g["nterr"] = x
        lk = self.seq(st, LOOK)
        self.setseq(st, LOOK, [])
        s = e.newsym(st, ("o", tid))
        v = ("q", "e", (("e", a[1]), ("e", ("o", s))))
        item = ("A", 1, (C(self.ntnames.index("more_comma")), ("o", s), self.ctx(st), ("A", 0, ()), ("A", 0, tuple(self.val(st, y) for y in lk))))
        self.setseq(st, TRACE, self.seq(st, TRACE) + [item])
        return [(st, ok(v)), (n, err(x))]

    def directive(self, e, st, inst, a, at, dt, d, t, sp):
        if self.root == "match_directive_opt":
            return NotImplemented
        n = st.copy()
        x = e.opaque(n, self.errty)
        n.g["nterr"] = x
        m = st.copy()
        tid = [x for x in e.p.tys[self.okty(dt)].d["args"] if isinstance(x, int)][0]
        v = e.opaque(st, tid)
        item = ("A", 1, (C(self.ntnames.index("directive")), v, self.ctx(st), ("A", 0, ()), ("A", 0, ())))
        self.setseq(st, TRACE, self.seq(st, TRACE) + [item])
        self.setseq(st, LOOK, [])
        self.setseq(m, LOOK, [self.token(m, False)])
        return [(st, ok(some(v))), (m, ok(NONE)), (n, err(x))]

    def pragma(self, e, st, inst, a, at, dt, d, t, sp):
        v = self.norm(st, self.val(st, a[0]))
        if self.root != "body_directives":
            return [(st, ("str", "c", (("S", e.define(st, ("pragma", v), ("s", e.cd.ALL, 0, frozenset()))),)))]
        out = []
        for k, x in enumerate(PRAGMAS):
            n = st.copy()
            self.log(n, C(8), C(k))
            out.append((n, ("str", "c", tuple(("e", C(ord(y))) for y in x))))
        return out

    def strict_check(self, e, st, inst, a, at, dt, d, t, sp):
        if self.root in ("strict_check", "new_id"):
            return NotImplemented
        n = st.copy()
        x = e.opaque(n, self.errty)
        n.g["nterr"] = x
        self.log(st, C(7))
        return [(st, ok(UNIT)), (n, err(x))]

    def new_id(self, e, st, inst, a, at, dt, d, t, sp):
        if self.root == "new_id":
            return NotImplemented
        n = st.copy()
        x = e.opaque(n, self.errty)
        n.g["nterr"] = x
        self.log(st, C(6), a[1], self.val(st, a[2]))
        return [(st, ok(("A", 0, (some(a[3]), a[2])))), (n, err(x))]

    def argval(self, st, v):
        if v[0] == "r":
            return self.val(st, v)
        return v

    def okty(self, dt):
        t = self.u.p.tys[dt]
        return [x for x in t.d["args"] if isinstance(x, int)][0]

    # ------------------------------------------------------------- runs
    def start(self, pre=(), strict=None, flags=None, buffered=False):
        u, e = self.u, self.e
        st = u.state()
        pty = None
        for t in u.p.tys:
            if t.k == "adt" and t.d["name"].endswith("esprit::parser::Parser"):
                pty = t
        v = list(("A", 0, ()) if f["n"] == "lexer" else u.sym(st, f["t"]) for f in pty.d["vars"][0]["f"])
        self.pfields = [f["n"] for f in pty.d["vars"][0]["f"]]
        if self.pfields.index("context") != 4:
            raise Unmodelled("parser layout")
        cty = u.p.tys[pty.d["vars"][0]["f"][4]["t"]]
        self.cfields = [f["n"] for f in cty.d["vars"][0]["f"]]
        v[4] = ("A", 0, tuple(u.sym(st, f["t"]) for f in cty.d["vars"][0]["f"]))
        v[self.pfields.index("deferred")] = ("q", "e", ())
        r = u.cell(st, ("A", 0, tuple(v)))
        self.cellid = r[1][1]
        st.g["pre"] = C(1 if buffered else 0)
        for k in (LOOK, TRACE, LOG):
            st.g[k] = ("q", "e", ())
        return st, r

    def inst(self, name):
        l = self.byname.get(P + name) or [i for n, v in self.byname.items() if n.endswith(name) for i in v]
        if not l:
            raise Unmodelled("no function " + name)
        return l
