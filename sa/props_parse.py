"""The parser: what every procedure consumes is exactly what the node it returns is written as, with the
nonterminals in the contexts the grammar puts them in."""
import os
import re

from common import Result
from engine import C, FALSE, NONE, TRUE, Unmodelled, isconst, parts_const, symv
from parseng import BUFFERED, LOG, LOOK, MORE_COMMA, NTS, P, PRAGMAS, TRACE, Parse
from props_ast import LEVEL, SPELL, TOKEN

# these contain no expression whose form depends on it
NOEXPR = ("function_body", "block", "pattern", "binding_pattern", "formal_parameters")
CTX = ("strict", "function", "iteration", "switch", "allow_in", "labels")


class Gram:
    """Matches a trace against the ways a node can be written."""

    def __init__(self, c):
        self.c = c
        self.u, self.e = c.u, c.e
        T = c.ty
        self.tn = {}
        for k, n in (("Expr", "easter::expr::Expr"), ("ExprListItem", "easter::expr::ExprListItem"), ("Stmt", "easter::stmt::Stmt"),
                     ("Decl", "easter::decl::Decl"), ("Dtor", "easter::decl::Dtor"), ("StmtListItem", "easter::stmt::StmtListItem"),
                     ("Patt", "easter::patt::Patt"), ("Prop", "easter::obj::Prop"), ("PropKey", "easter::obj::PropKey"),
                     ("PropVal", "easter::obj::PropVal"), ("ForHead", "easter::stmt::ForHead"), ("ForInHead", "easter::stmt::ForInHead"),
                     ("ForOfHead", "easter::stmt::ForOfHead"), ("Semi", "easter::punc::Semi"), ("UnopTag", "easter::punc::UnopTag"),
                     ("AssignTarget", "easter::patt::AssignTarget"), ("Data", "joker::token::TokenData"), ("Name", "joker::word::Name"),
                     ("Reserved", "joker::word::Reserved"), ("Atom", "joker::word::Atom"), ("ModItem", "easter::stmt::ModItem"),
                     ("TriState", "TriState"), ("Program", "::Program")):
            try:
                self.tn[k] = c.names(T(n))
            except Unmodelled:
                pass

    def begin(self, st, root):
        self.st, self.root = st, root
        self.tr = self.c.seq(st, TRACE)
        self.items = {}
        for j, it in enumerate(self.tr):
            if it[1] == 1:
                self.items.setdefault(self.n(it[2][1]), []).append(j)
        self.defs = {}
        for k, v in st.facts.items():
            if k[0] == "def" and type(v) is tuple and len(v) == 1:
                self.defs[v[0]] = k[1:]
        self.entry = st.g["entry"]
        self.far = 0
        self.memo = {}
        self.ctxbad = {}
        self.named = {}

    def n(self, v):
        return self.c.norm(self.st, v)

    def d(self, v):
        """The value behind boxes."""
        return self.n(self.c.val(self.st, v))

    def vn(self, kind, v):
        return self.tn[kind][v[1]] if v[0] == "A" else None

    # ---------------------------------------------------------------- tokens
    def data(self, i):
        if i >= len(self.tr) or self.tr[i][1] != 0:
            return None
        self.far = max(self.far, i + 1)
        return self.n(self.tr[i][2][0])[2][2]

    def variant_of(self, kind, v):
        if v is None:
            return None
        if v[0] == "A":
            return self.tn[kind][v[1]]
        if v[0] == "o":
            k = self.e.lazy_variant(self.st, v[1])
            return None if k is None else self.tn[kind][k]
        return None

    def payload(self, v):
        if v[0] == "o":
            v = self.n(self.e.expand(self.st, v))
        return self.n(v[2][0])

    def p(self, i, name):
        return {i + 1} if self.variant_of("Data", self.data(i)) == name else set()

    def kw(self, i, word):
        x = self.data(i)
        return {i + 1} if self.variant_of("Data", x) == "Reserved" and self.variant_of("Reserved", self.payload(x)) == word else set()

    def idtok(self, i, atom):
        x = self.data(i)
        if self.variant_of("Data", x) != "Identifier":
            return set()
        nm = self.payload(x)
        return {i + 1} if self.variant_of("Name", nm) == "Atom" and self.variant_of("Atom", self.payload(nm)) == atom else set()

    def lit(self, i, name, v):
        x = self.data(i)
        if self.variant_of("Data", x) != name:
            return set()
        return {i + 1} if self.same(self.payload(x), v) else set()

    def same(self, a, b):
        a, b = self.n(a), self.d(b)
        if a == b:
            return True
        if a[0] in ("q", "str") and b[0] in ("q", "str"):
            return a[2] == b[2]
        return a[0] == "A" and b[0] == "A" and a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.same(x, y) for x, y in zip(a[2], b[2]))

    # ---------------------------------------------------------------- nonterminals
    def item(self, v, i, kind, lvl, cx):
        """Ends of the nonterminal (with its prefix) whose result is v."""
        out = set()
        for j in self.items.get(self.n(v), ()):
            if j < i:
                continue
            it = self.tr[j]
            name = self.c.ntname(it)
            self.far = max(self.far, j + 1)
            if name == "directive":
                if j == i and kind == "Dir":
                    out.add(j + 1)
                continue
            if name == "arg":
                if j == i and it[2][3][2][0][2] >= lvl:
                    out.add(j + 1)
                continue
            k, l, pre, _ = NTS[name]
            if l < lvl:
                continue
            cur = {i}
            args = it[2][3][2]
            if name == "more_suffixes":
                base = self.d(args[0])
                if base[0] == "A" and self.tn["Expr"][base[1]] == "New" and self.d(base[2][2]) == NONE and \
                        it[2][4][2] and self.notin(self.n(it[2][4][2][0])[2][2], ("Dot", "LBrack", "LParen")):
                    # nothing can follow: the node is the operand itself
                    if lvl <= 6 and j in self.m("Expr", base, i, cx, 6):
                        self.context(it, j, name, cx)
                        out.add(j + 1)
                    continue
            for x in pre:
                cur = set().union(*[self.prefix(x, args, y, cx) for y in cur]) if cur else cur
            if j in cur:
                self.context(it, j, name, cx)
                out.add(j + 1)
        return out

    def prefix(self, x, args, i, cx):
        if x[0] == "kw":
            return self.kw(i, x[1])
        if x[0] == "p":
            return self.p(i, x[1])
        if x[0] == "id":
            return self.idtok(i, x[1])
        a = args[x[1]]
        if x[0] == "tok":
            return self.p(i, x[2]) if i < len(self.tr) and self.tr[i][1] == 0 and self.n(self.tr[i][2][0]) == self.n(a) else set()
        if x[0] == "toks":
            for y in a[2]:
                if not self.kw(i, x[2]) or self.n(self.tr[i][2][0]) != self.n(y[1]):
                    return set()
                i += 1
            return {i}
        if x[2] == "ForHead?" and self.d(a) == NONE:
            return self.p(i, "Semi")
        return self.m(x[2], a, i, cx, x[3])

    def context(self, it, j, name, cx):
        """Is the nonterminal parsed in the context the grammar gives it?"""
        got = it[2][2]
        cond = []
        f = self.c.cfields
        for k in CTX:
            if k == "allow_in" and name in NOEXPR or k == "strict" and self.root in TOP:
                continue
            g = self.n(got[2][f.index(k)])
            w = cx.get(k, self.entry[2][4][2][f.index(k)])
            w = self.n(w) if type(w) is tuple and w[:1] != ("inner",) else w
            if k == "labels":
                if self.root == "function_body":
                    if g != ("A", 7, (("q", "e", ()),)):
                        cond.append("the labels are those of the enclosing function")
                    continue
                if type(w) is tuple and w[:1] == ("inner",):
                    bad = self.labelset(g, w[1], it)
                    if bad:
                        cond.append(bad)
                    continue
                if g != w:
                    cond.append("the set of labels is not the enclosing one")
                continue
            if g != w and k == "strict":
                cond.append("strict is not that of the code around it")
            elif g != w:
                cond.append("%s is %s where the grammar has %s" % (k, self.show(g), self.show(w)))
        if cond:
            self.ctxbad.setdefault((name, cond[0]), j)

    def labelset(self, got, names, it):
        """The labels of the body: the enclosing ones and those before it, as what they label."""
        base = self.entry[2][4][2][self.c.cfields.index("labels")]
        if got[0] != "A" or got[1] != 8 or got[2][0] != base:
            return "the set of labels is not the enclosing one and those before the statement"
        ops = [x[1] for x in got[2][1][2]]
        if any(x[1] != 1 for x in ops) or sorted(repr(self.n(x[2][0])) for x in ops) != sorted(map(repr, names)):
            return "the set of labels is not the enclosing one and those before the statement"
        lk = it[2][4][2]
        if not lk:
            return None
        d = self.n(lk[0])[2][2]
        loops = ("Do", "While", "For")
        k = self.variant_of("Data", d)
        if k == "Reserved":
            p = self.payload(d)
            isl = self.variant_of("Reserved", p)
            if isl is None:
                m = self.e.charset(self.st, self.e.lazy_disc(self.st, p[1]))
                w = 0
                for x in self.u.p.tys[self.c.resty].d["vars"]:
                    w |= self.e.cd.of(x["d"]) if x["n"] in loops else 0
                isl = None if m is None or m & w and m & ~w else bool(m & w)
            else:
                isl = isl in loops
        else:
            isl = False if k is not None or self.notin(d, ("Reserved",)) else None
        tn = self.c.names(self.c.ty("esprit::context::LabelType"))
        for x in ops:
            t = self.n(x[2][1])
            if t[0] != "A" or isl is None or (tn[t[1]] == "Iteration") != isl:
                return "a label is recorded as that of a loop or not regardless of what it labels"
        return None

    def show(self, v):
        return ("on" if v[2] else "off") if isconst(v) else "inherited"

    # ---------------------------------------------------------------- nodes
    def seqm(self, i, *steps):
        cur = {i}
        for s in steps:
            nxt = set()
            for x in cur:
                nxt |= s(x)
            cur = nxt
            if not cur:
                break
        return cur

    def P(self, name):
        return lambda i: self.p(i, name)

    def K(self, name):
        return lambda i: self.kw(i, name)

    def M(self, kind, v, cx, lvl=0):
        return lambda i: self.narrow(kind, v, i, cx, lvl)

    def narrow(self, kind, v, i, cx, lvl):
        """A part of a node is parsed as all that may stand in its place."""
        r = self.m(kind, v, i, cx, lvl)
        if not r:
            return r
        w = self.d(v)
        if kind == "Stmt" and w[0] != "o" and self.vn("Stmt", w) != "Label":
            self.ctxbad.setdefault(("narrow", "only some statements are accepted as the body"), i)
        if kind == "Expr" and lvl in (0, 1):
            for j in self.items.get(w, ()):
                n = self.c.ntname(self.tr[j])
                if j + 1 in r and n in NTS and NTS[n][0] == "Expr" and NTS[n][1] > lvl and n != "paren_expression":
                    self.ctxbad.setdefault(("narrow", "%s is parsed where the grammar has %s" % (
                        n, ("Expression", "AssignmentExpression")[lvl])), i)
        return r

    def m(self, kind, v, i, cx, lvl=0):
        v = self.d(v)
        k = (kind, v, i, tuple(sorted(cx.items())), lvl)
        if k not in self.memo:
            self.memo[k] = set()
            self.memo[k] = self.m0(kind, v, i, cx, lvl)
        return self.memo[k]

    def m0(self, kind, v, i, cx, lvl):
        out = set()
        if kind == "Stmt" and v[0] == "o":
            for it, js in self.items.items():
                if i in js and self.c.ntname(self.tr[i]) == "stmt_list_item" and it[0] == "A" and self.vn("StmtListItem", it) == "Stmt" and \
                        self.d(it[2][0]) == v and self.d(self.tr[i][2][3][2][0]) == FALSE:
                    self.context(self.tr[i], i, "stmt_list_item", cx)
                    out.add(i + 1)
        if v[0] == "o" or kind in ("Patt", "PropKey", "Params", "Expr", "Arguments", "Id"):
            out |= self.item(v, i, kind, lvl, cx)
        if kind.endswith("?"):
            if v == NONE:
                return {i}
            return self.m(kind[:-1], v[2][0], i, cx, lvl) if v[0] == "A" else out
        if kind in ("Items", "ModItems") and v[0] == "o":
            out |= self.many(kind, v, i, cx)
        if kind == "Id":
            out |= self.inner(v, i, cx)
        if kind == "Expr":
            out |= self.expr(v, i, cx, lvl)
        elif v[0] in ("A", "q"):
            out |= getattr(self, "g_" + kind)(v, i, cx)
        elif kind in ("AssignTarget", "AssignPatt"):
            d = self.defs.get(v[1])
            if d and d[0] == "cover" and d[1] == ("into_assign_target" if kind == "AssignTarget" else "into_assign_patt"):
                out |= self.m("Expr", ("o", d[2]), i, cx, lvl)
        return out

    def g_AssignTarget(self, v, i, cx):
        n = self.tn["AssignTarget"][v[1]]
        return self.expr(("A", self.tn["Expr"].index(n), v[2]), i, cx, 6)

    def g_AssignPatt(self, v, i, cx):
        if self.vn("Patt", v) == "Simple":
            return self.m("AssignTarget", v[2][0], i, cx)
        return set()

    def op(self, i, tag, kind, spell, flag=None):
        """The operator token at i is what the operator's tag stands for."""
        tag = self.d(tag)
        if tag[0] == "A":
            sp = SPELL[spell][self.tn["UnopTag"][tag[1]]]
            return self.kw(i, sp.capitalize()) if sp.isalpha() else self.p(i, {"-": "Minus", "+": "Plus", "!": "Bang", "~": "Tilde"}[sp])
        d = self.defs.get(tag[1]) if tag[0] == "o" else None
        if d and d[0] == kind and i < len(self.tr) and self.tr[i][1] == 0 and self.n(d[1]) == self.n(self.tr[i][2][0]):
            self.far = max(self.far, i + 1)
            if flag is not None and self.n(d[2]) != self.n(flag):
                self.ctxbad.setdefault(("operator", "the operator `in` is allowed or not regardless of the context"), i)
            return {i + 1}
        return set()

    def expr(self, v, i, cx, lvl):
        out = set()
        # parentheses
        if self.p(i, "LParen"):
            on = dict(cx, allow_in=TRUE)
            out |= self.seqm(i, self.P("LParen"), self.M("Expr", v, on, 0), self.P("RParen"))
        if v[0] != "A":
            return out
        n, f = self.tn["Expr"][v[1]], v[2]
        on = dict(cx, allow_in=TRUE)
        own = {"Seq": 0, "Assign": 1, "BinAssign": 1, "Cond": 2, "Binop": 3, "Logop": 3, "Unop": 4, "PreInc": 4, "PreDec": 4,
               "PostInc": 5, "PostDec": 5, "Call": 7}.get(n, 9)
        if n in ("Dot", "Brack"):
            own = 8
        if n == "New":
            own = 6 if self.d(f[2]) == NONE else 8
        if own < lvl:
            return out
        if n in ("This", "True", "False", "Null"):
            return out | self.kw(i, n)
        if n in ("Number", "String", "RegExp"):
            return out | self.lit(i, n, f[1])
        if n == "Id":
            return out | self.m("Id", f[0], i, cx)
        if n == "Arr":
            return out | self.seqm(i, self.P("LBrack"), lambda j: self.elems(f[1], j, on), self.P("RBrack"))
        if n == "Obj":
            return out | self.seqm(i, self.P("LBrace"), lambda j: self.comma("Prop", f[1], j, cx, 0, True), self.P("RBrace"))
        if n == "Fun":
            return out | self.fun(f[0], i, cx, "Id?")
        if n == "Seq":
            l = self.d(f[1])
            if l[0] == "q" and len(l[2]) < 2:
                return out
            return out | self.comma("Expr", l, i, cx, 1, False)
        if n == "Unop":
            o = self.d(f[1])
            return out | self.seqm(i, lambda j: self.op(j, o[2][1], None, "unop"), self.M("Expr", f[2], cx, 4))
        if n in ("Binop", "Logop"):
            o = self.d(f[1])
            r = self.seqm(i, self.M("Expr", f[2], cx, 3),
                          lambda j: self.op(j, o[2][1], "to_" + n.lower(), None, cx.get("allow_in", self.inh("allow_in")) if n == "Binop" else None),
                          self.M("Expr", f[3], cx, 3))
            if r and not self.precedence(o, self.d(f[2]), self.d(f[3])):
                self.ctxbad.setdefault(("operators", "the grouping contradicts the precedence of the operators"), i)
            return out | r
        if n in ("PreInc", "PreDec"):
            return out | self.seqm(i, self.P(n[3:]), self.M("AssignTarget", f[1], cx, 4))
        if n in ("PostInc", "PostDec"):
            r = self.seqm(i, self.M("AssignTarget", f[1], cx, 6), self.P(n[4:]))
            for j in r:
                nl = self.n(self.tr[j - 1][2][0])[2][1]
                if self.e.bounds(self.st, nl) != (0, 0):
                    self.ctxbad.setdefault(("postfix", "a postfix operator is accepted after a line terminator"), j)
            return out | r
        if n == "Assign":
            return out | self.seqm(i, self.M("AssignPatt", f[1], cx, 2), self.P("Assign"), self.M("Expr", f[2], cx, 1))
        if n == "BinAssign":
            o = self.d(f[1])
            return out | self.seqm(i, self.M("AssignTarget", f[2], cx, 2), lambda j: self.op(j, o[2][1], "to_assop", None),
                                   self.M("Expr", f[3], cx, 1))
        if n == "Cond":
            return out | self.seqm(i, self.M("Expr", f[1], cx, 3), self.P("Question"), self.M("Expr", f[2], on, 1), self.P("Colon"),
                                   self.M("Expr", f[3], cx, 1))
        if n == "Call":
            return out | self.seqm(i, self.M("Expr", f[1], cx, 7), lambda j: self.args(f[2], j, cx))
        if n == "New":
            a = self.d(f[2])
            if a == NONE:
                c = self.d(f[1])
                inner = c[0] == "A" and self.tn["Expr"][c[1]] == "New" and self.d(c[2][2]) == NONE
                return out | self.seqm(i, self.K("New"), self.M("Expr", f[1], cx, 6 if inner else 8))
            return out | self.seqm(i, self.K("New"), self.M("Expr", f[1], cx, 8), lambda j: self.args(a[2][0], j, cx))
        if n == "Dot":
            return out | self.seqm(i, self.M("Expr", f[1], cx, 8 if lvl >= 8 else 7), self.P("Dot"), lambda j: self.key(f[2], j))
        if n == "Brack":
            return out | self.seqm(i, self.M("Expr", f[1], cx, 8 if lvl >= 8 else 7), self.P("LBrack"), self.M("Expr", f[2], on, 0), self.P("RBrack"))
        if n == "NewTarget":
            return out | self.seqm(i, self.K("New"), self.P("Dot"), lambda j: self.idtok(j, "Target"))
        return out

    def inh(self, k):
        return self.entry[2][4][2][self.c.cfields.index(k)]

    def precsym(self, o):
        return ("prec", self.d(self.d(o)[2][1]))

    def precedence(self, o, left, right):
        """op(left) >= op > ... : left operand binds at least as tightly, right operand more tightly."""
        def sub(x):
            if x[0] == "A" and self.tn["Expr"][x[1]] in ("Binop", "Logop"):
                return x[2][1]
            return None

        def sym(x):
            s = self.st.facts.get(("def",) + self.precsym(x))
            return symv(s[0]) if s else None
        me = None
        for x, strict in ((sub(left), False), (sub(right), True)):
            if x is None:
                continue
            me, other = sym(o), sym(x)
            if me is None or other is None:
                return False
            from engine import ladd
            lo = max(self.e.bounds(self.st, ladd(other, me, -1))[0], -self.e.bounds(self.st, ladd(me, other, -1))[1])
            if lo < (1 if strict else 0):
                return False
        return True

    def args(self, v, i, cx):
        v = self.d(v)
        out = set()
        # the list inside the result of arguments()
        for it, js in self.items.items():
            for j in js:
                if j == i and self.c.ntname(self.tr[j]) == "arguments" and it[0] == "A" and self.n(it[2][0]) == v:
                    self.context(self.tr[j], j, "arguments", cx)
                    out.add(j + 1)
        if v[0] == "q":
            on = dict(cx, allow_in=TRUE)
            out |= self.seqm(i, self.P("LParen"), lambda j: self.comma("ExprListItem", v, j, on, 0, False, True), self.P("RParen"))
        return out

    def g_Arguments(self, v, i, cx):
        on = dict(cx, allow_in=TRUE)
        r = self.seqm(i, self.P("LParen"), lambda j: self.comma("ExprListItem", v[2][0], j, on, 0, False, True), self.P("RParen"))
        return r

    def key(self, v, i):
        v = self.d(v)
        return self.word(v[2][1], i) if v[0] == "A" else set()

    def word(self, text, i):
        """An identifier name with the given text."""
        x = self.data(i)
        n = self.variant_of("Data", x)
        if n not in ("Identifier", "Reserved"):
            return set()
        w = self.payload(x)
        return {i + 1} if self.textof(w, text) else set()

    def textof(self, w, text):
        text = self.d(text)
        if text[0] not in ("q", "str"):
            return False
        c = parts_const(text[2])
        if c is not None:
            a = self.variant_of("Name", w) == "Atom" and self.variant_of("Atom", self.payload(w))
            return bool(a) and a.lower() == c
        if len(text[2]) == 1 and text[2][0][0] == "S":
            d = self.defs.get(text[2][0][1])
            return bool(d) and d[0] == "text" and self.n(d[1]) == self.n(w)
        return False

    def comma(self, kind, v, i, cx, lvl, trailing, empty=True):
        v = self.d(v)
        if v[0] == "o":
            return self.item(v, i, kind, lvl, cx)
        cur = {i}
        for k, x in enumerate(v[2]):
            w = self.d(x[1])
            js = self.items.get(w, ())
            lst = [j for j in js if self.tr[j][1] == 1 and self.c.ntname(self.tr[j]) == "more_comma"]
            if lst:
                for j in lst:
                    if j in cur:
                        self.context(self.tr[j], j, "more_comma", cx)
                cur = {j + 1 for j in lst if j in cur}
                continue
            if k:
                cur = set().union(*[self.p(j, "Comma") for j in cur]) if cur else cur
            cur = set().union(*[self.narrow(kind, w, j, cx, lvl) for j in cur]) if cur else cur
        if trailing and v[2]:
            for j in list(cur):
                cur |= self.p(j, "Comma")
        return cur

    def elems(self, v, i, cx):
        """Array elements: a hole is written as nothing before its comma."""
        v = self.d(v)
        cur = {i}
        last = len(v[2]) - 1
        for k, x in enumerate(v[2]):
            w = self.d(x[1])
            hole = w == NONE
            if not hole:
                cur = set().union(*[self.m("ExprListItem", w[2][0], j, cx) for j in cur]) if cur else cur
            nxt = set().union(*[self.p(j, "Comma") for j in cur]) if cur else set()
            cur = nxt | (cur if k == last and not hole else set())
        return cur

    def fun(self, v, i, cx, idkind):
        v = self.d(v)
        f = dict(zip([x["n"] for x in self.u.p.tys[self.c.ty("easter::fun::Fun")].d["vars"][0]["f"]], v[2]))
        gen = self.d(f["generator"])
        if not isconst(gen):
            return set()
        return self.seqm(i, self.K("Function"), self.P("Star") if gen[2] else (lambda j: {j}),
                         self.M(idkind, f["id"], dict(cx, bind=TRUE)), self.M("Params", f["params"], cx), lambda j: self.body(f["body"], f["params"], j, cx))

    def body(self, v, params, i, cx):
        """A function body, checked against its own parameters."""
        r = self.m("Script", v, i, cx)
        for j in r:
            it = self.tr[j - 1]
            if it[1] == 1 and self.c.ntname(it) == "function_body":
                got = self.d(it[2][3][2][0])
                want = params if type(params) is list else self.d(self.d(params)[2][1])
                if type(params) is list:
                    want = ("q", "e", tuple(("e", x) for x in params))
                if [self.d(x[1]) for x in got[2]] != [self.d(x[1]) for x in want[2]]:
                    self.ctxbad.setdefault(("function_body", "the body is checked against other parameters"), j)
        return r

    def g_ExprListItem(self, v, i, cx):
        if self.vn("ExprListItem", v) == "Expr":
            return self.narrow("Expr", v[2][0], i, cx, 1)
        return self.seqm(i, self.P("Ellipsis"), self.M("Expr", v[2][1], cx, 1))

    def g_Id(self, v, i, cx):
        out = set()
        x = self.data(i)
        if self.variant_of("Data", x) == "Identifier":
            self.named[i] = (cx.get("bind", C(0)), self.n(v[2][1]))
            w, nm = self.payload(x), self.n(v[2][1])
            if w == nm:
                out.add(i + 1)
            elif nm[0] == "o":
                d = self.defs.get(nm[1])
                if d and d[0] == "namefrom":
                    if self.textof(w, ("q", "c", d[1])):
                        out.add(i + 1)
        return out

    def inner(self, v, i, cx):
        """The identifier that is a pattern or argument read before."""
        out = set()
        for it, js in self.items.items():
            if it[0] == "A" and len(it[2]) >= 1 and i in js and self.c.ntname(self.tr[i]) in ("pattern", "arg") and self.d(it[2][0]) == v:
                self.context(self.tr[i], i, "pattern", cx) if self.c.ntname(self.tr[i]) != "arg" else None
                out.add(i + 1)
        return out

    def g_CompoundPatt(self, v, i, cx):
        return set()

    def g_Patt(self, v, i, cx):
        if self.vn("Patt", v) == "Simple":
            return self.m("Id", v[2][0], i, dict(cx, bind=TRUE))
        return self.compound(v[2][0], i, cx)

    def compound(self, v, i, cx):
        """A destructuring pattern: the result of binding_pattern, or the inside of one of pattern()."""
        v = self.d(v)
        out = self.item(v, i, "CompoundPatt", 0, cx)
        for it, js in self.items.items():
            if it[0] == "A" and it[1] == 1 and i in js and self.c.ntname(self.tr[i]) == "pattern" and self.d(it[2][0]) == v:
                out.add(i + 1)
        return out

    def g_Params(self, v, i, cx):
        lst, rest = self.d(v[2][1]), self.d(v[2][2])
        if lst[0] == "o" or rest[0] == "o":
            return set()
        cur = self.p(i, "LParen")
        cur = set().union(*[self.comma("Patt", lst, j, cx, 0, False) for j in cur]) if cur else cur
        if rest != NONE:
            if lst[2]:
                cur = set().union(*[self.p(j, "Comma") for j in cur]) if cur else cur
            r = self.d(rest[2][0])
            cur = set().union(*[self.seqm(j, self.P("Ellipsis"), self.M("Patt", r[2][1], cx)) for j in cur]) if cur else cur
        elif lst[2]:
            for j in list(cur):
                cur |= self.p(j, "Comma")
        return set().union(*[self.p(j, "RParen") for j in cur]) if cur else cur

    def g_Dtor(self, v, i, cx):
        if self.vn("Dtor", v) == "Simple":
            r = self.m("Id", v[2][1], i, dict(cx, bind=TRUE))
            init = self.d(v[2][2])
            if init == NONE:
                return r
            return set().union(*[self.seqm(j, self.P("Assign"), self.M("Expr", init[2][0], cx, 1)) for j in r]) if r else r
        r = self.compound(v[2][1], i, cx)
        return set().union(*[self.seqm(j, self.P("Assign"), self.M("Expr", v[2][2], cx, 1)) for j in r]) if r else r

    def g_ConstDtor(self, v, i, cx):
        return self.seqm(i, self.M("Patt", v[2][1], cx), self.P("Assign"), self.M("Expr", v[2][2], cx, 1))

    def g_Prop(self, v, i, cx):
        n, f = self.vn("Prop", v), v[2]
        if n == "Shorthand":
            r = self.m("Id", f[0], i, cx)
            # from a key that was read before
            for it, js in self.items.items():
                if i in js and self.c.ntname(self.tr[i]) == "arg" and it[0] == "A" and self.vn("PropKey", it) == "Id":
                    nm = self.n(self.d(f[0])[2][1])
                    d = self.defs.get(nm[1]) if nm[0] == "o" else None
                    t = self.d(it[2][1])
                    if d and d[0] == "namefrom" and d[1] == t[2]:
                        r.add(i + 1)
            return r
        if n == "Method":
            fu = self.d(f[0])
            g = dict(zip([x["n"] for x in self.u.p.tys[self.c.ty("easter::fun::Fun")].d["vars"][0]["f"]], fu[2]))
            gen = self.d(g["generator"])
            if not isconst(gen):
                return set()
            return self.seqm(i, self.P("Star") if gen[2] else (lambda j: {j}), self.M("PropKey", g["id"], cx), self.M("Params", g["params"], cx),
                             lambda j: self.body(g["body"], g["params"], j, cx))
        val = self.d(f[2])
        k = self.vn("PropVal", val)
        if k == "Init":
            return self.seqm(i, self.M("PropKey", f[1], cx), self.P("Colon"), self.M("Expr", val[2][0], dict(cx, allow_in=TRUE), 1))
        if k == "Get":
            return self.seqm(i, lambda j: self.idtok(j, "Get"), self.M("PropKey", f[1], cx), self.P("LParen"), self.P("RParen"),
                             lambda j: self.body(val[2][1], [], j, cx))
        return self.seqm(i, lambda j: self.idtok(j, "Set"), self.M("PropKey", f[1], cx), self.P("LParen"), self.M("Patt", val[2][1], cx),
                         self.P("RParen"), lambda j: self.body(val[2][2], [val[2][1]], j, cx))

    def g_PropKey(self, v, i, cx):
        n = self.vn("PropKey", v)
        if n == "Id":
            return self.word(v[2][1], i)
        return self.lit(i, n, v[2][1])

    def g_Script(self, v, i, cx):
        return self.seqm(i, self.M("Dirs", v[2][1], cx), self.M("Items", v[2][2], cx))

    def g_Program(self, v, i, cx):
        if self.vn("Program", v) == "Ambiguous":
            # the checks put off are handed on, all of them
            q = self.d(v[2][0])
            if q != self.n(self.entry[2][self.c.pfields.index("deferred")]):
                self.ctxbad.setdefault(("program", "the checks put off until the goal is known are dropped"), i)
        return self.g_Script(self.d(v[2][1]), i, cx) if self.vn("Program", v) == "Ambiguous" else self.g_Module(self.d(v[2][0]), i, cx)

    def g_Module(self, v, i, cx):
        return self.seqm(i, self.M("Dirs", v[2][1], cx), self.M("ModItems", v[2][2], cx))

    def many(self, kind, v, i, cx):
        cur = {i}
        v = self.d(v)
        if v[0] == "o":
            # inside the items of a program
            return {j + 1 for it, js in self.items.items() for j in js if j == i and it[0] == "A" and len(it[2]) == 1 and
                    self.d(it[2][0]) == v and self.c.ntname(self.tr[j]) == "program_items"}
        for x in v[2]:
            cur = set().union(*[self.m(kind, x[1], j, cx) for j in cur]) if cur else cur
        return cur

    def g_Items(self, v, i, cx):
        return self.many("StmtListItem", v, i, cx)

    def g_ModItems(self, v, i, cx):
        return self.many("ModItem", v, i, cx)

    def g_ModItem(self, v, i, cx):
        return self.m("StmtListItem", v[2][0], i, cx) if self.vn("ModItem", v) == "StmtListItem" else set()

    def g_ProgramItems(self, v, i, cx):
        return self.many("StmtListItem", v[2][0], i, cx) if v[1] == 0 else self.m("ModItems", v[2][0], i, cx)

    def g_Dirs(self, v, i, cx):
        return self.many("Dir", v, i, cx)

    def g_Dir(self, v, i, cx):
        return self.seqm(i, lambda j: self.lit(j, "String", v[2][1]), self.M("Semi", v[2][2], cx))

    def g_StmtListItem(self, v, i, cx):
        n = self.vn("StmtListItem", v)
        if n == "Decl" and self.st.g.get("allow_decl") is not None and self.d(self.st.g["allow_decl"]) != TRUE and \
                self.e.bounds(self.st, self.d(self.st.g["allow_decl"])) != (1, 1):
            self.ctxbad.setdefault(("stmt_list_item", "a declaration is accepted where only a statement may stand"), i)
        return self.m(n, v[2][0], i, cx)

    def g_Block(self, v, i, cx):
        return self.seqm(i, self.P("LBrace"), self.M("Items", v[2][1], cx), self.P("RBrace"))

    def g_Decl(self, v, i, cx):
        n, f = self.vn("Decl", v), v[2]
        if n == "Fun":
            return self.fun(f[0], i, cx, "Id")
        return self.seqm(i, (lambda j: self.idtok(j, "Let")) if n == "Let" else self.K("Const"),
                         lambda j: self.comma("Dtor" if n == "Let" else "ConstDtor", f[1], j, cx, 0, False), self.M("Semi", f[2], cx))

    def g_Semi(self, v, i, cx):
        if self.vn("Semi", v) == "Explicit":
            return self.p(i, "Semi")
        if i == len(self.tr):
            lk = self.c.seq(self.st, LOOK)
            good = False
            if lk:
                t = self.n(self.c.val(self.st, lk[0]))
                good = self.variant_of("Data", t[2][2]) in ("RBrace", "EOF") or self.e.bounds(self.st, t[2][1]) == (1, 1) or \
                    self.root == "do_statement" or self.inset(t[2][2], ("RBrace", "EOF"))
            if not good:
                self.ctxbad.setdefault(("semicolon", "a semicolon is inserted before a token on the same line that is not } or the end"), i)
        return {i}

    def notin(self, v, names):
        if v[0] == "A":
            return self.vn("Data", v) not in names
        d = self.e.lazy_disc(self.st, v[1])
        m = self.e.charset(self.st, d)
        return m is not None and not any(m & self.e.cd.of(x["d"]) for x in self.u.p.tys[self.c.dataty].d["vars"] if x["n"] in names)

    def inset(self, v, names):
        if v[0] != "o":
            return False
        d = self.e.lazy_disc(self.st, v[1])
        m = self.e.charset(self.st, d)
        vs = self.u.p.tys[self.c.dataty].d["vars"]
        w = 0
        for x in vs:
            if x["n"] in names:
                w |= self.e.cd.of(x["d"])
        return m is not None and not m & ~w

    def head(self, v, i, cx, kind):
        off = dict(cx, allow_in=C(0))
        n, f = self.vn(kind, v), v[2]
        if n == "Expr":
            return self.narrow("Expr", f[1], i, off, 0)
        if n in ("Var", "Let", "Const"):
            a = (lambda j: self.idtok(j, "Let")) if n == "Let" else self.K(n)
            if kind == "ForHead":
                return self.seqm(i, a, lambda j: self.comma("ConstDtor" if n == "Const" else "Dtor", f[1], j, off, 0, False))
            return self.seqm(i, a, self.M("Patt", f[1], cx))
        if n == "VarInit":
            return self.seqm(i, self.K("Var"), self.M("Id", f[1], cx), self.P("Assign"), self.M("Expr", f[2], off, 1))
        return self.m("AssignPatt", f[0], i, off, 0)

    def g_ForHead(self, v, i, cx):
        r = self.head(v, i, cx, "ForHead")
        return set().union(*[self.p(j, "Semi") for j in r]) if r else r

    def g_ForInHead(self, v, i, cx):
        return self.head(v, i, cx, "ForInHead")

    def g_ForOfHead(self, v, i, cx):
        return self.head(v, i, cx, "ForOfHead")

    def g_Case(self, v, i, cx):
        t = self.d(v[2][1])
        on = dict(cx, allow_in=TRUE)
        if t == NONE:
            return self.seqm(i, self.K("Default"), self.P("Colon"), self.M("Items", v[2][2], cx))
        return self.seqm(i, self.K("Case"), self.M("Expr", t[2][0], on, 0), self.P("Colon"), self.M("Items", v[2][2], cx))

    def g_Cases(self, v, i, cx):
        d = sum(1 for x in v[2] if self.d(self.d(x[1])[2][1]) == NONE)
        if d > 1:
            self.ctxbad.setdefault(("switch", "more than one default clause is accepted"), i)
        return self.seqm(i, self.P("LBrace"), lambda j: self.many("Case", v, j, cx), self.P("RBrace"))

    def paren(self, v, i, cx):
        return self.seqm(i, self.P("LParen"), self.M("Expr", v, dict(cx, allow_in=TRUE), 0), self.P("RParen")) | \
            {j for j in self.item(self.d(v), i, "Expr", 9, cx) if self.c.ntname(self.tr[j - 1]) == "paren_expression"}

    def g_Stmt(self, v, i, cx):
        n, f = self.vn("Stmt", v), v[2]
        on = dict(cx, allow_in=TRUE)
        loop = dict(cx, iteration=TRUE)
        if n == "Empty":
            return self.p(i, "Semi")
        if n == "Block":
            return self.m("Block", f[0], i, cx)
        if n == "Var":
            return self.seqm(i, self.K("Var"), lambda j: self.comma("Dtor", f[1], j, cx, 0, False), self.M("Semi", f[2], cx))
        if n == "Expr":
            return self.seqm(i, self.M("Expr", f[1], on, 0), self.M("Semi", f[2], cx))
        if n == "If":
            r = self.seqm(i, self.K("If"), lambda j: self.paren(f[1], j, cx), self.M("Stmt", f[2], cx))
            alt = self.d(f[3])
            if alt == NONE:
                lk = self.c.seq(self.st, LOOK)
                if lk and self.iskw(self.n(self.c.val(self.st, lk[0]))[2][2], "Else"):
                    self.ctxbad.setdefault(("if", "an else clause is left behind"), i)
                return r
            return set().union(*[self.seqm(j, self.K("Else"), self.M("Stmt", alt[2][0], cx)) for j in r]) if r else r
        if n == "Label":
            return self.seqm(i, self.M("Id", f[1], cx), self.P("Colon"), 
                             self.M("Stmt", f[2], dict(cx, labels=("inner", cx.get("labels", (0, ()))[1] + (self.n(self.d(f[1])[2][1]),)))))
        if n in ("Break", "Cont"):
            a = self.d(f[1])
            r = self.seqm(i, self.K("Break" if n == "Break" else "Continue"), self.M("Id?", a, cx), self.M("Semi", f[2], cx))
            if r:
                self.jump(n, a, i)
            return r
        if n == "With":
            return self.seqm(i, self.K("With"), lambda j: self.paren(f[1], j, cx), self.M("Stmt", f[2], cx))
        if n == "Switch":
            return self.seqm(i, self.K("Switch"), lambda j: self.paren(f[1], j, cx), self.M("Cases", f[2], dict(cx, switch=TRUE)))
        if n == "Return":
            a = self.d(f[1])
            r = self.seqm(i, self.K("Return"), (lambda j: {j}) if a == NONE else self.M("Expr", a[2][0], on, 0), self.M("Semi", f[2], cx))
            if r and self.val_of(self.inh("function")) != 1:
                self.ctxbad.setdefault(("return", "a return statement is accepted outside functions"), i)
            if r and self.val_of(self.inh("function")) != 1:
                self.ctxbad.setdefault(("Return", "a return is accepted outside a function"), i)
            return self.sameline(r, i, a)
        if n == "Throw":
            return self.sameline(self.seqm(i, self.K("Throw"), self.M("Expr", f[1], on, 0), self.M("Semi", f[2], cx)), i, TRUE)
        if n == "Try":
            c, fin = self.d(f[2]), self.d(f[3])
            if c == NONE and fin == NONE:
                return set()
            r = self.seqm(i, self.K("Try"), self.M("Block", f[1], cx))
            if c != NONE:
                k = self.d(c[2][0])
                r = set().union(*[self.seqm(j, self.K("Catch"), self.P("LParen"), self.M("Patt", k[2][1], cx), self.P("RParen"),
                                            self.M("Block", k[2][2], cx)) for j in r]) if r else r
            if fin != NONE:
                r = set().union(*[self.seqm(j, self.K("Finally"), self.M("Block", fin[2][0], cx)) for j in r]) if r else r
            return r
        if n == "While":
            return self.seqm(i, self.K("While"), lambda j: self.paren(f[1], j, cx), self.M("Stmt", f[2], loop))
        if n == "DoWhile":
            return self.seqm(i, self.K("Do"), self.M("Stmt", f[1], loop), self.K("While"), lambda j: self.paren(f[2], j, cx), self.M("Semi", f[3], cx))
        if n == "For":
            h, t, up = self.d(f[1]), self.d(f[2]), self.d(f[3])
            if h == NONE:
                hd = self.P("Semi")
            else:
                hd = self.M("ForHead", h[2][0] if h[0] == "A" else h, cx)
            r = self.seqm(i, self.K("For"), self.P("LParen"))
            r2 = set().union(*[hd(j) for j in r]) if r else r
            if h[0] == "o":
                r2 = set().union(*[self.item(h, j, "ForHead", 0, cx) for j in r]) if r else r
            return set().union(*[self.seqm(j, (lambda y: {y}) if t == NONE else self.M("Expr", t[2][0], on, 0), self.P("Semi"),
                                           (lambda y: {y}) if up == NONE else self.M("Expr", up[2][0], on, 0), self.P("RParen"),
                                           self.M("Stmt", f[4], loop)) for j in r2]) if r2 else r2
        if n in ("ForIn", "ForOf"):
            return self.seqm(i, self.K("For"), self.P("LParen"), self.M(n + "Head", f[1], cx),
                             self.K("In") if n == "ForIn" else (lambda j: self.idtok(j, "Of")),
                             self.M("Expr", f[2], on, 0 if n == "ForIn" else 1), self.P("RParen"), self.M("Stmt", f[3], loop))
        if n == "Debugger":
            return self.seqm(i, self.K("Debugger"), self.M("Semi", f[1], cx))
        return set()

    def iskw(self, v, word):
        return self.variant_of("Data", v) == "Reserved" and self.variant_of("Reserved", self.payload(v)) == word

    def val_of(self, v):
        lo, hi = self.e.bounds(self.st, v) if v[0] == "i" else (None, 0)
        return lo if lo == hi else None

    def sameline(self, r, i, arg):
        """Restricted productions: no line terminator between the keyword and its argument."""
        if arg == NONE or not r or i + 1 >= len(self.tr):
            return r
        it = self.tr[i + 1]
        t = it[2][4][2][0] if it[1] == 1 and it[2][4][2] else it[2][0] if it[1] == 0 else None
        if t is None or self.val_of(self.n(t)[2][1]) != 0:
            self.ctxbad.setdefault(("restricted", "an argument is accepted on the line after return, throw, break or continue"), i)
        return r

    def jump(self, n, a, i):
        c = {k: self.inh(k) for k in ("iteration", "switch", "labels")}
        on = {k: self.val_of(c[k]) == 1 for k in ("iteration", "switch")}
        if a == NONE:
            if not on["iteration"] and not (n == "Break" and on["switch"]):
                self.ctxbad.setdefault((n, "%s without a label is accepted outside %s" % (n.lower(), "a loop or switch" if n == "Break" else "a loop")), i)
            return
        self.sameline({i}, i, a)
        nm = self.n(self.d(a[2][0])[2][1])
        has = self.st.facts.get(("def", "has", c["labels"], nm))
        if has is None or self.val_of(symv(has[0])) != 1:
            self.ctxbad.setdefault((n, "a jump to an undefined label is accepted"), i)
        if n == "Cont":
            d = self.st.facts.get(("def", "label", c["labels"], nm))
            v = None
            if d is not None:
                v = self.e.lazy_variant(self.st, d[0])
            if v is None or self.c.names(self.c.ty("esprit::context::LabelType"))[v] != "Iteration":
                self.ctxbad.setdefault((n, "continue is accepted with the label of a statement that is not a loop"), i)


# the token a procedure is entered on
START = {"var_statement": "Var", "do_statement": "Do", "while_statement": "While", "for_statement": "For", "switch_statement": "Switch",
         "break_statement": "Break", "continue_statement": "Continue", "return_statement": "Return", "with_statement": "With",
         "throw_statement": "Throw", "try_statement": "Try", "debugger_statement": "Debugger", "const_declaration": "Const",
         "function_declaration": "Function", "for_var": "Var", "for_let": ("id", "Let"), "for_const": "Const",
         "labelled_statement": ("p", "Colon")}
OPENS = ("Return", "Throw", "Case", "Else", "Do", "New", "Typeof", "Void", "Delete", "In", "Instanceof")
STARTS = ("LParen", "LBrack", "Comma", "Semi", "Question", "Colon", "Assign", "Bang", "Tilde", "Ellipsis", "LBrace")
# the forms every procedure has to produce
FORMS = {
    "array_literal": "Arr([0]) Arr([1]) Arr([2])",
    "body_directives": "[0] [1] [2]",
    "break_statement": "Break(+,Explicit(+)) Break(+,Inserted) Break(-,Explicit(+)) Break(-,Inserted)",
    "continue_statement": "Cont(+,Explicit(+)) Cont(+,Inserted) Cont(-,Explicit(+)) Cont(-,Inserted)",
    "const_declaration": "Const([2],Explicit(+)) Const([2],Inserted)",
    "let_declaration": "Let([2],Explicit(+)) Let([2],Inserted)",
    "var_statement": "Var([2],Explicit(+)) Var([2],Inserted)",
    "debugger_statement": "Debugger(Explicit(+)) Debugger(Inserted)",
    "do_statement": "DoWhile(Explicit(+)) DoWhile(Inserted)",
    "expression_statement": "Expr(Explicit(+)) Expr(Inserted)",
    "return_statement": "Return(+,Explicit(+)) Return(+,Inserted) Return(-,Explicit(+)) Return(-,Inserted)",
    "throw_statement": "Throw(Explicit(+)) Throw(Inserted)",
    "declarator": "Compound(_,_) Simple(+) Simple(-)",
    "expr_list_item": "Expr(_) Spread(_)",
    "stmt_list_item": "Decl(Const) Decl(Fun) Decl(Let) Stmt(Block) Stmt(Break) Stmt(Cont) Stmt(Debugger) Stmt(DoWhile) Stmt(Empty) Stmt(Expr) "
                      "Stmt(For) Stmt(If) Stmt(Label) Stmt(Return) Stmt(Switch) Stmt(Throw) Stmt(Try) Stmt(Var) Stmt(While) Stmt(With)",
    "for_statement": "For:- For:Const For:Expr For:Let For:Var",
    "for_var": "For:Var ForIn:Var ForIn:VarInit ForOf:Var",
    "for_let": "For:Expr For:Let ForIn:Let ForOf:Let",
    "for_const": "For:Const ForIn:Const ForOf:Const",
    "for_expr": "For:Expr ForIn:Patt ForOf:Patt",
    "more_for": "For(+_,+,+) For(+_,+,-) For(+_,-,+) For(+_,-,-) For(-,+,+) For(-,+,-) For(-,-,+) For(-,-,-)",
    "formal_parameters": "([0],+(_)) ([0],-) ([1],+(_)) ([1],-) ([2],+(_)) ([2],-)",
    "function_declaration": "Fun((_,0)) Fun((_,1))",
    "if_statement": "If(+) If(-)",
    "lhs_expression": "NewTarget _",
    "more_assignment": "Assign BinAssign(_) _",
    "more_conditional": "Cond _",
    "more_expressions": "Seq([2]) _",
    "more_infix_expressions": "Binop Logop _",
    "more_new_expression": "Brack Dot New(+[_]) New(-)",
    "more_prop_init": "Method((_,0)) Regular(Id,Init(_)) Regular(Number,Init(_)) Regular(String,Init(_)) Shorthand",
    "more_suffixes": "Brack Call([_]) Dot _",
    "module_items": "[0] [1] [2]", "statement_list": "[0] [1] [2]", "switch_cases": "[0] [1] [2]",
    "object_literal": "Obj([0]) Obj([1]) Obj([2])",
    "object_property": "Method((_,1)) Regular(Id,Get(_)) Regular(Id,Set(_,_)) Regular(Number,Get(_)) Regular(Number,Set(_,_)) Regular(String,Get(_)) "
                       "Regular(String,Set(_,_)) _",
    "pattern": "Compound(_) Simple",
    "primary_expression": "False Fun((+,_,0)) Fun((+,_,1)) Fun((-,_,0)) Fun((-,_,1)) Id Null Number RegExp String This True _",
    "program_items": "Script([0]) Script([1]) Script([2])",
    "try_statement": "Try(+(_,_),+) Try(+(_,_),-) Try(-,+)",
    "unary_expression": "PostDec(_) PostInc(_) PreDec(_) PreInc(_) Unop _",
    "more_comma": "[1] [2]",
    "match_directive_opt": "+(Explicit(+)) +(Inserted) -",
}
# how often a loop is followed (elsewhere 3 times)
UNROLL = {"unary_expression": 2, "more_suffixes": 2, "more_new_expression": 2}
# the longest input followed
BUDGET = {"more_new_expression": 9}
# the entry points of the parser
TOP = {"script": "Script", "module": "Module", "program": "Program"}


class Run:
    def __init__(self):
        self.c = c = Parse()
        self.g = Gram(c)
        self.u = c.u
        self.oks = self.goaled = 0
        self.shapes = {}
        c.entered = self.entered

    def roots(self):
        return sorted(n for n in NTS if n in self.c.cuts) + ["more_comma", "match_directive_opt"] + sorted(TOP)

    def tok(self, st, kind, name):
        c, e = self.c, self.c.e
        def at(ty, n, f=()):
            return ("A", c.names(ty).index(n), tuple(f))
        if kind == "kw":
            d = at(c.dataty, "Reserved", [at(c.resty, name)])
        elif kind == "id":
            d = at(c.dataty, "Identifier", [at(c.namety, "Atom", [at(c.atomty, name)])])
        else:
            d = at(c.dataty, name)
        return ("A", 0, (("o", e.newsym(st, ("o", c.spanty))), symv(e.newsym(st, ("n", 0, 1, False))), d))

    def push(self, st, item):
        self.c.setseq(st, TRACE, self.c.seq(st, TRACE) + [item])

    def arg(self, st, v, lvl):
        c = self.c
        self.push(st, ("A", 1, (C(c.ntnames.index("arg")), v, c.ctx(st), ("A", 0, (C(lvl),)), ("A", 0, ()))))

    def entered(self, st, name, look):
        """A procedure that starts by taking a token it knows of is called with that token at hand."""
        s = START.get(name)
        if s is None:
            return True
        k, w = s if type(s) is tuple else ("kw", s)
        if not look:
            return False
        self.g.st = st
        v = self.c.norm(st, self.c.val(st, look[0]))[2][2]
        if k == "kw":
            return self.g.iskw(v, w)
        if k == "p":
            return self.g.variant_of("Data", v) == w
        if self.g.variant_of("Data", v) != "Identifier":
            return False
        n = self.g.payload(v)
        return self.g.variant_of("Name", n) == "Atom" and self.g.variant_of("Atom", self.g.payload(n)) == w

    def starts(self, name, inst):
        """Entry states of a root: [(state, arguments)]"""
        c, u, e = self.c, self.u, self.c.e
        raw = u.p.insts[inst].raw
        tys = raw["locals"][1:1 + raw["argc"]]
        if name == "more_comma":
            pre, kind = None, None
        elif name == "match_directive_opt" or name in TOP:
            pre = ()
        else:
            kind, lvl, pre, want = NTS[name]
        counts = (1, 2) if pre and any(x[0] == "toks" for x in pre) else (0, 1) if name == "more_for" else \
            range(len(self.g.tn["PropKey"])) if name == "more_prop_init" else (1,)
        for k in counts:
            st, r = c.start()
            if name in TOP:
                p0 = c.val(st, r)
                i = c.pfields.index("goal")
                f = list(p0[2])
                f[i] = ("A", c.names(c.ty("esprit::context::Goal")).index("Unknown"), ())
                if name == "program":
                    f[c.pfields.index("deferred")] = ("q", "e", (("e", u.sym(st, c.ty("esprit::error::Check"))),))
                st.heap[r[1][1]] = ("A", 0, tuple(f))
            args = [r] + [None] * (len(tys) - 1)
            ps = pre
            if name == "more_comma":
                v = u.sym(st, tys[1])
                el = re.sub(r"([a-z_0-9]+::)+", "", u.p.tys[tys[1]].s)
                self.arg(st, v, NTS[MORE_COMMA[el]][1])
                args[1] = v
                fn = MORE_COMMA[el]
                args[2] = ("fn", c.byname[P + fn][0]) if u.p.tys[tys[2]].k != "closure" else ("A", 0, ())
                ps = ()
                st.g["pre"] = C(1)
            for x in ps:
                if x[0] in ("kw", "p", "id"):
                    self.push(st, ("A", 0, (self.tok(st, x[0], x[1]),)))
                elif x[0] == "tok":
                    v = self.tok(st, "p", x[2])
                    self.push(st, ("A", 0, (v,)))
                    args[1 + x[1]] = v
                elif x[0] == "toks":
                    l = [self.tok(st, "kw", x[2]) for _ in range(k)]
                    for v in l:
                        self.push(st, ("A", 0, (v,)))
                    args[1 + x[1]] = ("q", "e", tuple(("e", v) for v in l))
                else:
                    t = tys[1 + x[1]]
                    if x[2] == "ForHead?":
                        if not k:
                            args[1] = NONE
                            self.push(st, ("A", 0, (self.tok(st, "p", "Semi"),)))
                            continue
                        v = u.sym(st, c.ty("easter::stmt::ForHead"))
                        args[1] = ("A", 1, (u.cell(st, v),))
                    elif x[2] in ("ForInHead", "ForOfHead"):
                        v = u.sym(st, c.ty("easter::stmt::" + x[2]))
                        args[1] = u.cell(st, v)
                    elif x[2] == "Id":
                        v = e.expand(st, u.sym(st, t))
                        args[1 + x[1]] = v
                    elif x[2] == "PropKey":
                        v = e.expand(st, u.sym(st, t), k)
                        v = ("A", v[1], (("A", 1, (("o", e.newsym(st, ("o", c.spanty))),)),) + v[2][1:])
                        args[1 + x[1]] = v
                    else:
                        v = u.sym(st, t)
                        args[1 + x[1]] = v
                    self.arg(st, v, x[3])
                    if x[2] == "Expr" and name in ("more_expressions", "more_assignment", "more_conditional"):
                        st.g["pre"] = C(1)
            s = START.get(name)
            if s:
                kk, w = s if type(s) is tuple else ("kw", s)
                c.setseq(st, LOOK, [u.cell(st, self.tok(st, kk, w))])
            for j, t in enumerate(tys):
                if args[j] is None:
                    ts = u.p.tys[t]
                    if "[" in ts.s:
                        el = c.ty("easter::patt::Patt")
                        args[j] = u.cell(st, ("q", "e", tuple(("e", u.sym(st, el)) for _ in range(2))))
                    else:
                        args[j] = u.sym(st, t)
                        if ts.k == "bool":
                            st.g["allow_decl"] = args[j]
            st.g["entry"] = c.val(st, r)
            st.g["in"] = ("A", 0, tuple(args[1:]) if name in TOP else ())
            st.g["nterr"] = st.g["lexerr"] = NONE
            yield st, args, r

    def analyse(self, name):
        c, u = self.c, self.u
        c.root = name
        c.e.unroll = UNROLL.get(name, 3)
        c.budget = BUDGET.get(name, 0)
        self.oks = self.goaled = 0
        for inst in c.byname.get(P + name, []):
            for st, args, r in self.starts(name, inst):
                rty = u.p.insts[inst].raw["locals"][0]
                for s, v in u.paths_of(name, st, args, inst=inst):
                    self.judge(name, s, v, r, rty)
        self.complete(name)

    def judge(self, name, s, v, r, rty):
        c, u, g = self.c, self.u, self.g
        if v[0] != "A":
            u.und["result of " + name] = 1
            return
        if v[1] == 1:
            self.error(name, s, v[2][0])
            return
        for k in ("nterr", "lexerr"):
            if s.g[k] != NONE:
                u.bad("swallowed", "an error found on the way is not reported", name, s)
                return
        g.begin(s, name)
        self.goals(name, s)
        self.oks += 1
        t = u.p.tys[rty]
        self.shapes.setdefault(name, {}).setdefault(self.shape([x for x in t.d["args"] if isinstance(x, int)][0], v[2][0]), []).append(self.look(s))
        if name == "more_comma":
            el = re.sub(r".*::|>.*", "", u.p.tys[rty].s.split("Vec<")[1])
            fin = g.comma(el, v[2][0], 0, {}, 1 if el == "Expr" else 0, False)
        elif name == "match_directive_opt":
            fin = g.m("Dir?", v[2][0], 0, {})
        elif name in TOP:
            cx = {}
            fin = g.m(TOP[name], v[2][0], 0, cx)
            self.mode(name, s, r)
            if name == "script":
                fin = set().union(*[g.p(j, "EOF") for j in fin]) if fin else fin
        else:
            kind, lvl = NTS[name][:2]
            cx = {}
            if name == "function_body":
                cx = {"function": TRUE, "iteration": C(0), "switch": C(0), "allow_in": TRUE}
                fin = g.seqm(0, g.P("LBrace"), g.M("Script", v[2][0], cx), g.P("RBrace"))
            elif name == "paren_expression":
                fin = g.seqm(0, g.P("LParen"), g.M("Expr", v[2][0], {"allow_in": TRUE}, 0), g.P("RParen"))
            elif name == "labelled_statement":
                fin = g.m(kind, v[2][0], 0, {})
            else:
                fin = g.m(kind, v[2][0], 0, cx, lvl)
        if len(g.tr) not in fin:
            u.bad("faithful|" + self.describe(v[2][0]), "the node returned is not what was read: %s from [%s]" % (
                self.describe(v[2][0]), self.text()), name, s)
            return
        if name in ("property_key", "property_key_opt") and v[2][0][0] == "A":
            k = v[2][0]
            if name == "property_key_opt":
                k = k[2][0] if k[2] else None
            if k is not None and c.unlocated(s, k):
                u.bad("panic|unlocated key", "the key returned has no location, which more_prop_init unwraps", name, s)
        if name == "match_directive_opt":
            self.ended(s, v[2][0])
        if name == "body_directives":
            self.pragmas(s, r)
        logged = [(g.n(x[2][1]), g.n(x[2][2])) for x in c.seq(s, LOG) if x[2][0] == C(6)]
        for i, (b, nm) in g.named.items():
            if (b, nm) not in logged:
                u.bad("name|%s" % ("unchecked" if not any(y == nm for _, y in logged) else "binding"),
                      "the %s is not checked as one in [%s]" % ("bound name" if b == TRUE else "name", self.text()), name, s)
        if name == "with_statement" and not any(x[2][0] == C(7) for x in c.seq(s, LOG)):
            u.bad("name|with", "a with statement is accepted without regard to strict mode", name, s)
        for (k, msg), j in g.ctxbad.items():
            u.bad("context|%s|%s" % (k, msg), "%s: %s in [%s]" % (k, msg, self.text()), name, s)
        cur = c.val(s, r)
        f = c.cfields
        for k in CTX:
            if k in ("strict",) and (name in ("body_directives", "script_body") or name in TOP):
                continue
            a, b = s.g["entry"][2][4][2][f.index(k)], cur[2][4][2][f.index(k)]
            if k == "labels":
                b = self.unlabel(b)
            if g.n(a) != g.n(b) and b is not None:
                u.bad("restore|" + k, "the context (%s) is not restored" % k, name, s)
        if name in BUFFERED and not c.seq(s, LOOK) and not (g.tr and g.tr[-1][1] == 1 and c.ntname(g.tr[-1]) in BUFFERED):
            u.bad("lookahead", "the token after the expression is not looked at as its continuation", name, s)

    def position(self, last, root):
        """What may stand after `last`: "end" of an operand (an operator may follow), "start" (an operand or a
        statement may follow), or None (neither)."""
        c, g = self.c, self.g
        exprs = NTS.get(root, ("",))[0] in ("Expr", "Arguments")
        if last[1] == 1:
            n = c.ntname(last)
            if n == "arg":
                return "end" if root in NTS and any(x[2] == "Expr" for x in NTS[root][2] if x[0] == "arg") else None
            if n in ("directive", "more_comma"):
                return "start" if n == "directive" else None
            k = NTS[n][0]
            if n == "paren_expression":
                return "end" if exprs else "start"
            if k in ("Expr", "Arguments"):
                return "end"
            if n == "function_body" and exprs:
                return "end"
            return "start" if k in ("Stmt", "StmtListItem", "Items", "Block", "Script", "Cases", "ModItems", "ProgramItems", "Dirs", "Decl") else None
        d = g.n(last[2][0])[2][2]
        k = g.variant_of("Data", d)
        if k == "Identifier":
            return "end" if exprs or root in ("stmt_list_item", "for_let", "labelled_statement") else None
        if k in ("Number", "String", "RegExp"):
            return "end" if exprs or root == "match_directive_opt" else None
        if k in ("RBrack", "RParen"):
            return "end" if exprs else None
        if k == "Reserved":
            w = g.variant_of("Reserved", g.payload(d))
            if w in ("This", "Null", "True", "False"):
                return "end"
            return "start" if w in OPENS else None
        return "start" if k in STARTS else None

    def goals(self, name, s):
        """Every token is read with the lexical goal of its place."""
        for x in self.c.seq(s, LOG):
            if not isconst(x[2][0]) or x[2][0][2] != 1:
                continue
            last, op = x[2][1], x[2][2][2]
            w = self.position(last, name) if last != NONE else "start" if not isconst(s.g["pre"]) or s.g["pre"][2] == 0 else None
            self.goaled += 1
            if w == "end" and not op:
                self.u.bad("goal|end", "a token that may be an operator is read as the start of an operand: after %s in [%s]" % (
                    self.one(last), self.text()), name, s)
            if w == "start" and op:
                self.u.bad("goal|start", "a token that may start an operand is read as an operator: after %s in [%s]" % (
                    self.one(last) if last != NONE else "nothing", self.text()), name, s)

    def pragmas(self, s, r):
        """The directives of a body set the strictness and the goal."""
        c, g, u = self.c, self.g, self.u
        gn, sn = c.names(c.ty("esprit::context::Goal")), c.names(c.ty("TriState"))
        e0, cur = s.g["entry"], c.val(s, r)
        ks = [PRAGMAS[x[2][1][2]] for x in c.seq(s, LOG) if x[2][0] == C(8)]
        nd = sum(1 for it in g.tr if it[1] == 1 and c.ntname(it) == "directive")
        if len(ks) != nd:
            u.bad("name|directive", "not every directive is looked at", "body_directives", s)
            return
        fun = g.val_of(e0[2][4][2][c.cfields.index("function")])
        module = "use module" in ks and fun == 0
        if "use module" in ks and fun is None:
            u.bad("name|module", "`use module` is a directive inside functions or nowhere", "body_directives", s)
        i, j = c.cfields.index("strict"), c.pfields.index("goal")
        a, b = g.n(e0[2][4][2][i]), g.n(cur[2][4][2][i])
        want = "Yes" if module or "use strict" in ks else None
        if (want is None and a != b) or (want and (b[0] != "A" or sn[b[1]] != want)):
            u.bad("name|strict", "the directives %s leave the code %s" % (ks, "not strict" if want else "with another strictness"), "body_directives", s)
        a, b = g.n(e0[2][j]), g.n(cur[2][j])
        if (not module and a != b) or (module and (b[0] != "A" or gn[b[1]] != "Module")):
            u.bad("name|goal", "the directives %s %s" % (ks, "do not make a module" if module else "change the goal"), "body_directives", s)

    def mode(self, name, s, r):
        """The entry points set the goal and the strictness they stand for."""
        c, g, u = self.c, self.g, self.u
        gn, sn = c.names(c.ty("esprit::context::Goal")), c.names(c.ty("TriState"))
        goal = g.n(c.val(s, r)[2][c.pfields.index("goal")])
        want = {"script": "Script", "module": "Module", "program": "Unknown"}[name]
        if goal[0] != "A" or gn[goal[1]] != want:
            u.bad("mode|goal", "the goal is not %s" % want, name, s)
        for it in g.tr:
            if it[1] != 1:
                continue
            st = g.n(it[2][2][2][c.cfields.index("strict")])
            ws = {"module": ("Yes",), "program": None, "script": None}[name]
            if name == "script":
                b = g.val_of(s.g["in"][2][0])
                ws = None if b is None else ("Yes",) if b else ("No",)
                if b is None:
                    u.bad("mode|strict", "the strictness does not depend on the argument", name, s)
            if ws and (st[0] != "A" or sn[st[1]] not in ws):
                u.bad("mode|strict", "the strictness is not %s" % ws[0], name, s)
            break

    def unlabel(self, v):
        """The label set with balanced insertions and removals undone."""
        if v[0] == "A" and v[1] == 8:
            ops = [x[1] for x in v[2][1][2]]
            n = len(ops) // 2
            ins, rem = ops[:n], ops[n:]
            if len(ops) == 2 * n and all(x[1] == 1 for x in ins) and all(x[1] == 0 for x in rem) and \
                    sorted(repr(x[2][0]) for x in ins) == sorted(repr(x[2][0]) for x in rem):
                return v[2][0]
        return v

    def error(self, name, s, x):
        c, u, g = self.c, self.u, self.g
        g.begin(s, name)
        self.goals(name, s)
        x = g.d(x)
        if s.g["nterr"] != NONE:
            if x != g.n(s.g["nterr"]):
                u.bad("error changed", "the error of a part is replaced by another", name, s)
            return
        if s.g["lexerr"] != NONE:
            if x[0] != "A" or c.names(c.errty)[x[1]] != "LexError" or g.d(x[2][0]) != g.n(s.g["lexerr"]):
                u.bad("lexical error changed", "a lexical error is replaced by another error", name, s)
            return

    def describe(self, v, n=3):
        g = self.g
        v = g.d(v)
        return self.desc(v)

    def desc(self, v):
        if v[0] == "o":
            t = self.u.p.tys[self.g.st.attr[v[1]][1]]
            return re.sub(r"([a-z_0-9]+::)+", "", t.s)
        return "%s#%s" % (v[0], v[1])

    def shape(self, tid, v, top=True):
        """The form of a node: variants, options and (up to 2) lengths; nodes inside it are left out."""
        u, g = self.u, self.g
        t = u.p.tys[tid]
        v = g.d(v)
        if t.k == "bool":
            return "?" if not isconst(v) else "01"[v[2]]
        if t.k != "adt":
            return ""
        n = t.d["name"]
        args = [x for x in t.d["args"] if isinstance(x, int)]
        if n == "std::boxed::Box":
            return self.shape(args[0], v, top)
        if n == "std::vec::Vec":
            if v[:2] != ("q", "e"):
                return "[_]"
            return "[%d]" % min(len(v[2]), 2)
        if n == "std::option::Option":
            if tid == self.c.spanopt:
                return ""
            if v[0] != "A":
                return "_"
            return "+" + self.shape(args[0], v[2][0], False) if v[1] else "-"
        short = n.split("::")[-1]
        if short == "Stmt" and not top:
            return ""
        if short == "StmtListItem":
            w = g.d(v[2][0]) if v[0] == "A" else v
            if w[0] == "A":
                k = g.tn["StmtListItem"][v[1]]
                return "%s(%s)" % (k, g.tn[k][w[1]])
            if v[0] == "A":
                for j in g.items.get(w, ()):
                    return "%s(%s)" % (g.tn["StmtListItem"][v[1]], self.ntshape(g.tr[j]))
        if short in ("Expr", "Stmt", "Decl") and (top or short != "Expr"):
            for j in g.items.get(v, ()):
                return self.ntshape(g.tr[j])
        if short == "Stmt" and v[0] == "A" and g.tn["Stmt"][v[1]] in ("For", "ForIn", "ForOf") and self.c.root != "more_for":
            return self.forshape(g.tn["Stmt"][v[1]], v[2][1])
        if not top and short in ("Expr", "Decl", "Id", "Script", "Block", "Params", "Patt", "CompoundPatt", "DotKey", "PropKey", "Op"):
            return ""
        if not n.split("::")[-3:-2] == ["easter"] and short != "ProgramItems":
            return ""
        if v[0] != "A":
            return "_"
        vs = t.d["vars"]
        inner = top and short in ("Expr", "Stmt", "Decl", "StmtListItem") or short in ("Fun", "Arguments", "ForHead")
        out = [self.shape(f["t"], x, not inner and short not in ("Expr",)) for f, x in zip(vs[v[1]]["f"], v[2])] \
            if not (short == "Stmt" and not top) else []
        out = [x for x in out if x]
        name = vs[v[1]]["n"] if len(vs) > 1 else ""
        return name + ("(%s)" % ",".join(out) if out else "")

    def forshape(self, n, head):
        g = self.g
        h = g.d(head)
        if n == "For":
            if h == NONE:
                return "For:-"
            h = g.d(h[2][0]) if h[0] == "A" else h
        return n + ":" + (g.vn(n + "Head", h) or "_")

    def ntshape(self, it):
        n = self.c.ntname(it)
        a = it[2][3][2]
        if n in ("more_for", "more_for_in", "more_for_of"):
            return self.forshape({"more_for": "For", "more_for_in": "ForIn", "more_for_of": "ForOf"}[n], a[0])
        if n in ("for_var", "for_let", "for_const", "for_expr"):
            return "For:" + n[4:].capitalize()
        if n in ("more_suffixes", "more_new_expression", "more_infix_expressions", "more_conditional", "more_assignment", "more_expressions"):
            return self.shape(self.c.ty("easter::expr::Expr"), a[-1])
        for k in ("_statement", "_declaration"):
            if n.endswith(k):
                n = n[:-len(k)]
                return {"do": "DoWhile", "continue": "Cont", "labelled": "Label", "function": "Fun", "expression": "Expr"}.get(n, n.capitalize())
        return "_"

    def complete(self, name):
        """Every form is produced, and a semicolon is inserted wherever one may be left out."""
        c, u = self.c, self.u
        got = self.shapes.get(name, {})
        self.forms = self.asi = 0
        if u.und:
            return
        for f in FORMS.get(name, "").split():
            self.forms += 1
            if f not in got and not (f.endswith("_") and len(f) == 1):
                u.bad("form|" + f, "nothing is parsed as %s" % f, name, missing=True)
        dv = u.p.tys[c.dataty].d["vars"]
        every = 0
        for x in dv:
            every |= c.e.cd.of(x["d"])
        of = {x["n"]: c.e.cd.of(x["d"]) for x in dv}
        for f, looks in got.items():
            if "Inserted" not in f or None in looks or name == "match_directive_opt":
                continue
            self.asi += 1
            same = later = 0
            for m, a, b in looks:
                m = every if m is None else m
                same |= m if a else 0
                later |= m if b else 0
            want = of["RBrace"] | of["EOF"] if name != "do_statement" else every & ~of["Semi"]
            for n, w, g in (("on the same line", want, same), ("on the next line", every & ~of["Semi"], later)):
                miss = [x for x in of if of[x] & w & ~g]
                if miss:
                    u.bad("asi|%s|%s" % (f, n), "%s is not accepted before %s %s" % (f, ", ".join(miss[:4]), n), name, missing=True)

    def ended(self, s, opt):
        """A string at the start of a statement is a directive exactly if the statement ends after it."""
        c, u, g = self.c, self.u, self.g
        lk = c.seq(s, LOOK)
        if opt[0] != "A" or not lk:
            return
        vs = [(x["n"], c.e.cd.of(x["d"])) for x in u.p.tys[c.dataty].d["vars"]]
        if opt[1] == 0:
            if len(lk) != 2 or g.variant_of("Data", g.n(c.val(s, lk[0]))[2][2]) != "String":
                return
            m, _, later = self.look(s, 1)
            w = [n for n, k in vs if m is not None and k & m and (n in ENDING or later and n in STARTING)]
            if w:
                u.bad("name|directive|refused", "a string is not taken as a directive although the statement ends before %s" % ", ".join(w[:4]),
                      "match_directive_opt", s)
        else:
            m, _, later = self.look(s)
            w = [n for n, k in vs if m is not None and k & m and later and n in CONTINUING]
            if w:
                u.bad("name|directive|taken", "a string is taken as a directive although the expression goes on with %s" % ", ".join(w[:4]),
                      "match_directive_opt", s)

    def look(self, s, at=0):
        """What is known of the token after the node: (kinds, may follow on the same line, may follow on another line)."""
        c, g = self.c, self.g
        lk = c.seq(s, LOOK)
        if not lk:
            return None
        t = g.n(c.val(s, lk[at]))
        lo, hi = c.e.bounds(s, t[2][1])
        d = t[2][2]
        m = c.e.cd.of(c.u.p.tys[c.dataty].d["vars"][d[1]]["d"]) if d[0] == "A" else c.e.charset(s, c.e.lazy_disc(s, d[1]))
        return (m, lo == 0, hi == 1)

    def one(self, it):
        g = self.g
        if it[1] == 1:
            return "<%s>" % self.c.ntname(it)
        d = g.n(it[2][0])[2][2]
        n = g.variant_of("Data", d)
        if n == "Reserved":
            n = g.variant_of("Reserved", g.payload(d)) or n
        return n or "?"

    def text(self):
        return " ".join(self.one(it) for it in self.g.tr)


# after a complete operand: what ends the statement, what can only start another one (on a new line), and what goes on
ENDING = ("Semi", "RBrace", "EOF")
STARTING = ("Inc", "Dec", "Identifier", "Number", "String", "RegExp", "LBrace", "Bang", "Tilde")
CONTINUING = ("LParen", "LBrack", "Dot", "Comma", "Question", "LAngle", "RAngle", "LEq", "GEq", "Eq", "NEq", "StrictEq", "StrictNEq", "Plus",
              "Minus", "Star", "Mod", "Slash", "LShift", "RShift", "URShift", "BitAnd", "BitOr", "BitXor", "LogicalAnd", "LogicalOr")
RESERVED = ("Implements", "Interface", "Let", "Package", "Private", "Protected", "Public", "Static", "Yield")


class Names(Run):
    """What becomes of a name: new_id and the deferred checks."""

    def __init__(self):
        Run.__init__(self)
        self.cases = 0

    def possible(self, s, v, n=2):
        """The values of a discriminant or flag that a path allows."""
        c, e = self.c, self.c.e
        if v[0] == "A":
            return {v[1]}
        if v[0] == "o":
            k = s.facts.get(("var", v[1]))
            if k is not None:
                return {k}
            vs = self.u.p.tys[s.attr[v[1]][1]].d["vars"]
            if len(vs) < e.lazy:
                return set(range(len(vs)))
            m = e.charset(s, e.lazy_disc(s, v[1]))
            return {i for i, x in enumerate(vs) if m is None or m & e.cd.of(x["d"])}
        lo, hi = e.bounds(s, v)
        return set(range(max(lo, 0), min(hi, n - 1) + 1))

    def new_id(self):
        c, u, e = self.c, self.u, self.c.e
        c.root = "new_id"
        e.unroll = 3
        inst = c.inst("new_id")[0]
        raw = u.p.insts[inst].raw
        tys = raw["locals"][1:1 + raw["argc"]]
        st, r = c.start()
        args = [r] + [u.sym(st, t) for t in tys[1:]]
        st.g["entry"] = c.val(st, r)
        st.g["nterr"] = st.g["lexerr"] = NONE
        st.g["in"] = ("A", 0, tuple(args[1:]))
        an, en = c.names(c.atomty), c.names(c.errty)
        gn, sn = c.names(c.ty("esprit::context::Goal")), c.names(c.ty("TriState"))
        kn = c.names(c.ty("esprit::error::Check"))
        for s, v in u.paths_of("new_id", st, args, inst=inst):
            self.g.begin(s, "new_id")
            g = self.g
            bind, nm, loc = s.g["in"][2]
            p0 = s.g["entry"][2]
            strict, goal, validate = p0[4][2][c.cfields.index("strict")], p0[c.pfields.index("goal")], p0[c.pfields.index("validate")]
            ev = v[2][0] if v[1] == 1 else None
            q = g.n(c.val(s, r)[2][c.pfields.index("deferred")])
            defer = [g.d(x[1]) for x in q[2]]
            if ev is None:
                iv = g.n(v[2][0])
                if g.n(iv[2][1]) != g.n(nm) or g.d(iv[2][0]) != g.n(("A", 1, (loc,))):
                    u.bad("name|kept", "the identifier is not the name read at its place", "new_id", s)
            n = g.n(nm)
            names = self.possible(s, n)
            atoms = set()
            nv = c.names(c.namety)
            if nv.index("Atom") in names:
                w = s.facts.get(("exp", nm[1])) if nm[0] == "o" else n
                atoms = self.possible(s, g.n(w[2][0])) if w is not None and w[1] == nv.index("Atom") else set(range(len(an)))
            cand = [an[i] for i in atoms] + ([None] if len(names) > 1 or nv.index("Atom") not in names else [])
            for a in cand:
                for b in self.possible(s, bind):
                    for k in self.possible(s, g.n(strict)):
                        for go in self.possible(s, g.n(goal)):
                            for va in self.possible(s, validate):
                                self.cases += 1
                                self.one_name(s, a, b, sn[k], gn[go], va, ev, defer, en, kn, an, loc)

    def one_name(self, s, a, b, strict, goal, va, ev, defer, en, kn, an, loc):
        if strict == "No" and goal != "Script" or goal == "Module" and strict != "Yes" or not va:
            return
        want, kind = None, None
        if strict != "No":
            if b and a in ("Eval", "Arguments"):
                want, kind = "IllegalStrictBinding", "Strict"
            elif a in RESERVED:
                want, kind = "ContextualKeyword", "Strict"
            elif a == "Await":
                want, kind = "ContextualKeyword", "Module"
        now = kind == "Strict" and strict == "Yes" or kind == "Module" and goal == "Module"
        later = kind is not None and not now and not (kind == "Module" and goal == "Script")
        where = "the name %s%s (strict: %s, goal: %s)" % (a or "that is no keyword", ", bound," if b else "", strict, goal)
        g = self.g

        def is_(x):
            x = g.d(x)
            if x[0] != "A" or en[x[1]] != want:
                return False
            at = g.n(x[2][1])
            return g.n(x[2][0]) == g.n(loc) and (at[0] == "o" or an[at[1]] == a)
        if now and (ev is None or not is_(ev)):
            self.u.bad("name|accepted|%s|%s" % (want, kind), "%s is not rejected" % where, "new_id", s)
        elif not now and ev is not None:
            self.u.bad("name|rejected|%s" % kind, "%s is rejected" % where, "new_id", s)
        elif later and not (len(defer) == 1 and kn[defer[0][1]] == kind and is_(defer[0][2][0])):
            self.u.bad("name|forgotten|%s|%s" % (want, kind), "%s is not kept for the check once the goal is known" % where, "new_id", s)
        elif not later and not now and defer:
            self.u.bad("name|deferred|%s" % kind, "%s is kept for a check it does not need" % where, "new_id", s)

    def perform(self):
        c, u, e = self.c, self.u, self.c.e
        c.root = "perform"
        l = [i for n, v in c.byname.items() if n.endswith("esprit::error::Check::perform") or n.endswith("error::Check::perform") for i in v]
        if not l:
            raise Unmodelled("no function Check::perform")
        raw = u.p.insts[l[0]].raw
        tys = raw["locals"][1:1 + raw["argc"]]
        kn = c.names(tys[0])
        for k in range(len(kn)):
            st, r = c.start()
            st.g["entry"] = c.val(st, r)
            x = e.expand(st, u.sym(st, tys[0]), k)
            m = u.sym(st, tys[1])
            st.g["in"] = ("A", 0, (x, m))
            for s, v in u.paths_of("perform", st, [x, m], inst=l[0]):
                self.g.begin(s, "perform")
                x, m = s.g["in"][2]
                for mod in self.possible(s, m):
                    self.cases += 1
                    bad = kn[k] == "Strict" or mod
                    if bad != (v[1] == 1):
                        u.bad("name|perform|" + kn[k], "a check deferred for %s code is %s as %s" % (
                            kn[k].lower(), "passed" if bad else "failed", "a module" if mod else "strict code"), "perform", s)
                    if v[1] == 1 and self.g.d(v[2][0]) != self.g.n(x[2][0]):
                        u.bad("name|perform|error", "a deferred check reports another error than was found", "perform", s)


EXPRS = ("Expr", "Arguments", "ExprListItem", "Prop")
EARLY = ("Break", "Cont", "Return", "semicolon", "restricted", "postfix", "switch", "stmt_list_item")


def category(v):
    """The property a violation belongs to."""
    root, _, key = v["key"].partition("|")
    k = key.split("|")
    if k[0] == "faithful":
        return "P01" if NTS.get(root, ("",))[0] in EXPRS else "P02"
    if k[0] == "context":
        if k[1] == "operators":
            return "P01"
        if key.split("|")[2].startswith("strict is "):
            return "P08"
        if k[1] == "narrow":
            return "P07"
        if k[1] == "function_body" and "parameters" in key or k[1] == "program":
            return "P08"
        return "P04" if k[1] in EARLY else "P03"
    if k[0] in ("restore", "mode"):
        return "P03"
    if k[0] in ("goal", "pushback", "pushback full", "no lookahead", "lookahead", "entry"):
        return "P05"
    if k[0] in ("form", "asi"):
        return "P07"
    if k[0] == "name":
        return "P08"
    return "P06"


WORKER = [None]


def job(name):
    c = WORKER[0]
    if c is None:
        c = WORKER[0] = Run()
    u = c.u
    u.und, u.viol, u.roots = {}, {}, 0
    c.c.e.truncated = 0
    o = u.paths
    c.shapes = {}
    c.forms = c.asi = 0
    try:
        c.analyse(name)
    except Unmodelled as x:
        u.und["%s: %s" % (name, x)] = 1
    return (name, list(u.viol.values()), sorted(u.und), u.paths - o, c.oks, c.goaled, c.forms, c.asi, c.c.e.truncated,
            sorted(n for n in u.fns if "esprit" in n))


WHAT = {
    "P01": "for every expression node returned, the tokens and nonterminals consumed are matched against the productions of that node",
    "P02": "for every statement, declaration, pattern and body returned, the tokens and nonterminals consumed are matched against its productions",
    "P03": "at every nonterminal, the parsing context is compared with the one its place has; at every return, with the one at the call",
    "P04": "every node that is only legal under a condition is returned only where the path implies the condition",
    "P05": "every token fetched from the lexer is fetched with the lexical goal of its place, and the lookahead is used as a queue of read tokens",
    "P06": "every error of a part is returned unchanged, and no path reaches a panic",
    "P07": "every form of every node is returned on some path, parts are parsed as the widest nonterminal, and semicolons may be left out wherever allowed",
    "P08": "every name is checked as bound or used, and the outcome for every word, strictness and goal is compared with the standard's",
}


def run(prop):
    def f(tier):
        from multiprocessing import Pool
        base = Run()
        WORKER[0] = None
        names = base.roots()
        slow = [n for n in ("unary_expression", "more_new_expression", "more_infix_expressions", "more_suffixes") if n in names]
        names = slow + [n for n in names if n not in slow]
        r = Result()
        tot = [0] * 6
        roots = {}
        fns = set()
        with Pool(min(8, os.cpu_count() or 1)) as p:
            for n, viol, und, paths, oks, goaled, forms, asi, cut, fs in p.imap_unordered(job, names, chunksize=1):
                r.violations += [v for v in viol if category(v) == prop]
                r.undecided += und
                for i, x in enumerate((paths, oks, goaled, forms, asi, cut)):
                    tot[i] += x
                roots[n] = {"paths": paths, "nodes": oks, "beyond_bound": cut}
                fns.update(fs)
        cases = 0
        if prop == "P08":
            c = Names()
            for m in ("new_id", "perform"):
                try:
                    getattr(c, m)()
                except Unmodelled as x:
                    c.u.und["%s: %s" % (m, x)] = 1
            r.violations += [v for v in c.u.viol.values() if category(v) == "P08"]
            r.undecided += sorted(c.u.und)
            cases = c.cases
            import props_ast
            a = props_ast.CHECKS["A06"](tier)
            r.violations += [v for v in a.violations if v["key"].partition("|")[0].endswith("pragma") or "pragma" in v["key"]]
            r.undecided += [x for x in a.undecided if "pragma" in x]
            fns.update(n for n in c.u.fns if "esprit" in n)
        missing = sorted(n for n in NTS if n not in base.c.cuts)
        r.undecided = sorted(set(r.undecided)) + ["no procedure %s to state a contract for; it is analysed where it is called" % n for n in missing]
        if not tot[0]:
            r.violations.append({"key": "floor", "msg": "nothing could be analysed"})
        r.coverage = {
            "explanation": "Abstract execution of the parser's compiled MIR, one procedure at a time over an opaque token stream, the others "
                           "replaced by their contracts: %d procedures, %d paths, %d of which return a node; rule: %s. Loops are followed up "
                           "to %d times (fewer in %s); %d continuations beyond that are not covered." % (
                               len(roots), tot[0], tot[1], WHAT[prop], 3, ", ".join(sorted(UNROLL)), tot[5]),
            "procedures": roots, "paths": tot[0], "nodes": tot[1], "tokens_fetched": tot[2], "forms": tot[3], "asi_unions": tot[4], "cases": cases,
            "functions": sorted(fns)[:120], "source_hash": base.c.hash[:16]}
        r.assumptions = ["the lexer's interface (peek/read/repeek/reread/skip/unread) is a token queue filled by the lexical goal, as C01-C13 decide for joker",
                         "a procedure called is taken to satisfy the contract it is itself analysed against",
                         "covers, operator tables and builders of easter are as A04-A06 decide",
                         "std's containers and strings behave as modelled in sa/models.py"]
        return r
    return f


CHECKS = {k: run(k) for k in WHAT}
