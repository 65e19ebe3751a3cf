"""Observer for the ECMAScript tokenizer: a finite control automaton plus registers that follow
the consumed characters, and the verdict checks at the API boundary.

The observer sees which fetched characters have left the lexer object ("consumed"), steps the
lexical grammar over them, and knows at every return which token (or error) the grammar
prescribes."""
from engine import (C, FALSE, TRUE, TOP, Infeasible, S, Unmodelled, isconst, ladd, lmul, lit, parts_const, st_sub, symv, syms_of)
from models import digit_mask, digit_value, char_of, match_lit

RESERVED = ("null true false break case catch class const continue debugger default delete do else export extends "
            "finally for function if import in instanceof new return super switch this throw try typeof var void "
            "while with enum").split()
ATOMS = ("arguments async await eval from get implements interface let of package private protected public set "
         "static target yield").split()
PUNCT = {
    "{": "LBrace", "}": "RBrace", "(": "LParen", ")": "RParen", "[": "LBrack", "]": "RBrack", ".": "Dot",
    "...": "Ellipsis", ";": "Semi", ",": "Comma", "<": "LAngle", ">": "RAngle", "<=": "LEq", ">=": "GEq", "==": "Eq",
    "!=": "NEq", "===": "StrictEq", "!==": "StrictNEq", "+": "Plus", "-": "Minus", "*": "Star", "%": "Mod",
    "/": "Slash", "++": "Inc", "--": "Dec", "<<": "LShift", ">>": "RShift", ">>>": "URShift", "&": "BitAnd",
    "|": "BitOr", "^": "BitXor", "!": "Bang", "~": "Tilde", "&&": "LogicalAnd", "||": "LogicalOr", "?": "Question",
    ":": "Colon", "=": "Assign", "+=": "PlusAssign", "-=": "MinusAssign", "*=": "StarAssign", "/=": "SlashAssign",
    "%=": "ModAssign", "<<=": "LShiftAssign", ">>=": "RShiftAssign", ">>>=": "URShiftAssign", "&=": "BitAndAssign",
    "|=": "BitOrAssign", "^=": "BitXorAssign", "=>": "Arrow",
}
NEWLINES = [0x0A, 0x0D, 0x2028, 0x2029]
# WhiteSpace: TAB VT FF SP NBSP ZWNBSP and category Zs
SPACES = [0x09, 0x0B, 0x0C, 0x20, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
          0x2009, 0x200A, 0x202F, 0x205F, 0x3000, 0xFEFF]
ESCAPES = {"n": 0x0A, "r": 0x0D, "t": 0x09, "b": 0x08, "v": 0x0B, "f": 0x0C}

SPEC_CHARS = NEWLINES + SPACES + [0x200C, 0x200D]


class LexMonitor:
    """`cell` is the heap cell holding the Lexer under analysis."""

    def __init__(self, eng, cell, lexer_ty):
        self.e = eng
        self.cell = cell
        self.lty = lexer_ty
        cd = eng.cd
        self.cd = cd
        s = cd.set
        self.NL = s(NEWLINES)
        self.WS = s(SPACES)
        self.IDS = cd.pred["id_start"] | s("$_")
        self.IDC = cd.pred["id_continue"] | s("$_") | s([0x200C, 0x200D])
        self.DIG = digit_mask(eng, 10)
        self.OCT = digit_mask(eng, 8)
        self.follow = False     # keep analysing an execution that has left the grammar
        eng.keep_musts = (self.DIG & ~self.OCT,)
        self.HEX = digit_mask(eng, 16)
        self.BIN = digit_mask(eng, 2)
        self.ALL = cd.ALL
        self.LF = s([0x0A])
        self.CR = s([0x0D])
        pf = set()
        for p in PUNCT:
            for i in range(1, len(p) + 1):
                pf.add(p[:i])
        pf |= {"<!", "<!-"}
        self.prefixes = pf
        self.focus = None
        first = s("".join(p[0] for p in PUNCT)) & ~s("/<-.")
        self.START = {"ident": self.IDS | s("\\"), "number": self.DIG, "string": s("\"'"), "punct": first}
        self.START["punct"] |= self.ALL & ~(self.WS | self.NL | self.IDS | self.DIG | s("\"'\\/<-.") | first)
        self.trans_cache = {}
        self.types()

    # -------------------------------------------------------------- types
    def types(self):
        p = self.e.p
        self.T = {}
        for n in ("Token", "TokenData", "Span", "Posn", "NumberLiteral", "StringLiteral", "RegExpLiteral", "NumberSource",
                  "Exp", "Radix", "CharCase", "Sign", "Name", "Atom", "Reserved", "Error"):
            for t in p.tys:
                if t.k == "adt" and t.d["name"].split("::")[-1] == n and "joker" in t.d["name"]:
                    self.T[n] = t
                    break
            else:
                raise Unmodelled("type %s not found" % n)
        self.V = {}
        for n, t in self.T.items():
            self.V[n] = {v["n"]: i for i, v in enumerate(t.d["vars"])}

    def fld(self, v, tn, name, variant=None):
        t = self.T[tn]
        vi = 0 if variant is None else self.V[tn][variant]
        for i, f in enumerate(t.d["vars"][vi]["f"]):
            if f["n"] == name:
                return v[2][i]
        raise Unmodelled("field %s of %s" % (name, tn))

    def vname(self, v, tn):
        return self.T[tn].d["vars"][v[1]]["n"]

    # -------------------------------------------------------------- consumption
    def chars_in(self, v, ty, acc):
        """Character symbols stored in the lexer object outside tokens."""
        t = self.e.p.tys[ty]
        if v[0] == "i":
            if t.k == "char" and v[1]:
                acc.append(v[1][0][0])
            return
        if t.k == "adt":
            last = t.d["name"].split("::")[-1]
            if last in ("Token", "TokenData", "Error"):
                return
            if v[0] in ("dq", "q"):
                et = t.d["args"][0] if t.d["args"] else None
                for x in v[2]:
                    if x[0] == "e" and et is not None:
                        self.chars_in(x[1], et, acc)
                return
            if v[0] == "A":
                fs = t.d["vars"][v[1]]["f"]
                for x, f in zip(v[2], fs):
                    self.chars_in(x, f["t"], acc)
            return
        if t.k == "tuple" and v[0] == "A":
            for x, f in zip(v[2], t.d["f"]):
                self.chars_in(x, f, acc)
        elif t.k == "array" and v[0] == "q":
            for x in v[2]:
                self.chars_in(x[1], t.d["e"], acc)

    def sync(self, e, st):
        """Step the observer over newly consumed characters; may split the state."""
        if "m" not in st.g:
            return [st]
        acc = []
        self.chars_in(st.heap[self.cell], self.lty, acc)
        held = set(acc)
        win = st.g["win"][2]
        k = 0
        n = len(win)
        rest = [x for x in win if x[1][1] and x[1][1][0][0] in held]
        k = n - len(rest)
        if list(win[k:]) != rest:
            if not st.g.get("bad"):
                self.viol(st, "stream", "a fetched character is dropped from the lookahead buffer out of order")
                st.g["bad"] = TRUE
            return [st] if self.follow else []
        out = [st]
        for _ in range(k):
            nxt = []
            for s in out:
                for s2 in self.consume(s):
                    nxt.extend(self.settle(s2) if s2.g["m"][1] == "SL" else [s2])
            out = nxt
        if k and not self.follow:
            for s in out:
                if s.g["m"][1] == "BAD":
                    self.viol(s, self.KINDS[s.g["m"][2]], "a character that does not belong to the lexeme is consumed (in %s)" % s.g["m"][2])
            out = [s for s in out if s.g["m"][1] != "BAD"]
        res = []
        for s in out:
            res.extend(self.settle(s))
        if self.focus is not None:
            res = [s for s in res if self.in_focus(s)]
        for s in res:
            self.normalise(s)
            self.general_pos(s)
            if s.g["m"][1] in ("T", "LC", "BC"):
                self.merge_marks(s)
                for k in [k for k in s.g if k == "start" or k.startswith("r_")]:
                    del s.g[k]
        return res

    def entry_pos(self, st):
        """Coordinates at the entry of a summarised function become plain symbols, so that entry
        states differ in symbols only.  Returns the symbols introduced with their old values."""
        pos = st.g["pos"][2]
        begun = []
        if "start" in st.g and st.fr:
            held = set()
            for v in st.fr[-1].loc.values():
                held |= set(syms_of(v))
            old = st.g["start"][2]
            if not any(x in held for v in old for x in syms_of(v)):
                # where the lexeme began matters to the caller only
                fresh = [self.e.newsym(st, ("n", 0, 1 << 31, True)) for v in old]
                st.g["start"] = ("A", 0, tuple(symv(x) for x in fresh))
                begun = list(zip(fresh, old))
        # coordinates become plain symbols, so that entry states differ in symbols only
        shift = {}
        for v in pos:
            if len(v[1]) == 1 and v[1][0][1] == 1 and v[2] and v[1][0][0] not in shift:
                x = v[1][0][0]
                at = st.attr[x]
                if at[0] == "n":
                    y = self.e.newsym(st, ("n", max(0, at[1] + v[2]), at[2] + v[2], at[3]))
                    begun.append((y, v))
                    shift[x] = ladd(symv(y), C(-v[2]))
        if shift:
            st_sub(st, shift)
        return begun + self.general_pos(st)

    def general_pos(self, st):
        """A constant ghost coordinate that the lexer's own position also holds becomes an arbitrary
        one (still equal on both sides).  Returns the symbols introduced with their old values."""
        pos = st.g["pos"][2]
        if not any(isconst(x) for x in pos):
            return []
        names = [f["n"] for f in self.T["Posn"].d["vars"][0]["f"]]
        want = dict(zip(("offset", "line", "column"), pos))
        found = []

        def walk(v, ty):
            t = self.e.p.tys[ty]
            if v[0] == "A" and t.k == "adt":
                if t.id == self.T["Posn"].id:
                    found.append(v)
                    return ("A", 0, tuple(new.get(n, x) for n, x in zip(names, v[2])))
                fs = t.d["vars"][v[1]]["f"]
                return ("A", v[1], tuple(walk(x, f["t"]) for x, f in zip(v[2], fs)))
            return v
        new = {}
        walk(st.heap[self.cell], self.lty)
        if len(found) != 1 or sorted(names) != ["column", "line", "offset"]:
            return []
        for n, x in zip(names, found[0][2]):
            if isconst(want[n]) and x == want[n]:
                new[n] = symv(self.e.newsym(st, ("n", 0, 1 << 31, True)))
        if new:
            st.heap[self.cell] = walk(st.heap[self.cell], self.lty)
            st.g["pos"] = ("A", 0, tuple(new.get(n, want[n]) for n in ("offset", "line", "column")))
        return [(v[1][0][0], want[n]) for n, v in new.items()]

    def normalise(self, st):
        """Replace one-element character symbols outside the lookahead window by constants."""
        w = {x[1][1][0][0] for x in st.g["win"][2] if x[1][1]}
        f = {}
        for s, a in st.attr.items():
            if a[0] == "c" and s not in w:
                v = self.cd.single(a[1])
                if v is not None:
                    f[s] = C(v)
            elif a[0] == "n" and a[1] == a[2]:
                f[s] = C(a[1])
        if f:
            from engine import st_sub
            st_sub(st, f)

    def consume(self, st):
        """Consume the first window character."""
        win = st.g["win"]
        c = win[2][0][1]
        mask = self.e.charset(st, c)
        m = st.g["m"]
        rules = self.trans(m, st.g.get("op"))
        out = []
        hit = [(r, a) for r, a in rules if r & mask]
        for i, (r, act) in enumerate(hit):
            n = st if i == len(hit) - 1 else st.copy()
            if c[1] and mask & ~r:
                n.attr[c[1][0][0]] = ("c", mask & r)
            n.g["win"] = ("q", "w", win[2][1:])
            n.g["so"] = FALSE
            pre = n.g["pos"]
            for n2 in self.advance(n, c):
                for x in act(n2, c, pre):
                    out.append(x)
        return out

    def advance(self, st, c):
        """Update the ghost source position past c."""
        # a pending carriage return is resolved by the character that follows it
        mask = self.e.charset(st, c)
        off, line, col = st.g["pos"][2]
        outs = []
        if st.g.get("cr") == TRUE:
            for n, islf in self.split(st, c, self.LF):
                off, line, col = n.g["pos"][2]
                if not islf:
                    n.g["pos"] = ("A", 0, (off, ladd(line, C(1)), C(0)))
                else:
                    n.g["pos"] = ("A", 0, (off, line, ladd(col, C(1))))
                n.g["cr"] = FALSE
                outs.append(n)
        else:
            # 2 and 3: settled, and kept apart until this character is consumed
            st.g["cr"] = FALSE
            outs = [st]
        res = []
        for s in outs:
            for n, iscr in self.split(s, c, self.CR):
                off, line, col = n.g["pos"][2]
                off = ladd(off, C(1))
                if iscr:
                    n.g["pos"] = ("A", 0, (off, line, col))
                    n.g["cr"] = TRUE
                    res.extend(self.settle_cr(n))
                    continue
                for n2, isnl in self.split(n, c, self.NL):
                    if isnl:
                        n2.g["pos"] = ("A", 0, (off, ladd(line, C(1)), C(0)))
                    else:
                        n2.g["pos"] = ("A", 0, (off, line, ladd(col, C(1))))
                    res.append(n2)
        return res

    def in_focus(self, st):
        """Restrict the analysis to lexemes of the chosen classes (trivia is always followed)."""
        m = st.g["m"]
        k = m[1]
        if k == "T":
            w = st.g["win"][2]
            if w:
                c = self.e.charset(st, w[0][1])
                for n, mask in self.START.items():
                    if n not in self.focus:
                        c &= ~mask
                if not c:
                    return False
                if c & self.cd.set(".") == c and "punct" not in self.focus:
                    d = self.pk(st, 1)
                    if "number" not in self.focus or d is not None and not d & self.DIG:
                        return False
                if c & self.cd.set(".") == c and "number" not in self.focus:
                    d = self.pk(st, 1)
                    if d and not d & ~self.DIG:
                        return False
            return True
        if k in ("LC", "BC", "SL", "BAD", "ANY"):
            return True
        if k == "P":
            return "punct" in self.focus or m[4] in ("<", "<!", "<!-", "-", "--") or m[4] == "." and "number" in self.focus
        return self.KINDS[k] in self.focus

    def merge_marks(self, st):
        """Drop the marks that only keep settled outcomes apart, once the lexer has settled too."""
        vs = []
        self.find_posn(st.heap[self.cell], self.lty, vs)
        if len(vs) != 1 or self.posn(vs[0]) != st.g["pos"]:
            return
        if st.g.get("cr") not in (None, TRUE):
            st.g["cr"] = FALSE
        if "so" in st.g:
            st.g["so"] = FALSE

    def irrelevant(self, st):
        """Forget what cannot matter for the lexeme that starts with the next character."""
        g = st.g
        if "m" in g and self.focus is not None and not self.in_focus(st):
            raise Infeasible()
        if "m" not in g or not g["win"][2]:
            return
        k = self.e.charset(st, g["win"][2][0][1])
        m = g["m"]
        s = self.cd.set
        if m[1] == "T" and k & (self.WS | self.NL):
            return
        if m[1] == "T" and not k & s("/-<"):
            g["m"] = ("m", "T", 0, 0)
        if m[1] not in ("T", "LC", "BC", "SL") or m[1] == "T" and not k & s("/<-"):
            g["op"] = TRUE

    def find_posn(self, v, ty, acc):
        t = self.e.p.tys[ty]
        if v[0] == "A" and t.k == "adt":
            if t.id == self.T["Posn"].id:
                acc.append(v)
                return
            for x, f in zip(v[2], t.d["vars"][v[1]]["f"]):
                self.find_posn(x, f["t"], acc)

    def settle_cr(self, st):
        if st.g.get("cr") != TRUE:
            return [st]
        win = st.g["win"][2]
        off, line, col = st.g["pos"][2]
        if not win:
            if st.g["eof"] == TRUE:
                st.g["pos"] = ("A", 0, (off, ladd(line, C(1)), C(0)))
                st.g["cr"] = C(3)
            return [st]
        out = []
        for n, islf in self.split(st, win[0][1], self.LF):
            if islf:
                n.g["pos"] = ("A", 0, (off, line, ladd(col, C(1))))
            else:
                n.g["pos"] = ("A", 0, (off, ladd(line, C(1)), C(0)))
            n.g["cr"] = C(2 if islf else 3)
            out.append(n)
        return out

    def split(self, st, c, mask):
        m = self.e.charset(st, c)
        if m is None:
            raise Unmodelled("class of computed character")
        if not m & mask:
            return [(st, False)]
        if not m & ~mask:
            return [(st, True)]
        n = st.copy()
        n.attr[c[1][0][0]] = ("c", m & ~mask)
        st.attr[c[1][0][0]] = ("c", m & mask)
        return [(st, True), (n, False)]

    # -------------------------------------------------------------- automaton
    def setm(self, st, *m):
        st.g["m"] = ("m",) + m
        return [st]

    def app(self, st, reg, c):
        r = st.g.get(reg)
        st.g[reg] = ("q", "c", (r[2] if r else ()) + (("e", c),))

    REGS = ("r_text", "r_cook", "r_int", "r_frac", "r_exp", "r_digits", "r_body", "r_flags", "r_name", "r_cp")

    def clear(self, st):
        for r in self.REGS:
            st.g.pop(r, None)

    def trans(self, m, op):
        k = (m, op if m[1] == "SL" else None)
        r = self.trans_cache.get(k)
        if r is None:
            r = self.trans_cache[k] = self._trans(m[1], m[2:], op == TRUE)
        return r

    def _trans(self, k, a, op):
        cd, s = self.cd, self.cd.set
        ALL = self.ALL
        me = self

        def to(*m):
            return lambda st, c, pre: me.setm(st, *m)

        def rest(rules):
            m = ALL
            for r, _ in rules:
                m &= ~r
            return m

        def add(reg, *m):
            def f(st, c, pre):
                me.app(st, reg, c)
                return me.setm(st, *m)
            return f

        def tonl(*m):
            def f(st, c, pre):
                st.g["nl"] = TRUE
                return me.setm(st, *m)
            return f

        bad = to("BAD", k)
        if k == "T":
            nl, ls = a

            def begin(*m, **kw):
                def f(st, c, pre):
                    me.clear(st)
                    st.g["start"] = pre
                    for reg in kw.get("new", ()):
                        st.g[reg] = ("q", "c", ())
                    for reg in kw.get("regs", ()):
                        me.app(st, reg, c)
                    return me.setm(st, *m)
                return f
            rules = [(me.WS, to("T", nl, ls)), (me.NL, tonl("T", 0, 1))]
            rules.append((s("/"), begin("SL", nl, ls)))
            for p in sorted({p[0] for p in PUNCT} - {"/"}):
                rules.append((s(p), begin("P", nl, ls, p)))
            rules.append((s("0"), begin("N0", nl, regs=["r_int"])))
            rules.append((me.DIG & ~s("0"), begin("ND", nl, 0, regs=["r_int"])))
            for q in "\"'":
                rules.append((s(q), begin("STR", nl, ord(q), regs=["r_text"], new=["r_cook"])))
            rules.append((s("\\"), begin("IE", nl, 1, new=["r_name"])))
            rules.append((me.IDS, begin("ID", nl, 0, regs=["r_name"])))
            rules.append((rest(rules), bad))
            return rules
        if k == "LC":
            nl, ls = a
            return [(me.NL, tonl("T", 0, 1)), (ALL & ~me.NL, to("LC", nl, ls))]
        if k == "BC":
            nl, ls, star = a
            rules = [(s("*"), to("BC", nl, ls, 1)), (me.NL, tonl("BC", 0, 1, 0))]
            if star:
                def endc(st, c, pre):
                    st.g.pop("start", None)
                    return me.setm(st, "T", nl, ls)
                rules.append((s("/"), endc))
            rules.append((rest(rules), to("BC", nl, ls, 0)))
            return rules
        if k == "SL":
            nl, ls = a
            rules = [(s("/"), to("LC", nl, ls)), (s("*"), to("BC", nl, ls, 0))]
            if op:
                rules.append((s("="), to("P", nl, ls, "/=")))
                rules.append((rest(rules), bad))
                return rules
            return rules + [(r & rest(rules), f) for r, f in self._trans("RE", (nl, 0), op)]
        if k == "P":
            nl, ls, t = a
            rules = []
            if t == "<!-":
                rules.append((s("-"), to("LC", nl, ls)))
            if t == "--" and ls:
                rules.append((s(">"), to("LC", nl, ls)))
            for p in sorted(self.prefixes):
                if len(p) == len(t) + 1 and p.startswith(t):
                    rules.append((s(p[-1]), to("P", nl, ls, p)))
            if t == ".":
                rules.append((me.DIG, add("r_frac", "NF", nl, 0)))
            rules.append((rest(rules), bad))
            return rules
        if k == "N0":
            nl, = a
            rules = []
            for ch, rx in (("x", 16), ("o", 8), ("b", 2)):
                rules.append((s(ch), to("NR", nl, rx, "LowerCase", 0)))
                rules.append((s(ch.upper()), to("NR", nl, rx, "UpperCase", 0)))
            rules.append((me.OCT, add("r_int", "NLO", nl)))
            rules.append((me.DIG & ~me.OCT, add("r_int", "ND", nl, 1)))
            return self._numtail(rules, nl, rest, to, bad)
        if k == "NLO":
            nl, = a
            rules = [(me.OCT, add("r_int", "NLO", nl)), (me.DIG & ~me.OCT, add("r_int", "ND", nl, 1))]
            rules.append((rest(rules), bad))
            return rules
        if k == "ND":
            nl, zero = a
            return self._numtail([(me.DIG, add("r_int", "ND", nl, zero))], nl, rest, to, bad)
        if k == "NF":
            nl, hi = a
            rules = [(me.DIG, add("r_frac", "NF", nl, hi))]
            for ch, cc in (("e", "LowerCase"), ("E", "UpperCase")):
                rules.append((s(ch), to("NE", nl, 1, hi, cc, 0, 0)))
            rules.append((rest(rules), bad))
            return rules
        if k == "NE":
            nl, dot, hi, cc, sign, nd = a
            rules = [(me.DIG, add("r_exp", "NE", nl, dot, hi, cc, sign, 1))]
            if not sign and not nd:
                rules.append((s("+"), to("NE", nl, dot, hi, cc, 1, 0)))
                rules.append((s("-"), to("NE", nl, dot, hi, cc, 2, 0)))
            rules.append((rest(rules), bad))
            return rules
        if k == "NR":
            nl, rx, cc, nd = a
            rules = [(digit_mask(self.e, rx), add("r_digits", "NR", nl, rx, cc, 1))]
            rules.append((rest(rules), bad))
            return rules
        if k == "STR":
            nl, q = a

            def plain(st, c, pre):
                me.app(st, "r_text", c)
                me.app(st, "r_cook", c)
                return [st]
            rules = [(s([q]), add("r_text", "STRX", nl)), (s("\\"), add("r_text", "SE", nl, q)), (me.NL, bad)]
            rules.append((rest(rules), plain))
            return rules
        if k == "SE":
            nl, q = a

            def octal(mx):
                def f(st, c, pre):
                    me.app(st, "r_text", c)
                    st.g["r_cp"] = me.dig(st, c, 8)
                    return me.setm(st, "SO", nl, q, mx)
                return f

            def esc(cp):
                def f(st, c, pre):
                    me.app(st, "r_text", c)
                    me.app(st, "r_cook", C(cp))
                    return me.setm(st, "STR", nl, q)
                return f

            def itself(st, c, pre):
                me.app(st, "r_text", c)
                me.app(st, "r_cook", c)
                return me.setm(st, "STR", nl, q)

            def num(*mm):
                def f(st, c, pre):
                    me.app(st, "r_text", c)
                    st.g["r_cp"] = C(0)
                    return me.setm(st, *mm)
                return f
            rules = [(s("0123"), octal(2)), (s("4567"), octal(1)), (s("x"), num("SH", nl, q, 2)), (s("u"), num("SU", nl, q)),
                     (me.CR, add("r_text", "SCR", nl, q)), (me.NL & ~me.CR, add("r_text", "STR", nl, q))]
            for ch, cp in ESCAPES.items():
                rules.append((s(ch), esc(cp)))
            rules.append((rest(rules), itself))
            return rules
        if k == "SO":
            nl, q, left = a

            def more(st, c, pre):
                me.app(st, "r_text", c)
                st.g["r_cp"] = ladd(lmul(st.g["r_cp"], 8), me.dig(st, c, 8))
                return me.setm(st, "SO", nl, q, left - 1)

            def done(st, c, pre):
                out = []
                for n in me.finish_str_cp(st, nl, q):
                    for r, f in me.trans(n.g["m"], n.g.get("op")):
                        if r & me.e.charset(n, c):
                            n2 = n.copy()
                            me.narrow(n2, c, r)
                            out.extend(f(n2, c, pre))
                return out
            if left:
                return [(me.OCT, more), (ALL & ~me.OCT, done)]
            return [(ALL, done)]
        if k == "SCR":
            nl, q = a

            def other(st, c, pre):
                me.setm(st, "STR", nl, q)
                out = []
                for r, f in me.trans(st.g["m"], st.g.get("op")):
                    if r & me.e.charset(st, c):
                        n2 = st.copy()
                        me.narrow(n2, c, r)
                        out.extend(f(n2, c, pre))
                return out
            return [(me.LF, add("r_text", "STR", nl, q)), (ALL & ~me.LF, other)]
        if k == "SU":
            nl, q = a

            def first(st, c, pre):
                return me.hexdigit(st, c, "r_text", lambda s2: me.setm(s2, "SH", nl, q, 3))
            return [(s("{"), add("r_text", "SB", nl, q, 0)), (me.HEX, first), (ALL & ~me.HEX & ~s("{"), bad)]
        if k == "SH":
            nl, q, left = a

            def hx(st, c, pre):
                def fin(s2):
                    if left > 1:
                        return me.setm(s2, "SH", nl, q, left - 1)
                    return me.finish_str_cp(s2, nl, q)
                return me.hexdigit(st, c, "r_text", fin)
            return [(me.HEX, hx), (ALL & ~me.HEX, bad)]
        if k == "SB":
            nl, q, nd = a

            def hx(st, c, pre):
                return me.hexdigit(st, c, "r_text", lambda s2: me.setm(s2, "SB", nl, q, 1))

            def close(st, c, pre):
                me.app(st, "r_text", c)
                return me.finish_str_cp(st, nl, q)
            rules = [(me.HEX, hx)]
            if nd:
                rules.append((s("}"), close))
            rules.append((rest(rules), bad))
            return rules
        if k == "ID":
            nl, esc = a

            return [(me.IDC, add("r_name", "ID", nl, esc)), (s("\\"), to("IE", nl, 0)),
                    (ALL & ~me.IDC & ~s("\\"), bad)]
        if k == "IE":
            nl, first = a

            def u(st, c, pre):
                st.g["r_cp"] = C(0)
                return me.setm(st, "IU", nl, first)
            return [(s("u"), u), (ALL & ~s("u"), bad)]
        if k == "IU":
            nl, first = a

            def d1(st, c, pre):
                return me.hexdigit(st, c, None, lambda s2: me.setm(s2, "IH", nl, first, 3))
            return [(s("{"), to("IB", nl, first, 0)), (me.HEX, d1), (ALL & ~me.HEX & ~s("{"), bad)]
        if k == "IH":
            nl, first, left = a

            def hx(st, c, pre):
                def fin(s2):
                    if left > 1:
                        return me.setm(s2, "IH", nl, first, left - 1)
                    return me.finish_id_cp(s2, nl, first)
                return me.hexdigit(st, c, None, fin)
            return [(me.HEX, hx), (ALL & ~me.HEX, bad)]
        if k == "IB":
            nl, first, nd = a

            def hx(st, c, pre):
                return me.hexdigit(st, c, None, lambda s2: me.setm(s2, "IB", nl, first, 1))
            rules = [(me.HEX, hx)]
            if nd:
                rules.append((s("}"), lambda st, c, pre: me.finish_id_cp(st, nl, first)))
            rules.append((rest(rules), bad))
            return rules
        if k == "RE":
            nl, cls = a
            rules = [(s("\\"), add("r_body", "REB", nl, cls)), (me.NL, bad)]
            if not cls:
                def endre(st, c, pre):
                    st.g["r_flags"] = ("q", "c", ())
                    return me.setm(st, "RF", nl)
                rules.append((s("/"), endre))
                rules.append((s("["), add("r_body", "RE", nl, 1)))
            else:
                rules.append((s("]"), add("r_body", "RE", nl, 0)))
            rules.append((rest(rules), add("r_body", "RE", nl, cls)))
            return rules
        if k == "REB":
            nl, cls = a
            return [(me.NL, bad), (ALL & ~me.NL, add("r_body", "RE", nl, cls))]
        if k == "RF":
            nl, = a
            return [(me.IDC, add("r_flags", "RF", nl)), (s("\\"), to("ANY", nl)), (ALL & ~me.IDC & ~s("\\"), bad)]
        if k == "ANY":
            return [(ALL, to("ANY", *a))]
        return [(ALL, to("BAD", *(a[:1] if k == "BAD" else (k,))))]

    def _numtail(self, rules, nl, rest, to, bad):
        s = self.cd.set

        def dot(st, c, pre):
            st.g["r_frac"] = ("q", "c", ())
            return self.setm(st, "NF", nl, 1)
        rules.append((s("."), dot))
        for ch, cc in (("e", "LowerCase"), ("E", "UpperCase")):
            rules.append((s(ch), to("NE", nl, 0, 1, cc, 0, 0)))
        rules.append((rest(rules), bad))
        return rules

    def narrow(self, st, c, mask):
        if c[1]:
            a = st.attr[c[1][0][0]]
            st.attr[c[1][0][0]] = ("c", a[1] & mask)

    def dig(self, st, c, radix):
        return digit_value(self.e, st, c, radix)

    def hexdigit(self, st, c, reg, fin):
        if reg:
            self.app(st, reg, c)
        st.g["r_cp"] = ladd(lmul(st.g["r_cp"], 16), self.dig(st, c, 16))
        return fin(st)

    def finish_str_cp(self, st, nl, q):
        """Append the escaped code point to the cooked value."""
        out = []
        v = st.g.pop("r_cp")
        for i, (n, kind) in enumerate(self.scalar(st, v)):
            # the three outcomes stay apart until the next character is consumed
            n.g["so"] = C(n.g["so"][2] + 2 * ("ok", "sur", "ok2", "big").index(kind))
            kind = kind.rstrip("2")
            if kind == "big":
                n.g["r_cp"] = v
                n.g["m"] = ("m", "SBIG", nl, q)
            else:
                self.app(n, "r_cook", char_of(self.e, n, v) if kind == "ok" else C(ord("?")))
                n.g["m"] = ("m", "STR", nl, q)
            out.append(n)
        return out

    def finish_id_cp(self, st, nl, first):
        out = []
        v = st.g.pop("r_cp")
        for n, kind in self.scalar(st, v):
            n.g["so"] = C(2 * ("ok", "sur", "ok2", "big").index(kind) + 8 * int(bool(first)))
            if kind not in ("ok", "ok2"):
                n.g["r_cp"] = v
                n.g["m"] = ("m", "IBAD", nl, first)
                out.append(n)
                continue
            c = char_of(self.e, n, v)
            for n2, good in self.split(n, c, self.IDS if first else self.IDC):
                if good:
                    self.app(n2, "r_name", c)
                    n2.g["m"] = ("m", "ID", nl, 1)
                else:
                    n2.g["r_cp"] = v
                    n2.g["m"] = ("m", "IBAD", nl, first)
                out.append(n2)
        return out

    def scalar(self, st, v):
        e = self.e
        out = []
        for n, lo in e.cmp(st, "Le", v, C(0xD7FF)):
            if lo:
                out.append((n, "ok"))
                continue
            for n2, ge in e.cmp(n, "Ge", v, C(0xE000)):
                if not ge:
                    out.append((n2, "sur"))
                    continue
                for n3, le in e.cmp(n2, "Le", v, C(0x10FFFF)):
                    out.append((n3, "ok2" if le else "big"))
        return out

    def settle(self, st):
        """Resolve pending decisions that the lookahead window already determines."""
        out = []
        for n in self.settle_cr(st):
            m = n.g["m"]
            if m[1] == "SO":
                nl, q, left = m[2:]
                win = n.g["win"][2]
                if left == 0 or (not win and n.g["eof"] == TRUE):
                    # a complete escape is kept apart from one ended by the next character
                    n.g["so"] = C(int(left == 0))
                    out.extend(self.finish_str_cp(n, nl, q))
                    continue
                if win:
                    for n2, oc in self.split(n, win[0][1], self.OCT):
                        if oc:
                            out.append(n2)
                        else:
                            out.extend(self.finish_str_cp(n2, nl, q))
                    continue
            elif m[1] == "SL" and "op" in n.g and not isconst(n.g["op"]):
                for n2, b in self.e.truth(n, n.g["op"]):
                    n2.g["op"] = C(int(b))
                    out.append(n2)
                continue
            elif m[1] == "SCR":
                win = n.g["win"][2]
                if not win and n.g["eof"] == TRUE:
                    self.setm(n, "STR", *m[2:])
                elif win:
                    for n2, lf in self.split(n, win[0][1], self.LF):
                        if not lf:
                            self.setm(n2, "STR", *m[2:])
                        out.append(n2)
                    continue
            out.append(n)
        return out

    # -------------------------------------------------------------- verdicts
    def viol(self, st, cat, msg, **kw):
        m = st.g.get("m")
        self.e.event(st, "spec", msg, None, cat=cat, m=m, **kw)

    def pk(self, st, i):
        """Mask of lookahead position i: None if unknown (not fetched), 0 at end of input."""
        win = st.g["win"][2]
        if i < len(win):
            return self.e.charset(st, win[i][1])
        return 0 if st.g["eof"] == TRUE else None

    def may_follow(self, st, masks):
        """Can the upcoming characters match the given sequence of classes?"""
        for i, m in enumerate(masks):
            k = self.pk(st, i)
            if k is None:
                return True
            if not k & m:
                return False
        return True

    def not_followed(self, st, cat, what, *seqs):
        for sq in seqs:
            if self.may_follow(st, sq):
                self.viol(st, cat, "%s returned although the following characters may extend it" % what)
                return

    # comparison of program values with ghost values
    def same(self, st, a, b):
        """True / False(definitely or structurally different) / None (unknown)."""
        if a == b:
            return True
        if a is None or b is None:
            return False
        if a[0] == "?" or b[0] == "?":
            return None
        if a[0] == "i" and b[0] == "i":
            d = ladd(a, b, -1)
            if not d[1]:
                return d[2] == 0
            lo, hi = self.e.bounds(st, d)
            if lo == hi == 0:
                return True
            if self.e.charset(st, a) is not None and self.e.charset(st, a) == self.e.charset(st, b):
                if self.cd.single(self.e.charset(st, a)) is not None:
                    return True
            return False
        if a[0] in ("q", "str") and b[0] in ("q", "str"):
            pa, pb = self.npart(st, a[2]), self.npart(st, b[2])
            if pa == pb:
                return True
            return False
        return False

    def npart(self, st, p):
        out = []
        for x in p:
            if x[0] == "e":
                m = self.e.charset(st, x[1])
                v = self.cd.single(m) if m is not None else None
                if v is not None:
                    x = ("e", C(v))
                elif x[1][0] == "i" and x[1][1]:
                    lo, hi = self.e.bounds(st, x[1])
                    if lo == hi:
                        x = ("e", C(lo))
            out.append(x)
        return tuple(out)

    def expect(self, st, cat, what, got, want):
        r = self.same(st, got, want)
        if r is False:
            self.viol(st, cat, "%s is wrong" % what, got=got, want=want)
        elif r is None:
            self.e.unmodelled(st, "value of %s" % what)

    def posn(self, v):
        return ("A", 0, (self.fld(v, "Posn", "offset"), self.fld(v, "Posn", "line"), self.fld(v, "Posn", "column")))

    def expect_pos(self, st, what, v, want):
        if v[0] != "A":
            self.e.unmodelled(st, what)
            return
        if st.g.get("cr") == TRUE:
            return
        for n, g, w in zip(("offset", "line", "column"), self.posn(v)[2], want[2]):
            self.expect(st, "pos", "%s %s" % (what, n), g, w)

    KINDS = {"SL": "punct", "P": "punct", "N0": "number", "NLO": "number", "ND": "number", "NF": "number", "NE": "number",
             "NR": "number", "STR": "string", "STRX": "string", "SE": "string", "SO": "string", "SU": "string",
             "SH": "string", "SB": "string", "SBIG": "string", "SCR": "string", "ID": "ident", "IE": "ident", "IU": "ident",
             "IH": "ident", "IB": "ident", "IBAD": "ident", "RE": "regexp", "REB": "regexp", "RF": "regexp",
             "T": "trivia", "LC": "trivia", "BC": "trivia", "BAD": "trivia", "ANY": "any"}

    def check_token(self, st, tok):
        """`tok` was returned by a successful read: does the grammar prescribe it?"""
        if st.g.get("bad"):
            return
        m = st.g["m"]
        k = m[1]
        if k == "ANY":
            return
        if tok[0] != "A":
            self.e.unmodelled(st, "token value")
            return
        value = self.fld(tok, "Token", "value")
        newline = self.fld(tok, "Token", "newline")
        loc = self.fld(tok, "Token", "location")
        got = self.vname(value, "TokenData") if value[0] == "A" else "?"
        cat = self.KINDS[m[2] if k == "BAD" else k]
        if k == "BAD":
            self.viol(st, cat, "token %s consumes characters that do not belong to it (in %s)" % (got, m[2]))
            return
        if k in ("T", "LC"):
            nl, ls = m[2], m[3]
            k0 = self.pk(st, 0)
            if k0 is None or k0:
                self.viol(st, "eof", "%s returned before any of its characters were consumed" % got)
                return
            if got != "EOF":
                self.viol(st, "eof", "%s returned at the end of input" % got)
                return
            self.expect(st, "newline", "newline flag of EOF", newline, st.g["nl"])
            self.expect_pos(st, "EOF start", self.fld(loc, "Span", "start"), st.g["pos"])
            self.expect_pos(st, "EOF end", self.fld(loc, "Span", "end"), st.g["pos"])
            self.done = True
            return
        if k == "BC" or "start" not in st.g:
            self.viol(st, cat, "%s returned in the middle of a %s (%s)" % (got, cat, k))
            return
        nl = m[2]
        self.expect(st, "newline", "newline flag", newline, st.g["nl"])
        self.expect_pos(st, "token start", self.fld(loc, "Span", "start"), st.g["start"])
        self.expect_pos(st, "token end", self.fld(loc, "Span", "end"), st.g["pos"])
        s = self.cd.set
        AFTERNUM = self.IDS | self.DIG | s("\\")
        if k in ("SL", "P"):
            t = "/" if k == "SL" else m[4]
            if k == "SL" and st.g["op"] != TRUE:
                self.viol(st, "regexp", "%s returned for '/' where a regular expression must start" % got)
                return
            want = PUNCT.get(t)
            if want is None or want not in self.V["TokenData"]:
                self.viol(st, "punct", "%s returned after consuming %r" % (got, t))
                return
            if got != want:
                self.viol(st, "punct", "%r is tokenized as %s instead of %s" % (t, got, want))
                return
            seqs = []
            for p in PUNCT:
                if p.startswith(t) and len(p) > len(t):
                    seqs.append([s(ch) for ch in p[len(t):]])
            if t == "<":
                seqs.append([s("!"), s("-"), s("-")])
            if t == "--" and m[3]:
                seqs.append([s(">")])
            if t == ".":
                seqs.append([self.DIG])
            if k == "SL":
                seqs += [[s("/")], [s("*")]]
            self.not_followed(st, "punct", want, *seqs)
            return
        if cat == "number":
            if got != "Number":
                self.viol(st, cat, "%s returned for a numeric literal" % got)
                return
            self.check_number(st, value[2][0], m)
            if k == "NE" and not m[-1] or k == "NR" and not m[-1]:
                self.viol(st, cat, "numeric literal without digits accepted (%s)" % k)
            tail = AFTERNUM | (s(".") if k in ("N0", "ND") else 0)
            self.not_followed(st, cat, "numeric literal", [tail])
            return
        if k == "STRX":
            if got != "String":
                self.viol(st, cat, "%s returned for a string literal" % got)
                return
            lit_ = value[2][0]
            src = self.fld(lit_, "StringLiteral", "source")
            if src[0] == "A" and src[1] == 1:
                self.expect(st, "string", "source text of string literal", src[2][0], st.g["r_text"])
            else:
                self.viol(st, "string", "string literal without source text")
            self.expect(st, "string", "cooked value of string literal", self.fld(lit_, "StringLiteral", "value"), st.g["r_cook"])
            return
        if k == "RF":
            if got != "RegExp":
                self.viol(st, cat, "%s returned for a regular expression literal" % got)
                return
            lit_ = value[2][0]
            self.expect(st, cat, "regexp pattern", self.fld(lit_, "RegExpLiteral", "pattern"),
                        st.g.get("r_body", ("q", "c", ())))
            self.expect(st, cat, "regexp flags", self.fld(lit_, "RegExpLiteral", "flags"), st.g["r_flags"])
            self.not_followed(st, cat, "regular expression", [self.IDC])
            return
        if k == "ID":
            self.check_word(st, value, got, m[3])
            self.not_followed(st, cat, "identifier", [self.IDC | s("\\")])
            return
        self.viol(st, cat, "%s returned in the middle of a %s (%s)" % (got, cat, k))

    def check_skipped(self, st):
        """A token was consumed unseen: the lexeme must at least be complete."""
        m = st.g["m"]
        k = m[1]
        if st.g.get("bad") or k == "ANY":
            return
        cat = self.KINDS[m[2] if k == "BAD" else k]
        if k in ("T", "LC"):
            k0 = self.pk(st, 0)
            if k0 is None or k0:
                self.viol(st, "eof", "skip_token stops before a token")
        elif k == "SL" and st.g["op"] != TRUE or k not in ("SL", "P", "N0", "NLO", "ND", "NF", "NE", "NR", "STRX", "RF", "ID") \
                or k in ("NE", "NR") and not m[-1] or k == "P" and m[4] not in PUNCT:
            self.viol(st, cat, "skip_token stops in the middle of a token (%s)" % k)

    def opt(self, st, v):
        """None / value of an Option."""
        return None if v[1] == 0 else v[2][0]

    def check_number(self, st, litv, m):
        k = m[1]
        src = self.fld(litv, "NumberLiteral", "source")
        val = self.fld(litv, "NumberLiteral", "value")
        if src[0] != "A" or src[1] != 1:
            self.viol(st, "number", "numeric literal without source")
            return
        src = src[2][0]
        form = self.vname(src, "NumberSource")
        g = st.g
        E = ("q", "c", ())
        if k in ("NR", "NLO"):
            if form != "RadixInt":
                self.viol(st, "number", "%s literal represented as %s" % (k, form))
                return
            radix, digs = src[2]
            rx = m[3] if k == "NR" else 8
            want = {16: "Hex", 8: "Oct", 2: "Bin"}[rx]
            if self.vname(radix, "Radix") != want:
                self.viol(st, "number", "radix %d literal represented as %s" % (rx, self.vname(radix, "Radix")))
                return
            cc = radix[2][0]
            if want == "Oct":
                if (cc[1] == 1) != (k == "NR"):
                    self.viol(st, "number", "octal literal prefix form lost")
                    return
                cc = cc[2][0] if cc[1] == 1 else None
            if cc is not None and self.vname(cc, "CharCase") != m[4]:
                self.viol(st, "number", "case of radix prefix is wrong")
            want_digs = g.get("r_digits", E) if k == "NR" else g["r_int"]
            self.expect(st, "number", "digits of radix literal", digs, want_digs)
            self.expect_value(st, val, ("horner", rx, want_digs[2]))
            return
        ip = g.get("r_int")
        if k in ("N0", "ND"):
            dot, exp = 0, None
        elif k == "NF":
            dot, exp = 1, None
            if not m[3]:
                ip = None
        else:
            dot, exp = m[3], m[5:]
            if not m[4]:
                ip = None
        fp = g.get("r_frac") if dot else None
        if dot:
            if form != "Float":
                self.viol(st, "number", "literal with a fraction represented as %s" % form)
                return
            i2, f2, x2 = src[2]
            gi, gf = self.opt(st, i2), self.opt(st, f2)
            if (gi is None) != (ip is None):
                self.viol(st, "number", "integer part presence is wrong")
                return
            if gi is not None:
                self.expect(st, "number", "integer part", gi, ip)
            if gf is None:
                self.viol(st, "number", "fraction part is lost")
                return
            self.expect(st, "number", "fraction part", gf, fp or E)
        else:
            if form != "DecimalInt":
                self.viol(st, "number", "integer literal represented as %s" % form)
                return
            i2, x2 = src[2]
            self.expect(st, "number", "integer digits", i2, ip)
        gx = self.opt(st, x2)
        if (gx is None) != (exp is None):
            self.viol(st, "number", "exponent presence is wrong")
            return
        if gx is not None:
            cc, sign, nd = exp
            if self.vname(self.fld(gx, "Exp", "e"), "CharCase") != cc:
                self.viol(st, "number", "case of exponent marker is wrong")
            sg = self.opt(st, self.fld(gx, "Exp", "sign"))
            want = {0: None, 1: "Plus", 2: "Minus"}[sign]
            if (None if sg is None else self.vname(sg, "Sign")) != want:
                self.viol(st, "number", "exponent sign is wrong")
            self.expect(st, "number", "exponent digits", self.fld(gx, "Exp", "value"), g.get("r_exp", E))
        self.expect_value(st, val, ("dec", ip[2] if ip else (), (fp or E)[2] if dot else None,
                                    None if exp is None else (exp[1] == 2, g.get("r_exp", E)[2])))

    def expect_value(self, st, val, want):
        """Numeric value: the f64 term must denote the same literal."""
        if val[0] != "f":
            self.e.unmodelled(st, "numeric value")
            return
        if want[0] == "horner":
            if val[1] == "horner":
                low = lambda p: tuple(("e", C(ord(chr(x[1][2]).lower()))) if x[0] == "e" and isconst(x[1]) else x
                                      for x in self.npart(st, p))
                if val[2] != want[1] or low(val[3]) != low(want[2]):
                    self.viol(st, "number", "value of radix literal is computed from the wrong radix or digits", got=val, want=want)
            elif val[1] == "parse":
                self.viol(st, "number", "radix literal is evaluated as decimal text", got=val)
            elif val[1] == "const":
                self.viol(st, "number", "value of radix literal ignores its digits", got=val)
            else:
                self.e.unmodelled(st, "numeric value")
            return
        if val[1] == "parse":
            d = self.dec_parts(st, val[2])
            if d is None:
                self.e.unmodelled(st, "numeric text")
                return
            _, ip, fp, ex = want
            i2, f2, e2 = d
            npt = lambda p: self.npart(st, p or ())
            okk = npt(ip) == npt(i2) and npt(fp) == npt(f2)
            if ex is None:
                okk = okk and e2 is None
            else:
                okk = okk and e2 is not None and e2[0] == ex[0] and npt(e2[1]) == npt(ex[1])
            if not okk:
                self.viol(st, "number", "numeric value is computed from different text than the literal", got=val, want=want)
        elif val[1] in ("horner", "const"):
            self.viol(st, "number", "value of decimal literal is not its decimal value", got=val)
        else:
            self.e.unmodelled(st, "numeric value")

    def dec_parts(self, st, parts):
        """Split decimal text into (int, frac, (neg, exp))."""
        cd = self.cd
        ip, fp, ep = [], None, None
        neg = False
        cur = ip
        for x in parts:
            if x[0] == "e":
                m = self.e.charset(st, x[1])
                if m is None:
                    return None
                if not m & ~self.DIG:
                    cur.append(x)
                    continue
                v = cd.single(m)
                if v == 46 and fp is None and ep is None:
                    fp = []
                    cur = fp
                elif v in (101, 69) and ep is None:
                    ep = []
                    cur = ep
                elif v in (43, 45) and ep is not None and not ep:
                    neg = v == 45
                else:
                    return None
            else:
                a = st.attr[x[1]]
                if type(a[1]) is int and not a[1] & ~self.DIG:
                    cur.append(x)
                else:
                    return None
        return tuple(ip), tuple(fp) if fp is not None else (), (neg, tuple(ep)) if ep is not None else None

    def words_possible(self, st, parts, words):
        out = []
        ne = st.facts.get(("ne", parts), frozenset())
        for w in words:
            if w in ne:
                continue
            try:
                if match_lit(self.e, st, parts, w):
                    out.append(w)
            except Unmodelled:
                pass
        return out

    def check_word(self, st, value, got, esc):
        name = self.npart(st, st.g["r_name"][2])
        text = parts_const(name)
        raw = st.g["r_name"][2]
        if got == "Reserved":
            w = self.vname(value[2][0], "Reserved")
            if esc:
                self.viol(st, "words", "reserved word written with an escape is accepted")
            elif text is None:
                self.viol(st, "words", "an identifier that is not %r is tokenized as reserved word %s" % (w.lower(), w))
            elif text not in RESERVED or w.lower() != text:
                self.viol(st, "words", "%r is tokenized as reserved word %s" % (text, w))
            return
        if got != "Identifier":
            self.viol(st, "ident", "%s returned for an identifier" % got)
            return
        nm = value[2][0]
        kind = self.vname(nm, "Name")
        if kind == "Atom":
            w = self.vname(nm[2][0], "Atom")
            if text is None or text not in ATOMS or w.lower() != text:
                self.viol(st, "words", "%r is tokenized as contextual word %s" % (text, w))
            elif esc:
                self.viol(st, "words", "contextual word %r written with an escape is recognised" % text)
            return
        self.expect(st, "ident", "identifier name", nm[2][0], st.g["r_name"])
        if text is not None:
            if text in RESERVED:
                self.viol(st, "words", "reserved word %r is tokenized as an identifier" % text)
            elif text in ATOMS and not esc:
                self.viol(st, "words", "contextual word %r is not recognised" % text)
        else:
            bad = self.words_possible(st, raw, RESERVED + ([] if esc else ATOMS))
            if raw != name:
                bad = [w for w in bad if w in self.words_possible(st, name, RESERVED + ATOMS)]
            for w in bad:
                self.viol(st, "words", "%s word %r can be tokenized as a plain identifier" %
                          ("reserved" if w in RESERVED else "contextual", w))

    # errors: what may be reported in each state
    def check_error(self, st, ev):
        if st.g.get("bad"):
            return
        if ev[0] != "A":
            self.e.unmodelled(st, "error value")
            return
        got = self.vname(ev, "Error")
        m = st.g["m"]
        k = m[1]
        if k == "ANY":
            return
        # run ahead over lookahead characters while they keep the current lexeme incomplete
        if k == "BC":
            for n in self.run_ahead(st):
                if n.g["m"][1] != "BC" or n.g["eof"] != TRUE:
                    self.viol(st, "error", "%s reported for a comment that is not unterminated" % got)
                    return
            if got != "UnterminatedComment":
                self.viol(st, "error", "unterminated comment is reported as %s" % got)
            return
        k0 = self.pk(st, 0)
        nxt = st.g["win"][2][0][1] if st.g["win"][2] else None
        eof = k0 == 0
        payload = ev[2][0] if ev[2] else None

        def optc(v):
            return None if v is None or v[0] != "A" else (v[2][0] if v[1] == 1 else None)

        def want(cond, *names):
            """cond: mask of next chars (or 'eof') justifying the error."""
            if cond == "eof":
                okk = eof
            else:
                okk = bool(k0) and not k0 & ~cond
            if not okk:
                return False
            return got in names
        cat = "error"
        s = self.cd.set
        okk = None
        if k == "T":
            start = self.WS | self.NL | self.IDS | self.DIG | s("\"'\\") | s("".join(p[0] for p in PUNCT))
            if k0 and not k0 & start:
                okk = got == "IllegalChar" and self.same(st, payload, nxt)
            elif k0 is None or k0:
                m2 = self.T
                if got in ("UnterminatedComment",) and self.ahead_state(st, "BC"):
                    okk = True
                else:
                    # errors raised before consuming anything of a token
                    okk = False
        elif k == "STR":
            if eof:
                okk = got == "UnterminatedString" and optc(payload) is None
            elif k0 and not k0 & ~self.NL:
                okk = got == "UnterminatedString" and self.same(st, optc(payload), nxt)
        elif k == "SE":
            if eof:
                okk = got == "UnterminatedString" and optc(payload) is None
        elif k in ("SU", "SH", "SB", "IU", "IH", "IB"):
            if eof:
                okk = got in ("MissingHexDigits", "UnterminatedString", "IncompleteWordEscape")
            else:
                legal = self.HEX | (s("{") if k[1] == "U" else 0) | (s("}") if k[1] == "B" and m[-1] else 0)
                if k0 and not k0 & legal:
                    okk = got in ("InvalidDigit",) and self.same(st, payload, nxt) is not False or \
                        got == "IncompleteWordEscape" and k[0] == "I"
                elif k[1] == "B" and got == "IllegalUnicode":
                    lo, hi = self.e.bounds(st, st.g["r_cp"])
                    okk = lo > 0x10FFFF or hi > 0x10FFFF and None
        elif k == "SBIG":
            okk = got == "IllegalUnicode"
        elif k == "IBAD":
            okk = got in ("IllegalUnicode", "IncompleteWordEscape", "IllegalChar", "InvalidDigit")
        elif k == "IE":
            if eof:
                okk = got == "IncompleteWordEscape" and optc(payload) is None
            elif k0 and not k0 & s("u"):
                okk = got == "IncompleteWordEscape" and self.same(st, optc(payload), nxt) is not False
        elif k == "ID":
            text = parts_const(self.npart(st, st.g["r_name"][2]))
            if m[3] and text in RESERVED and (k0 is not None and not k0 & (self.IDC | s("\\"))):
                okk = got == "ReservedWordWithEscapes" and self.vname(payload, "Reserved").lower() == text
        elif k in ("RE", "REB", "SL"):
            if k == "SL" and st.g["op"] == TRUE:
                okk = False
            elif eof:
                okk = got == "UnterminatedRegExp" and optc(payload) is None
            elif k0 and not k0 & ~self.NL:
                okk = got == "UnterminatedRegExp" and self.same(st, optc(payload), nxt) is not False
        elif k == "NE" and not m[-1]:
            if eof:
                okk = got == "MissingExponent" and optc(payload) is None
            else:
                legal = self.DIG | (s("+-") if not m[6] else 0)
                if k0 and not k0 & legal:
                    okk = got == "MissingExponent" and self.same(st, optc(payload), nxt) is not False
        elif k == "NR" and not m[-1]:
            if eof:
                okk = got in {16: ("MissingHexDigits",), 8: ("MissingOctalDigits",), 2: ("MissingBinaryDigits",)}[m[3]]
            elif k0 and not k0 & digit_mask(self.e, m[3]):
                okk = got == "InvalidDigit" and self.same(st, payload, nxt) is not False
        elif k in ("N0", "NLO", "ND", "NF", "NE", "NR"):
            if k0 and not k0 & ~(self.IDS | s("\\")):
                okk = got == "IdAfterNumber" and self.same(st, payload, nxt) is not False
            elif k0 and not k0 & ~self.DIG and k == "NR":
                okk = got == "DigitAfterNumber" and self.same(st, payload, nxt) is not False
        elif k == "BAD":
            self.viol(st, self.KINDS[m[2]], "%s reported after consuming characters that do not belong to the lexeme (in %s)" % (got, m[2]))
            return
        if okk is False or okk is None and not (okk is None and k in ("SB", "IB")):
            cat = "trivia" if k in ("T", "LC") and k0 and not k0 & ~(self.WS | self.NL) else "error"
            self.viol(st, cat, "%s reported where the grammar does not call for it (in %s)" % (got, k), next=k0, payload=payload)

    def ahead_state(self, st, k):
        return any(n.g["m"][1] == k for n in self.run_ahead(st))

    def run_ahead(self, st):
        cur = [st.copy()]
        while any(s.g["win"][2] for s in cur):
            nxt = []
            for s in cur:
                if s.g["win"][2]:
                    for s2 in self.consume(s):
                        nxt.extend(self.settle(s2) if s2.g["m"][1] == "SL" else [s2])
                else:
                    nxt.append(s)
            cur = nxt
        return cur
