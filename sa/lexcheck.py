"""Whole-API analysis of the tokenizer: every state reachable through the public methods,
for every input, is covered by one fixpoint over abstract lexer states."""
import multiprocessing
import os
import sys
import time

from engine import (C, Engine, Expired, Stop, FALSE, Infeasible, NONE, S, St, TRUE, Unmodelled, gc, rename, st_sub, symv, syms_of)
from models import Models
from lexspec import LexMonitor, SPEC_CHARS, ESCAPES, RESERVED, ATOMS, PUNCT
from dom import CharDom
from mir import Prog


def char_consts(p, names=("joker",)):
    """Every character literal the analysed crates mention."""
    cs = set()

    def scan(x):
        if isinstance(x, dict):
            if x.get("k") == "s" and isinstance(x.get("v"), int) and p.tys[x["t"]].k == "char":
                cs.add(x["v"])
            for v in x.values():
                scan(v)
        elif isinstance(x, list):
            for v in x:
                scan(v)
    for i in p.insts:
        if i.raw is None:
            continue
        scan(i.raw)
        for bb in i.raw["bbs"]:
            t = bb["t"]
            if t[0] == "switch" and t[4] is not None and p.tys[t[4]].k == "char":
                cs.update(v for v, _ in t[2])
    return cs


CELL = 1
CLASSES = ("ident", "number", "string", "regexp", "punct")
APIS = ("read", "peek", "skip", "unread")
WORKER = None


def worker(i):
    return WORKER.task(i)


def short(v, n=400):
    t = repr(v)
    return t if len(t) <= n else t[:n] + "..."


def compact(x, cls):
    """Event without the analysis state: what is reported."""
    st = x["st"]
    d = {k: x[k] for k in ("kind", "msg", "stack", "cat", "m", "api") if k in x}
    d["class"] = cls
    d["unc"] = bool(x["unc"])
    d["span"] = x.get("span")
    d["detail"] = {k: short(x[k]) for k in ("got", "want", "payload", "next", "callee") if k in x}
    d["state"] = short({k: v for k, v in st.g.items() if k not in ("queue", "$par")}, 900)
    return d


def uniq(evs):
    seen = {}
    for x in evs:
        k = (x["kind"], x.get("cat"), x["msg"], tuple(x["stack"][-1:]), x["unc"], x.get("api"))
        if k in seen:
            seen[k]["count"] += 1
        else:
            x["count"] = 1
            seen[k] = x
    return list(seen.values())


class LexCheck:
    def __init__(self, dump, trace=None):
        self.p = Prog(dump)
        cs = {c for c in char_consts(self.p) if c < 0x3000 or c in (0xFEFF, 0xFFFD)} | set(SPEC_CHARS)
        cs |= {c for c in char_consts(self.p)}
        self.cd = CharDom(cs)
        self.e = Engine(self.p, self.cd, Models())
        self.trace = trace
        self.ops = 0
        self.t0 = time.time()
        self.states = self.rounds = 0
        self.apis = APIS
        self.lty = None
        self.returned = {"ok": 0, "err": 0}
        self.deadline = None
        self.expired = self.stopped = False
        self.keep = None
        self.follow = False

    def initial(self):
        e, p = self.e, self.p
        st = St()
        st.g = {"win": ("q", "w", ()), "eof": FALSE}
        e.hid = 10
        e.call(st, p.roots["root_new"], [("A", 0, (C(0),))])
        rs = e.run([st])
        t = p.tys[p.insts[p.roots["root_new"]].raw["locals"][0]]
        self.lty = t.id
        self.tok_ty = self._ty("token::Token")
        self.mon = LexMonitor(e, CELL, t.id)
        out = []
        for s, v in rs:
            s.heap[CELL] = v
            s.g["m"] = ("m", "T", 0, 1)
            s.g["nl"] = FALSE
            self.start_posn(s)
            s.g["cr"] = FALSE
            s.g["so"] = FALSE
            s.g["queue"] = ("A", 0, ())
            out.append(s)
        e.mon = self.mon
        self.mon.follow = self.follow
        return out

    def start_posn(self, st):
        """Check that a new lexer stands at offset 0, line 0, column 0, then generalise to an
        arbitrary (but equal) position in program and observer."""
        e = self.e
        mon = self.mon
        z = ("A", 0, (C(0), C(0), C(0)))
        st.g["pos"] = z
        names = [f["n"] for f in mon.T["Posn"].d["vars"][0]["f"]]
        syms = {n: symv(e.newsym(st, ("n", 0, 1 << 31, True))) for n in ("offset", "line", "column")}
        found = []

        def walk(v, ty):
            t = self.p.tys[ty]
            if v[0] == "A" and t.k == "adt":
                if t.id == mon.T["Posn"].id:
                    mon.expect_pos(st, "position of a new lexer", v, z)
                    found.append(1)
                    return ("A", 0, tuple(syms[n] for n in names))
                fs = t.d["vars"][v[1]]["f"]
                return ("A", v[1], tuple(walk(x, f["t"]) for x, f in zip(v[2], fs)))
            return v
        if all(n in names for n in ("offset", "line", "column")):
            nv = walk(st.heap[CELL], self.lty)
            if len(found) == 1:
                st.heap[CELL] = nv
                st.g["pos"] = ("A", 0, (syms["offset"], syms["line"], syms["column"]))

    def _ty(self, suffix):
        for t in self.p.tys:
            if t.k == "adt" and t.d["name"].endswith(suffix):
                return t.id
        raise Unmodelled("type " + suffix)

    # -------------------------------------------------------------- fixpoint
    def run(self, classes=CLASSES, apis=APIS, jobs=None):
        """Fixpoint over the lexer states between two API calls.  Each state is analysed once per
        lexeme class, in parallel worker processes."""
        self.apis = apis
        work = []
        for s in self.initial():
            work += self.enter(s)
        tasks_done = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                self.expired = True
            if self.expired or self.stopped:
                return self
            batch = []
            for slot, st in work:
                if slot["st"] is st:
                    self.states += 1
                    batch += [(st, c, a) for a in self.calls(st) for c in classes]
            work = []
            self.batch = batch
            self.rounds += 1
            for res in self.pool(len(batch), jobs):
                states, events, unmod, counts = res
                for x in events:
                    self.e.events.append(x)
                for k, n in unmod.items():
                    self.e.unmod[k] = self.e.unmod.get(k, 0) + n
                self.ops += counts["ops"]
                self.e.steps += counts["steps"]
                self.e.visited |= counts["visited"]
                for k in self.returned:
                    self.returned[k] += counts[k]
                if counts["flag"] == "expired":
                    self.expired = True
                if counts["flag"] == "stop":
                    self.stopped = True
                    break
                for s in states:
                    work += self.enter(rename(s, {}))
        return self

    def pool(self, n, jobs):
        jobs = jobs or os.cpu_count() or 1
        if n == 1 or jobs == 1:
            for i in range(n):
                yield self.task(i)
            return
        global WORKER
        WORKER = self
        with multiprocessing.get_context("fork").Pool(min(jobs, n)) as p:
            it = p.imap_unordered(worker, range(n), 1)
            for _ in range(n):
                left = max(1, self.deadline - time.time()) if self.deadline else None
                try:
                    yield it.next(left)
                except multiprocessing.TimeoutError:
                    self.expired = True
                    p.terminate()
                    return

    def task(self, i):
        st, cls, call = self.batch[i]
        e = self.e
        keep = e.events, e.unmod, e.heads, e.steps, self.ops, self.returned, e.visited
        e.events, e.unmod, e.heads, e.steps, self.ops, self.returned, e.visited = [], {}, {}, 0, 0, {"ok": 0, "err": 0}, set()
        self.mon.focus = {cls} if cls else None
        e.deadline = self.deadline
        e.stop_on = (lambda x: self.keep(dict(x, **{"class": cls}))) if self.keep else None
        flag = None
        e.active, e.outer, e.ctx, e.prepare = [], [], 0, False
        try:
            try:
                for s in self.step(st.copy(), call):
                    self.enter(s)
            except Expired:
                flag = "expired"
            except Stop:
                flag = "stop"
            states = []
            for (ctx, pt, sk), hd in e.heads.items():
                if pt == ("API",) and flag is None:
                    states += [sl["st"] for sl in hd["slots"].values()]
            for s in states:
                s.hist = {}
            ev = [compact(x, cls) for x in e.events]
            return states, uniq(ev), e.unmod, dict(self.returned, ops=self.ops, steps=e.steps, visited=e.visited, flag=flag)
        finally:
            e.events, e.unmod, e.heads, e.steps, self.ops, self.returned, e.visited = keep
            self.mon.focus = None

    def enter(self, st):
        """Join a state between two API calls into the fixpoint."""
        st.hist = {}
        gc(st)
        r = self.e.at_head(("API",), st)
        if r is None:
            return []
        return [r]

    def calls(self, st):
        """The calls that are allowed in a state between two calls."""
        q = st.g["queue"][2]
        out = [n for n in ("read", "peek", "skip") if n in self.apis]
        if "unread" in self.apis:
            out += ["repeek", "reread"] if q else []
            out += ["unread"] if len(q) < 2 else []
            out += ["posn"]
        return out

    def step(self, st, call):
        return self.api(st, call, True if call in ("read", "peek", "skip") else None, st.g["queue"][2])

    def api(self, st0, name, op, q):
        e, mon = self.e, self.mon
        st = st0.copy()
        args = [("r", ("H", CELL), ())]
        if op is not None:
            op = symv(e.newsym(st, ("n", 0, 1, False)))
            st.g["op"] = op
        if op is not None:
            args.append(op)
        tok = None
        if name == "unread":
            tok = self.fresh(st)
            args.append(tok)
        if self.trace:
            self.trace("%.1f %d api %s queue=%d m=%s win=%d eof=%s" % (
                time.time() - self.t0, e.steps, name, len(q), st.g["m"], len(st.g["win"][2]), st.g["eof"][2]))
        self.ops += 1
        n0 = len(e.events)
        e.call(st, self.p.roots["root_" + name], args)
        res = e.run([st])
        out = []
        for s, v in res:
            s = s.copy()
            s.g["ret"] = v
            for n in mon.sync(e, s):
                v = n.g.pop("ret")
                try:
                    if n.g.get("bad") != TRUE:
                        out += self.after(n, v, name, n.g["queue"][2], tok)
                except Infeasible:
                    pass
                except Unmodelled as x:
                    e.unmodelled(n, "verdict: %s" % x)
        for x in e.events[n0:]:
            x["api"] = name
        return out

    def fresh(self, st):
        return ("o", self.e.newsym(st, ("o", self.tok_ty)))

    def after(self, st, v, name, q, tok):
        e, mon = self.e, self.mon
        g = st.g
        self.v = v
        if name == "posn":
            mon.expect_pos(st, "posn()", v, g["pos"])
            return [self.idle(st, q, False)]
        if name == "unread":
            return [self.idle(st, (tok,) + q, False)]
        if name in ("repeek", "reread"):
            t = e.get(st, v[1], v[2]) if v[0] == "r" else v
            if t != q[0]:
                mon.viol(st, "lookahead", "%s_token does not return the token at the front of the lookahead" % name, got=t)
            return [self.idle(st, q if name == "repeek" else q[1:], False)]
        # read, peek, skip: Result
        if v[0] != "A":
            e.unmodelled(st, "result of " + name)
            return []
        if v[1] == 1:
            self.returned["err"] += 1
            if q:
                mon.viol(st, "lookahead", "%s_token fails although a token is buffered" % name)
                return []
            mon.check_error(st, v[2][0])
            return [self.idle(st, q)]
        self.returned["ok"] += 1
        r = v[2][0]
        t = r
        if name == "peek":
            if r[0] != "r":
                e.unmodelled(st, "peek result")
                return []
            t = e.get(st, r[1], r[2])
        if q:
            if name != "skip" and t != q[0]:
                mon.viol(st, "lookahead", "%s_token does not return the token at the front of the lookahead" % name, got=t)
            if g["m"][1] != "T":
                mon.viol(st, "lookahead", "%s_token consumes input although a token is buffered" % name)
            return [self.idle(st, q if name == "peek" else q[1:], False)]
        if name == "skip":
            mon.check_skipped(st)
        else:
            mon.check_token(st, t)
        nq = ()
        if name == "peek":
            tok = self.fresh(st)
            self.replace(st, t, tok)
            nq = (tok,)
        return [self.idle(st, nq)]

    def replace(self, st, old, new):
        """Forget the contents of a checked token, keeping its identity."""
        def rep(v):
            if v == old:
                return new
            if type(v) is tuple:
                return tuple(rep(x) for x in v)
            return v
        st.heap[CELL] = rep(st.heap[CELL])

    def idle(self, st, q, read=True):
        """State between two calls: the grammar restarts at the first character not consumed.
        A call that read nothing leaves the grammar where it was (perhaps still before the first token)."""
        g = st.g
        if read:
            g["m"] = ("m", "T", 0, 0)
        g["nl"] = FALSE
        g["so"] = FALSE
        g["queue"] = ("A", 0, tuple(q))
        if g["cr"] != TRUE:
            g["cr"] = FALSE
        for k in list(g):
            if k.startswith("r_") or k in ("start", "op"):
                del g[k]
        st.heap = {CELL: st.heap[CELL]}
        # the next call may meet any characters here
        ws = {x[1][1][0][0] for x in g["win"][2] if x[1][1]}
        st.facts = {k: v for k, v in st.facts.items() if not mentions((k, v), ws)}
        for w in ws:
            st.attr[w] = ("c", self.cd.ALL)
        return st


def mentions(kv, syms):
    return any(x in syms for x in syms_of(kv[0])) or type(kv[1]) is tuple and any(x in syms for x in syms_of(kv[1]))


if __name__ == "__main__":
    t = time.time()
    lc = LexCheck(sys.argv[1], trace=(lambda s: print(s, flush=True)) if "-v" in sys.argv else None)
    a = [x for x in sys.argv[2:] if x != "-v"]
    lc.run(a[0].split(",") if a else CLASSES, a[1].split(",") if len(a) > 1 else APIS)
    e = lc.e
    print("states", lc.states, "rounds", lc.rounds, "ops", lc.ops, "steps", e.steps, "t=%.1f" % (time.time() - t), lc.returned)
    print("unmodelled:")
    for k, n in e.unmod.items():
        print("  ", n, k)
    agg = {}
    for x in e.events:
        k = (x["kind"], x.get("cat"), x["msg"], x["stack"][-1] if x["stack"] else None, x["unc"])
        agg.setdefault(k, []).append(x)
    for k, l in sorted(agg.items(), key=repr):
        print(sum(x["count"] for x in l), k, l[0].get("api"), l[0].get("m"))
