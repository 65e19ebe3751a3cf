"""Analysis of single functions against contracts: every abstract path of a root is followed and
its result compared with what the contract prescribes for that path."""
import re

from dom import CharDom
from engine import C, Engine, Infeasible, S, St, Unmodelled, canon, symv  # noqa: F401
from lexspec import SPEC_CHARS
from mir import Prog
from models import Models


def char_consts(p):
    from lexcheck import char_consts as f
    return f(p)


class Unit:
    def __init__(self, dump, extra=(), chars=()):
        self.p = Prog(dump)
        self.e = Engine(self.p, CharDom(set(char_consts(self.p)) | set(SPEC_CHARS) | set(chars)), Models(extra))
        self.e.hid = 1000
        self.viol = {}
        self.und = {}
        self.paths = 0
        self.roots = 0
        self.fns = set()
        self.partial = False

    def state(self):
        st = St()
        st.g = {"win": ("q", "w", ()), "eof": C(0)}
        return st

    def leaves(self, *models):
        """Replace the calls whose instance name matches by models (pattern, function)."""
        self.e.models.extra = [(re.compile(p), f) for p, f in models]
        self.e.models.cache.clear()

    def argtys(self, root):
        raw = self.p.insts[self.p.roots["root_" + root]].raw
        return raw["locals"][1:1 + raw["argc"]], raw["locals"][0]

    def ty(self, suffix):
        for t in self.p.tys:
            if t.k == "adt" and t.d["name"].endswith(suffix):
                return t.id
        raise Unmodelled("type " + suffix)

    def variant(self, tid, i):
        return self.p.tys[tid].d["vars"][i]["n"]

    def sym(self, st, tid):
        return self.e.opaque(st, tid)

    def cell(self, st, v):
        self.e.hid += 1
        st.heap[self.e.hid] = v
        return ("r", ("H", self.e.hid), ())

    def bad(self, key, msg, root, st=None, missing=False, **detail):
        """missing: the complaint is that no path does something, so lost paths excuse it."""
        if (st is not None and st.unc) or (missing and self.partial):
            self.und["%s in %s (behind an unmodelled step)" % (msg, root)] = 1
            return
        k = "%s|%s" % (root, key)
        v = self.viol.setdefault(k, {"key": k, "msg": "%s: %s" % (root, msg), "where": [], "count": 0,
                                     "detail": {a: short(b) for a, b in detail.items()}})
        v["count"] += 1

    def paths_of(self, root, st, args, panics=True, inst=None):
        """All (final state, result) of a root (or of an instance); panics on the way are violations."""
        e = self.e
        self.roots += 1
        e.events, e.unmod, e.heads = [], {}, {}
        e.active, e.outer, e.ctx, e.prepare = [], [], 0, False
        try:
            e.call(st, self.p.roots["root_" + root] if inst is None else inst, args)
            res = e.run([st])
        except Unmodelled as x:
            self.und["%s in %s" % (x, root)] = 1
            e.unmod[("%s" % x, root)] = 1
            res = []
        self.partial = bool(e.unmod) or any(x["kind"] in ("lost", "diverge") for x in e.events) or any(s.unc for s, _ in res)
        for k, n in e.unmod.items():
            self.und["%s in %s" % k] = n
        for x in e.events:
            if x["kind"] in ("lost", "diverge"):
                self.und["%s: %s" % (x["kind"], x["msg"])] = 1
            elif x["kind"] == "panic" and panics:
                self.bad("panic|" + x["msg"], "can panic (%s)" % x["msg"], root, x["st"])
                self.viol.get("%s|panic|%s" % (root, x["msg"]), {})["where"] = x["stack"]
        self.paths += len(res)
        self.fns |= {self.p.insts[i].name for i in e.visited}
        return res

    def deref(self, st, v):
        n = 0
        while v[0] in ("r", "box") and n < 10:
            v = self.e.get(st, v[1], v[2]) if v[0] == "r" else st.heap[v[1]]
            n += 1
        return v


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."
