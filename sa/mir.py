"""Loading of MIR dumps and per-body control-flow facts (order, loop heads, liveness)."""
import json


class Ty:
    __slots__ = ("id", "s", "k", "d")

    def __init__(self, i, d):
        self.id = i
        self.s = d["s"]
        self.k = d["k"]
        self.d = d


def short(n):
    """Crate-path free name of a definition."""
    return n


class Body:
    def __init__(self, inst, b):
        self.inst = inst
        self.locals = b["locals"]
        self.argc = b["argc"]
        self.spread = b["spread"]
        self.bbs = b["bbs"]
        self.span = b["span"]
        n = len(self.bbs)
        self.succ = [self._succ(bb["t"]) for bb in self.bbs]
        self._order(n)
        self._live(n)

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, b in t[2]:
                if b not in r:
                    r.append(b)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def _order(self, n):
        # DFS; loop heads are targets of retreating edges.  The order is refined so that
        # blocks inside a loop come before blocks after it.
        color = [0] * n
        heads = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                if color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                post.append(b)
                stack.pop()
        self.reach = set(post)
        self.heads = heads
        preds = [[] for _ in range(n)]
        for b in self.reach:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # natural loops
        loops = {}
        rpo0 = {b: i for i, b in enumerate(reversed(post))}
        for h in heads:
            body = {h}
            work = [p for p in preds[h] if rpo0[p] >= rpo0[h]]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])
            loops[h] = body
        self.loops = loops
        depth = {b: 0 for b in self.reach}
        for h, body in loops.items():
            for b in body:
                depth[b] = depth.get(b, 0) + 1
        # second DFS visiting loop-exit successors first, so that they are numbered last
        color = [0] * n
        post = []

        def kids(b):
            return sorted(self.succ[b], key=lambda s: depth.get(s, 0))
        stack = [(0, iter(kids(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(kids(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.merge = {b for b in self.reach if len(preds[b]) > 1}

    def _live(self, n):
        """Live locals at block entry; locals whose address is taken are kept until
        their storage ends."""
        addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        dead = [set() for _ in range(n)]

        def uop(b, o):
            if o is None:
                return
            for key in ("c", "m"):
                if key in o:
                    upl(b, o[key])

        def upl(b, p):
            if p[0] not in deff[b]:
                use[b].add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in deff[b]:
                    use[b].add(e[1])

        def dpl(b, p):
            if len(p) == 1:
                deff[b].add(p[0])
            else:
                upl(b, p)

        for i in range(n):
            bb = self.bbs[i]
            for s in bb["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "addr"):
                        upl(i, rv[1])
                        if "*" not in rv[1]:
                            addr.add(rv[1][0])
                    elif k in ("disc", "len"):
                        upl(i, rv[1])
                    elif k == "agg":
                        for o in rv[3]:
                            uop(i, o)
                    elif k in ("bin", "cbin"):
                        uop(i, rv[2])
                        uop(i, rv[3])
                    elif k == "un" or k == "cast":
                        uop(i, rv[2])
                    elif k in ("use", "repeat"):
                        uop(i, rv[1])
                    dpl(i, s[1])
                elif s[0] == "dead":
                    deff[i].add(s[1])
                    dead[i].add(s[1])
                elif s[0] == "sd":
                    upl(i, s[1])
                elif s[0] == "assume":
                    uop(i, s[1])
            t = bb["t"]
            if t[0] == "switch":
                uop(i, t[1])
            elif t[0] == "call":
                for o in t[2]:
                    uop(i, o)
                if t[1]["k"] == "ptr":
                    uop(i, t[1]["o"])
                dpl(i, t[3])
            elif t[0] == "assert":
                uop(i, t[1])
            elif t[0] == "ret":
                if 0 not in deff[i]:
                    use[i].add(0)
        live = [set() for _ in range(n)]
        changed = True
        order = sorted(self.reach, key=lambda b: -self.rpo[b])
        while changed:
            changed = False
            for b in order:
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                nl = use[b] | (o - deff[b])
                if nl != live[b]:
                    live[b] = nl
                    changed = True
        self.addr = addr
        self.live = live
        self.keep = [live[b] | addr for b in range(n)]


class Inst:
    __slots__ = ("id", "name", "full", "crate", "kind", "ga", "raw", "body", "prog")

    def __init__(self, prog, d):
        self.prog = prog
        self.id = d["id"]
        self.name = d["name"]
        self.full = d["full"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.ga = d["ga"]
        self.raw = d["body"]
        self.body = None


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.tys = [Ty(i, t) for i, t in enumerate(d["tys"])]
        self.insts = [Inst(self, i) for i in d["insts"]]
        self.roots = {n: i for n, i in d["roots"]}

    def body(self, i):
        inst = self.insts[i]
        if inst.body is None and inst.raw is not None:
            inst.body = Body(inst, inst.raw)
        return inst.body

    def ty_named(self, name):
        for t in self.tys:
            if t.s == name:
                return t
        return None

    def adt(self, suffix):
        """First ADT type whose definition path ends with `suffix`."""
        for t in self.tys:
            if t.k == "adt" and (t.d["name"] == suffix or t.d["name"].endswith("::" + suffix)):
                return t
        return None
