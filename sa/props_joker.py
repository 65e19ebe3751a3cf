"""Properties of the tokenizer, decided by the whole-API fixpoint of lexcheck.py."""
import os
import signal
import time

import build
from common import Result
from lexcheck import APIS, CLASSES, LexCheck
from lexspec import LexMonitor

ASSUME = [
    "the character source is fused: after its first None it keeps returning None",
    "fewer than 2^31 characters, lines and columns (no counter overflow)",
    "the sources of the Rust standard library behave as modelled in sa/models.py (String, VecDeque, HashMap, Option, "
    "char, iterator adapters); everything else of std that is reached is analysed from its own MIR",
    "the MIR of the nightly compiler at -Zmir-opt-level=0 with debug assertions and overflow checks on",
    "after a call returns Err the grammar restarts at the first character that was not consumed",
]

EXPL = ("Abstract interpretation of the tokenizer's MIR, together with an observer that runs the lexical grammar on the "
        "same symbolic characters: a fixpoint over every abstract lexer state reachable between two API calls "
        "(%(states)d states, %(rounds)d rounds, classes %(classes)s, calls %(apis)s) with arbitrary further input; "
        "%(ok)d abstract returns of a token and %(err)d of an error were compared with the grammar in %(steps)d "
        "abstract block executions over %(fns)d functions.")

BUDGET = {"quick": 600, "thorough": 820}


def key(x):
    """Names the construct, not the line: survives unrelated edits."""
    m = x.get("m")
    return "|".join([x["kind"], x.get("cat") or "", x["msg"], x["stack"][-1] if x["stack"] else "", str(m[1]) if m else ""])


def analyse(tier, parts, keep, floor_ok=1, follow=False):
    """parts: list of (classes, apis)."""
    dump, h = build.joker_dump()
    viol, und = {}, {}
    tot = {"states": 0, "rounds": 0, "ok": 0, "err": 0, "steps": 0}
    fns = set()
    others = {}
    stopped = False
    t0 = time.time()
    for classes, apis in parts:
        lc = LexCheck(dump)
        lc.deadline = t0 + BUDGET[tier]
        lc.keep = keep
        lc.follow = follow
        lc.run(classes, apis)
        if lc.expired:
            und["time budget exhausted in %s/%s" % (",".join(classes), ",".join(apis))] = 1
        e = lc.e
        stopped = stopped or lc.stopped
        tot["states"] += lc.states
        tot["rounds"] = max(tot["rounds"], lc.rounds)
        tot["ok"] += lc.returned["ok"]
        tot["err"] += lc.returned["err"]
        tot["steps"] += e.steps
        fns |= {lc.p.insts[i].name for i in e.visited}
        for k, n in e.unmod.items():
            und["%s in %s" % k] = n
        if lc.returned["ok"] < floor_ok and not lc.stopped and not lc.expired and not und:
            viol["floor"] = {"key": "floor|" + ",".join(classes), "msg": "no analysed call of %s ever returns a token" % "/".join(apis)}
        for x in e.events:
            if x["kind"] in ("lost", "diverge"):
                und["%s: %s in %s" % (x["kind"], x["msg"], x["stack"][-1] if x["stack"] else "?")] = x.get("count", 1)
                continue
            if not keep(x):
                others[(x["kind"], x.get("cat"), x["msg"])] = 1
                continue
            if x["unc"]:
                und["%s (behind an unmodelled step)" % x["msg"]] = 1
                continue
            k = key(x)
            if k in viol:
                viol[k]["count"] += x.get("count", 1)
            else:
                viol[k] = {"key": k, "msg": "%s%s" % (x["msg"], " [%s literal analysis, state %s]" % (x["class"], x["m"][1] if x.get("m") else "-")),
                           "where": x["stack"], "span": x.get("span"), "api": x.get("api"), "class": x["class"],
                           "count": x.get("count", 1), "detail": x["detail"], "state": x["state"]}
        if lc.stopped:
            break
    r = Result()
    r.violations = list(viol.values())
    r.undecided = sorted(und)
    info = dict(tot, fns=len(fns), classes="+".join(sorted({c for p in parts for c in p[0]})),
                apis="+".join(sorted({a for p in parts for a in p[1]})))
    r.coverage = dict(tot, explanation=EXPL % info, functions=sorted(f for f in fns if "joker" in f), functions_total=len(fns),
                      classes=info["classes"], api_calls=info["apis"], source_hash=h[:16],
                      outside_property=sorted(map(str, others))[:20])
    r.assumptions = ASSUME
    return r


ALL = list(CLASSES)
FATAL = ("panic", "nonterm")
HEAVY = ["number", "string", "regexp", "ident"]


def cats(*cs, **kw):
    classes = kw.get("classes")
    kinds = kw.get("kinds", ())
    trivia = kw.get("trivia")
    bad = kw.get("bad")

    def keep(x):
        if classes and x["class"] not in classes:
            return False
        if x["kind"] in kinds:
            return True
        if bad and x.get("m") and "does not belong to" in x["msg"]:
            return True
        if x["kind"] != "spec" or x["cat"] not in cs and x["cat"] != "stream":
            return False
        m = x.get("m")
        k = LexMonitor.KINDS.get(m[1]) if m else None
        if trivia is True and k not in ("trivia", None):
            return False
        if trivia is False and k == "trivia" and x["cat"] in ("error", "eof"):
            return False
        return True
    return keep


def job(quick, thorough, keep, follow=False):
    return lambda tier: analyse(tier, quick if tier == "quick" else thorough, keep, follow=follow)


READ = [(ALL, ["read"])]
FULL = [(ALL, ["read"]), (["punct"], list(APIS)), (["string", "number"], ["read", "peek", "skip"])]


def one(*cl):
    return [(list(cl), ["read"])], [(list(cl), ["read", "peek", "skip"])]


CHECKS = {
    "C01": job([(ALL, ["read"]), (["punct"], list(APIS))], FULL, lambda x: x["kind"] == "panic", follow=True),
    "C02": job(READ, FULL, cats("pos")),
    "C03": job(READ, FULL, cats("newline")),
    "C04": job(*one("punct"), keep=cats("punct", "eof", "error", trivia=False, kinds=FATAL)),
    "C05": job(*one("regexp"), keep=cats("regexp", "eof", "error", "punct", trivia=False, kinds=FATAL)),
    "C06": job(*one("ident"), keep=cats("words", kinds=FATAL)),
    "C07": job(*one("ident"), keep=cats("ident", "eof", "error", trivia=False, kinds=FATAL)),
    "C08": job(*one("string"), keep=cats("string", "eof", "error", trivia=False, kinds=FATAL)),
    "C09": job(*one("number"), keep=cats("number", "eof", "error", trivia=False, kinds=FATAL)),
    "C10": job(*one("punct"), keep=cats("trivia", "eof", "error", trivia=True, bad=True)),
    "C11": job(READ, FULL, cats("error", "eof")),
    "C12": job([(["punct"], list(APIS))], [(["punct", "string"], list(APIS))], cats("lookahead")),
    "C13": job(READ, FULL, lambda x: x["kind"] == "nonterm", follow=True),
}
