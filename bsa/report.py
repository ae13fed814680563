"""Findings, known findings, evidence, exit codes."""
import json
import os
import time


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("BSA_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    """One property run: obligations examined and findings."""

    def __init__(self, prop, prog, tier="quick"):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.findings = []
        self.counts = {}        # rule -> number of obligations examined
        self.samples = {}       # rule -> example constructs
        self.notes = []
        self.undecided = []
        self.floors = {}
        self.rules = {}
        self._keys = set()

    def rule(self, rule, text, floor=0):
        self.rules[rule] = text
        self.floors[rule] = floor
        self.counts.setdefault(rule, 0)

    def ok(self, rule, construct=None, n=1):
        """count an examined obligation"""
        self.counts[rule] = self.counts.get(rule, 0) + n
        if construct:
            s = self.samples.setdefault(rule, [])
            if len(s) < 400:
                s.append(str(construct))

    def bad(self, rule, key, msg, where=None):
        k = "%s|%s" % (rule, key)
        if k in self._keys:
            return
        self._keys.add(k)
        self.findings.append({"rule": rule, "key": k, "msg": msg, "where": where or ""})

    def undec(self, rule, construct, why):
        self.undecided.append({"rule": rule, "construct": construct, "why": why})

    def note(self, s):
        self.notes.append(s)


def loc(module, node):
    return "%s:%s" % (module.relpath, getattr(node, "lineno", "?"))


def load_known(prop):
    """key -> text for `known:` lines of this property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, txt = rest[4:].partition(" :: ")
                    out[key.strip()] = txt.strip()
    return out


def finish(ctx, title, explanation, assumptions, t0, selftest_info):
    known = load_known(ctx.prop)
    seen_known, viol = [], []
    for f in ctx.findings:
        if f["key"] in known:
            seen_known.append((f, known[f["key"]]))
        else:
            viol.append(f)
    broken = []
    for r, fl in ctx.floors.items():
        if ctx.counts.get(r, 0) + sum(u["rule"] == r for u in ctx.undecided) < fl:
            broken.append("rule %s examined %d constructs, fewer than the %d confirmed by hand"
                          % (r, ctx.counts.get(r, 0), fl))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, ctx.prop + ".violations.json")
    cov = {
        "explanation": explanation,
        "rules": {r: {"text": t, "obligations_examined": ctx.counts.get(r, 0),
                      "minimum_expected": ctx.floors.get(r, 0)} for r, t in ctx.rules.items()},
        "obligations_examined": sum(ctx.counts.values()),
        "functions_parsed": len(ctx.prog.funcs),
        "modules_parsed": len(ctx.prog.modules),
        "source_digest": ctx.prog.digest(),
        "samples": {r: s[:15] for r, s in ctx.samples.items()},
        "undecided": ctx.undecided[:80],
        "undecided_count": len(ctx.undecided),
        "known_findings_seen": [f["key"] for f, _ in seen_known],
        "self_test": selftest_info,
        "notes": ctx.notes,
    }
    if ctx.tier == "thorough":
        cov["all_constructs"] = ctx.samples
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s %s: %d modules, %d functions, %d obligations examined, %d undecided, %d finding(s), %d known"
          % (ctx.prop, title, len(ctx.prog.modules), len(ctx.prog.funcs), sum(ctx.counts.values()),
             len(ctx.undecided), len(viol), len(seen_known)))
    for r in ctx.rules:
        print("  rule %-28s %5d examined" % (r, ctx.counts.get(r, 0)))
    for f, txt in seen_known:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (ctx.prop, txt or f["msg"], f["key"], f["where"]))
    if viol:
        with open(replay, "w") as fh:
            json.dump(viol, fh, indent=1)
        for f in viol:
            print("  %s: [%s] %s  (key %s)" % (f["where"], f["rule"], f["msg"], f["key"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, os.path.relpath(replay, VERIF)))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN: " + b)
        return 3
    return 0
