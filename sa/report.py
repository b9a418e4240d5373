"""Obligations, known findings, evidence, exit status."""

import hashlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Ob:
    """One obligation: status in ok / bad / undecided"""

    __slots__ = ("rule", "key", "where", "status", "detail", "n")

    def __init__(self, rule, key, where, status, detail="", n=1):
        self.rule, self.key, self.where, self.status, self.detail, self.n = (
            rule, key, where, status, detail, n,
        )


class Report:
    def __init__(self, prop, rules):
        self.prop = prop
        self.rules = rules  # {rule id: text}
        self.obs = []
        self.analysed = {}
        self.assumptions = []

    def ok(self, rule, key, where="", detail="", n=1):
        self.obs.append(Ob(rule, key, where, "ok", detail, n))

    def bad(self, rule, key, where, detail):
        self.obs.append(Ob(rule, key, where, "bad", detail))

    def und(self, rule, key, where="", detail=""):
        self.obs.append(Ob(rule, key, where, "undecided", detail))

    def note(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n


def digest(s):
    return hashlib.sha1(s.encode()).hexdigest()[:10]


def load_known():
    """lines: `known: property=C01 key=<key> | text` and `fixed: ...`"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        body = line[len("known: "):]
        head, _, text = body.partition(" | ")
        prop, key = head.split(" ", 1)
        out[(prop.split("=", 1)[1], key.split("=", 1)[1].strip())] = text
    return out


def finish(rep, t0, level="other"):
    known = load_known()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    bad, listed = [], []
    seen = set()
    for o in rep.obs:
        if o.status != "bad":
            continue
        if (rep.prop, o.key) in known:
            if o.key not in seen:
                listed.append(o)
        elif o.key not in seen:
            bad.append(o)
        seen.add(o.key)
    counts = {}
    for o in rep.obs:
        c = counts.setdefault(o.rule, {"ok": 0, "bad": 0, "undecided": 0})
        c[o.status] += o.n
    und = [o for o in rep.obs if o.status == "undecided"]
    okk = [o for o in rep.obs if o.status == "ok"]
    step = max(1, len(okk) // 12)
    cov = {
        "explanation": "Static analysis of the current source under /repo (nothing imported or run). Rules: "
        + " ".join(f"[{k}] {v}" for k, v in rep.rules.items()),
        "obligations_by_rule": counts,
        "analysed": rep.analysed,
        "decided_samples": [
            {"rule": o.rule, "construct": o.key, "where": o.where, "detail": o.detail[:200]} for o in okk[::step]
        ],
        "undecided": [{"rule": o.rule, "construct": o.key, "why": o.detail[:200]} for o in und][:400],
        "known_findings": [{"construct": o.key, "where": o.where} for o in listed],
    }
    ev = {
        "property": rep.prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": cov,
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in listed:
        print(f"KNOWN-FINDING: property={rep.prop} {o.key} at {o.where}: {known[(rep.prop, o.key)]}")
    print(
        f"{rep.prop}: obligations ok={sum(o.n for o in okk)} undecided={len(und)} "
        f"violations={len(bad)} known={len(listed)} wall={ev['wall_s']}s"
    )
    if bad:
        rp = os.path.join(d, rep.prop + ".violations.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write(f"rule: {rep.rules.get(o.rule, o.rule)}\nkey: {o.key}\nwhere: {o.where}\n{o.detail}\n\n")
        for o in bad[:20]:
            print(f"  {o.where}: [{o.rule}] {o.key}\n      {o.detail[:1500]}")
        print(f"VIOLATION property={rep.prop} replay={rp}")
        return 1
    return 0
