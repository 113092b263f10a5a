"""Collects obligations and findings of one check run; writes the evidence."""
from __future__ import annotations

import json
import os
import time
from typing import Any, Dict, List

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop: str):
        self.prop = prop
        self.t0 = time.time()
        self.rules: Dict[str, Dict[str, Any]] = {}
        self.findings: List[dict] = []
        self.undecided: List[dict] = []
        self.assumptions: List[str] = []
        self.analysed: set = set()
        self.samples: List[str] = []
        self.explanation = ""
        self.extra: Dict[str, Any] = {}

    def rule(self, rid: str, text: str, minimum: int = 1):
        self.rules.setdefault(rid, {"text": text, "minimum": minimum, "obligations": 0, "discharged": 0, "samples": []})
        self.rules[rid]["text"] = text
        self.rules[rid]["minimum"] = minimum
        return rid

    def ok(self, rid: str, construct: str, where: str = ""):
        r = self.rules[rid]
        r["obligations"] += 1
        r["discharged"] += 1
        if len(r["samples"]) < 3:
            r["samples"].append(f"{construct} {where}".strip())

    def bad(self, rid: str, construct: str, msg: str, where: str = ""):
        r = self.rules[rid]
        r["obligations"] += 1
        for f in self.findings:
            if f["rule"] == rid and f["construct"] == construct:
                return
        self.findings.append({"rule": rid, "construct": construct, "where": where, "msg": msg})

    def check(self, cond: bool, rid: str, construct: str, msg: str = "", where: str = ""):
        if cond:
            self.ok(rid, construct, where)
        else:
            self.bad(rid, construct, msg, where)
        return cond

    def undecide(self, rid: str, construct: str, msg: str):
        self.undecided.append({"rule": rid, "construct": construct, "msg": msg})

    # ------------------------------------------------------------------ finish
    def finish(self, tier: str, seed: int, error: str = None) -> int:
        known = load_known(self.prop)
        new, listed = [], []
        for f in self.findings:
            k = [e for e in known if e["rule"] == f["rule"] and e["construct"] == f["construct"]]
            (listed if k else new).append(f)
        vac = [rid for rid, r in self.rules.items() if r["obligations"] < r["minimum"]]
        ob = sum(r["obligations"] for r in self.rules.values())
        di = sum(r["discharged"] for r in self.rules.values())
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": self.explanation,
                "obligations": ob,
                "discharged": di,
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:400],
                "rules": {k: {"rule": r["text"], "obligations": r["obligations"], "discharged": r["discharged"], "samples": r["samples"]} for k, r in self.rules.items()},
                "undecided": self.undecided[:50],
                "known_findings": [f["rule"] + ": " + f["construct"] for f in listed],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for f in listed:
            print(f"KNOWN-FINDING: property={self.prop} [{f['rule']}] {f['construct']}: {f['msg']} {f['where']}")
        rp = os.path.join(evdir, f"{self.prop}.violations.txt")
        if new:
            with open(rp, "w") as fh:
                for f in new:
                    line = f"[{f['rule']}] {f['construct']} {f['where']}: {f['msg']}"
                    fh.write(line + "\n    rule: " + self.rules[f["rule"]]["text"] + "\n")
                    print("  " + line)
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        for u in self.undecided:
            print(f"UNDECIDED [{u['rule']}] {u['construct']}: {u['msg']}")
        if error:
            print(f"ANALYSIS-ERROR property={self.prop}: {error}")
            return 2
        if vac:
            print(f"ANALYSIS-ERROR property={self.prop}: rule(s) matched fewer instances than confirmed by hand: " + ", ".join(f"{v} ({self.rules[v]['obligations']}<{self.rules[v]['minimum']})" for v in vac))
            return 2
        if self.undecided:
            print(f"ANALYSIS-ERROR property={self.prop}: {len(self.undecided)} undecided obligation(s)")
            return 2
        print(f"OK property={self.prop} obligations={ob} discharged={di} known={len(listed)} wall={ev['wall_s']}s")
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        d = json.load(fh)
    return [e for e in d.get("known", []) if e["property"] == prop]
