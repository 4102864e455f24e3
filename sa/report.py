"""Collecting verdicts, evidence and the exit status of a check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.ok = {}            # (rule, construct) -> message
        self.bad = {}           # (rule, construct) -> (where, message)
        self.und = {}           # (rule, construct) -> why
        self.rules = {}         # rule -> one line
        self.need = {}          # rule -> minimal number of decided instances
        self.interps = []
        self.notes = []
        self.prog = None

    def rule(self, rid, text, need=1):
        self.rules[rid] = text
        self.need[rid] = need

    def use(self, I):
        self.interps.append(I)
        self.prog = I.prog
        return I

    def verdict(self, rule, construct, v, msg="", where=None):
        assert rule in self.rules, rule
        k = (rule, construct)
        if v is None:
            self.und.setdefault(k, msg)
        elif v:
            self.ok.setdefault(k, msg)
        else:
            self.bad.setdefault(k, (where, msg))

    # ------------------------------------------------------------------
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding="utf-8") as f:
                for line in f:
                    line = line.strip()
                    if not line.startswith("known: "):
                        continue
                    head, _, text = line[len("known: "):].partition(" :: ")
                    kv = dict(x.split("=", 1) for x in head.split(" "))
                    if kv.get("property") == self.prop:
                        out[(kv["rule"], kv["construct"].replace("~", " "))] = text
        return out

    def finish(self):
        known = self.known()
        viol, listed = [], []
        for k, (where, msg) in sorted(self.bad.items(), key=str):
            (listed if k in known else viol).append((k, where, msg))
        decided = {}
        for (r, _c) in list(self.ok) + list(self.bad):
            decided[r] = decided.get(r, 0) + 1
        seen = dict(decided)
        for (r, _c) in self.und:
            seen[r] = seen.get(r, 0) + 1
        # a property of which nothing could be decided is an error of the analysis; a single
        # rule whose anchors vanished (a helper renamed, a loop rewritten) is only reported
        short = list(self.need) if not decided else []
        fns = sorted({".".join(f) for I in self.interps for f in I.stats["functions"]})
        sites = {s for I in self.interps for s in I.stats["call_sites"]}
        imprecise = {}
        for I in self.interps:
            for k, n in I.unknown.items():
                imprecise[k] = imprecise.get(k, 0) + n
        expl = (
            "Static analysis of the sources under /repo/src/cq_cam (parsed, never imported or run): an abstract "
            "interpretation over the syntax trees follows every branch and a fixpoint of every loop from the public "
            "entry points and checks the rules below on the resulting values, tool-path grammars, strings and "
            "exception outcomes."
        )
        cov = {
            "explanation": expl,
            "rules": self.rules,
            "instances_decided": len(self.ok) + len(self.bad),
            "instances_holding": len(self.ok),
            "instances_violating": len(self.bad),
            "instances_undecided": len(self.und),
            "decided_per_rule": decided,
            "abstract_calls": sum(I.stats["calls"] for I in self.interps),
            "state_forks": sum(I.stats["forks"] for I in self.interps),
            "loop_fixpoint_rounds": sum(I.stats["fixpoint_rounds"] for I in self.interps),
            "functions_analysed": fns,
            "call_sites_resolved": len(sites),
            "imprecise_constructs": imprecise,
            "holding": [f"{r}: {c}" + (f" -- {m}" if m else "") for (r, c), m in sorted(self.ok.items(), key=str)][:200],
            "undecided": [f"{r}: {c} -- {m}" for (r, c), m in sorted(self.und.items(), key=str)][:100],
            "not_analysed": self.notes,
            "known_findings": [f"{r}: {c} -- {m}" for (r, c), _w, m in listed],
        }
        if self.prog is not None:
            cov["source_digest"] = self.prog.digest.hexdigest()
            cov["modules_parsed"] = self.prog.n_modules
            cov["functions_parsed"] = self.prog.n_functions
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
            "assumptions": [
                "library calls (cadquery, OCP, pyclipper, numpy) behave as modelled in sa/models.py and sa/lib/extmodel.py",
                "callers pass values of the documented types",
            ],
            "violations": [{"rule": r, "construct": c, "where": w, "message": m} for (r, c), w, m in viol],
            "wall_s": round(time.time() - self.t0, 3),
        }
        d = os.environ.get("CQCAM_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k, where, msg in listed:
            print(f"KNOWN-FINDING: property={self.prop} {k[0]}: {k[1]}: {known[k]}")
        rp = os.path.join(d, self.prop + ".violation.json")
        if viol:
            with open(rp, "w", encoding="utf-8") as f:
                json.dump(ev["violations"], f, indent=1)
            for (r, c), where, msg in viol:
                print(f"{where or '?'}: [{r}] {c}: {msg}\n    rule: {self.rules[r]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        if short:
            for r in short:
                print(f"ANALYSIS-BROKEN property={self.prop} rule {r}: {seen.get(r, 0)} instances met, "
                      f"{decided.get(r, 0)} decided, about {self.need[r]} expected", file=sys.stderr)
            for (r, c), m in sorted(self.und.items(), key=str)[:20]:
                print(f"  undecided {r}: {c}: {m}", file=sys.stderr)
            return 3
        for r in self.need:
            if self.need[r] and not decided.get(r):
                print(f"UNDECIDED property={self.prop} rule {r}: met {seen.get(r, 0)} instances, none could be decided")
        print(f"OK property={self.prop} decided={len(self.ok) + len(self.bad)} undecided={len(self.und)} "
              f"wall={ev['wall_s']}s")
        return 0
