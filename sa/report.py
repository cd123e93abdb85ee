"""Shared plumbing of the checks: obligations, violations, known findings, evidence, exit code."""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


class Check:
    def __init__(self, pid, rule, explanation, trusted=()):
        self.pid = pid
        self.rule = rule
        self.explanation = explanation
        self.trusted = list(trusted)
        self.t0 = time.time()
        self.obl = []          # (key, ok, text)
        self.viol = []
        self.cov = {}
        self.assumptions = []

    # an obligation is one (program point, rule instance) that has to hold
    def ok(self, key, text=""):
        self.obl.append((key, True, text))

    def bad(self, key, where, text, path=()):
        """key: stable identity of the violation (used to match known findings)"""
        self.obl.append((key, False, text))
        if not any(v["key"] == key and v["where"] == where for v in self.viol):
            self.viol.append({"key": key, "where": where, "text": text, "path": list(path)})

    def anchor(self, cond, what):
        if not cond:
            self.bad(f"anchor:{what}", "-", f"the rule's anchor is gone: {what}; the property cannot be decided on this tree")

    def finish(self, level="other"):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        known = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l and not l.startswith("#"):
                    d = json.loads(l)
                    if d.get("status") == "known" and d["property"] == self.pid:
                        known.append(d)
        new = []
        hit = []
        for v in self.viol:
            k = [d for d in known if d["key"] == v["key"]]
            if k:
                hit.append((k[0], v))
            else:
                new.append(v)
        if not self.obl and not new:
            new.append({"key": "vacuous", "where": "-", "text": "the rule found nothing to check on this tree", "path": []})
        samples = [f"{k}: {t}" for k, o, t in self.obl if o][:12]
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": level,
            "coverage": dict(
                explanation=self.explanation, rule=self.rule,
                obligations=len(self.obl), discharged=sum(1 for o in self.obl if o[1]),
                trusted_base=self.trusted, samples=samples, **self.cov),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        done = set()
        for d, v in hit:
            if d["key"] not in done:
                done.add(d["key"])
                print(f"KNOWN-FINDING: property={self.pid} {d['what']}")
        rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
        if os.path.exists(rp):
            os.unlink(rp)
        if new:
            with open(rp, "w") as f:
                for v in new:
                    f.write(f"[{v['key']}] {v['where']}: {v['text']}\n")
                    for p in v["path"]:
                        f.write(f"    via {p}\n")
            for v in new[:10]:
                print(f"  {v['where']}: {v['text']}")
                for p in v["path"][:12]:
                    print(f"      via {p}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid}: held; {len(self.obl)} obligations, {sum(1 for o in self.obl if o[1])} discharged, {time.time()-self.t0:.1f}s")
        return 0
