"""Result collection: obligations, violations, known findings, evidence file, exit code."""
import json, os, sys, time
from .build import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """{key: text} of the recorded (unrepaired) findings of a property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s key=" % prop):
                rest = l.split(" key=", 1)[1]
                key, _, txt = rest.partition(" -- ")
                out[key.strip()] = txt.strip()
    return out


class Report:
    def __init__(s, prop, rule, level="other"):
        s.prop = prop; s.rule = rule; s.level = level
        s.t0 = time.time()
        s.ob = 0; s.ok = 0
        s.samples = []
        s.viol = {}        # key -> message
        s.counts = {}
        s.assumptions = []
        s.functions = set()

    def count(s, name, n=1):
        s.counts[name] = s.counts.get(name, 0) + n

    def obligation(s, ok, key, msg, where="", fn=None):
        """one decided obligation; key identifies it independently of line numbers"""
        s.ob += 1
        if fn: s.functions.add(fn)
        if ok:
            s.ok += 1
            if len(s.samples) < 12 and s.ob % 7 == 1: s.samples.append({"obligation": key, "where": where, "verdict": "holds"})
        else:
            s.viol.setdefault(key, (msg, where))
        return bool(ok)

    def floor(s, what, n, least):
        s.counts[what] = n
        if n < least:
            raise AnalysisBroken("%s: only %d %s found (expected at least %d): the rule has lost its anchor" % (s.prop, n, what, least))

    def finish(s):
        kn = known(s.prop)
        new = {k: v for k, v in s.viol.items() if k not in kn}
        old = {k: v for k, v in s.viol.items() if k in kn}
        tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % s.prop)
        cov = {"explanation": s.rule, "obligations": s.ob, "discharged": s.ok, "functions_analysed": len(s.functions),
               "samples": s.samples[:12] or ["none"], "counts": s.counts, "known_findings_seen": sorted(old),
               "exhaustive": True, "source_tree": REPO}
        ev = {"property": s.prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": s.level,
              "coverage": cov, "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 3), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", "%s.json" % s.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (s.prop, kn[k] or k))
        print("%s: %d obligations, %d hold, %d violated, %d known" % (s.prop, s.ob, s.ok, len(new), len(old)))
        if new:
            with open(rp, "w") as f:
                for k, (msg, where) in sorted(new.items()):
                    f.write("%s\n  at %s\n  key: %s\n" % (msg, where, k))
            for k, (msg, where) in sorted(new.items()):
                print("  %s: %s   [key %s]" % (where, msg, k))
            print("VIOLATION property=%s replay=%s" % (s.prop, rp))
            return 1
        elif os.path.exists(rp): os.remove(rp)
        return 0


def prog(also=()):
    """the analysed program with the standard set of calls kept"""
    from .ir import load
    return load([l.strip() for l in open(os.path.join(VERIF, "sa", "keep.txt")) if l.strip()] + list(also))
