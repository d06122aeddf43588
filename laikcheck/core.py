"""Check context: obligations, violations, known findings, evidence, exit code."""
import json, os, sys, time, traceback
from . import build, ir

VERIF = build.VERIF


class Check:
    pid = None
    title = ""
    technique = ""
    rules = ""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obligations = []      # (rule, instance, ok)
        self.violations = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.units = None
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    # ---- recording -------------------------------------------------------
    def ok(self, rule, instance):
        self.obligations.append((rule, instance, True))

    def bad(self, rule, instance, loc, msg, key=None):
        self.obligations.append((rule, instance, False))
        k = key or (rule + "|" + instance)
        for v in self.violations:
            if v["key"] == k:
                return
        self.violations.append({"rule": rule, "instance": instance, "at": loc, "message": msg, "key": k})

    def check(self, cond, rule, instance, loc, msg, key=None):
        if cond:
            self.ok(rule, instance)
        else:
            self.bad(rule, instance, loc, msg, key)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, n, least):
        """instance-count floor: below it the rule has lost its anchors"""
        self.counts[name] = n
        if n < least:
            raise build.AnalysisError("%s: %s = %d, expected at least %d (rule lost its anchors)" % (self.pid, name, n, least))

    def selftest(self, cond, what):
        if not cond:
            raise build.AnalysisError("%s: self-test failed: %s" % (self.pid, what))
        self.count("self_tests")


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=C01 key=<key> :: text
                head, _, text = line[7:].partition(" :: ")
                prop, _, key = head.partition(" key=")
                out.append((prop.replace("property=", "").strip(), key.strip(), text.strip()))
    return out


def load(jobs=(), **kw):
    d = build.analyse(jobs=jobs, **kw)
    m = ir.Module(d)
    return m


def finish(c, explanation):
    known = [k for k in known_findings() if k[0] == c.pid]
    kmap = {k[1]: k[2] for k in known}
    new, seen = [], []
    for v in c.violations:
        if v["key"] in kmap:
            seen.append(v)
        else:
            new.append(v)
    for v in seen:
        print("KNOWN-FINDING: property=%s %s (%s)" % (c.pid, kmap[v["key"]], v["at"]))
    edir = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rules = {}
    for r, i, ok in c.obligations:
        d = rules.setdefault(r, {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += 1 if ok else 0
    seen_i, inst = set(), []
    for r, i, ok in c.obligations:
        if (r, i) not in seen_i:
            seen_i.add((r, i))
            inst.append("%s: %s%s" % (r, i, "" if ok else "  [VIOLATED]"))
    ev = {
        "property": c.pid, "tier": c.tier, "seed": c.seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(c.obligations),
            "discharged": sum(1 for o in c.obligations if o[2]),
            "rules": rules,
            "analysed": dict(c.counts),
            "instances": inst[:400],
            "samples": c.samples[:20],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(edir, c.pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d known finding(s), %d violation(s), %.1fs" % (
        c.pid, len(c.obligations), ev["coverage"]["discharged"], len(seen), len(new), ev["wall_s"]))
    for r, d in sorted(rules.items()):
        print("  rule %-40s %d/%d" % (r, d["discharged"], d["obligations"]))
    rep = os.path.join(edir, c.pid + ".report.txt")
    if new:
        with open(rep, "w") as f:
            for v in new:
                f.write("%s: [%s] %s\n    instance: %s\n    key: %s\n" % (v["at"], v["rule"], v["message"], v["instance"], v["key"]))
        for v in new:
            print("  %s: [%s] %s (instance %s)" % (v["at"], v["rule"], v["message"], v["instance"]))
            print("    key=%s" % v["key"])
        print("VIOLATION property=%s replay=%s" % (c.pid, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    return 0


def main(argv):
    import importlib
    pid = argv[1]
    for a in argv[2:]:
        if a == "--thorough":
            os.environ["VERIF_TIER"] = "thorough"
    mod = importlib.import_module("laikcheck.rules." + pid)
    c = Check(pid)
    try:
        expl = mod.run(c)
        if not c.obligations:
            raise build.AnalysisError("no obligation generated")
    except build.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s: internal error" % pid)
        return 3
    return finish(c, expl or mod.__doc__ or "")
