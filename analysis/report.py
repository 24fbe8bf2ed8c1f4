"""Check results, known findings, evidence."""
import json, os, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = []
        self.obligations = []   # (rule, what, verdict)
        self.violations = []    # dict(key, where, what, trace)
        self.undecided = []
        self.analysed = {}
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})

    def ok(self, rule, what):
        self.obligations.append((rule, what, "holds"))

    def bad(self, rule, key, where, what, trace=()):
        """key identifies the failing construct (no line numbers) for the known-findings file."""
        key = "%s:%s" % (rule, key)
        self.obligations.append((rule, key, "VIOLATED"))
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"rule": rule, "key": key, "where": where, "what": what, "trace": list(trace)})

    def unk(self, rule, what, why):
        self.obligations.append((rule, what, "undecided"))
        self.undecided.append({"rule": rule, "what": what, "why": str(why)})

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                parts = l[len("finding: "):].split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out[(pid, key)] = parts[2] if len(parts) > 2 else key
    return out


def finish(rep, tier, level="other"):
    kn = known()
    new, old = [], []
    for v in rep.violations:
        k = (rep.pid, v["key"].replace(" ", "_"))
        if k in kn:
            old.append((v, kn[k]))
        else:
            new.append(v)
    for v, txt in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (rep.pid, txt, v["key"], v["where"]))
    rdir = os.path.join(ROOT, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(new):
        path = os.path.join(rdir, "%s-%d.json" % (rep.pid, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("%s: [%s] %s" % (v["where"], v["rule"], v["what"]))
        for t in v["trace"]:
            print("      " + t)
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
    by = {}
    for r, w, s in rep.obligations:
        d = by.setdefault(r, {"holds": 0, "VIOLATED": 0, "undecided": 0})
        d[s] += 1
    samples = []
    seen = {}
    for r, w, s in rep.obligations:
        if seen.get(r, 0) < 6:
            seen[r] = seen.get(r, 0) + 1
            samples.append("[%s] %s: %s" % (r, w, s))
    n = len(rep.obligations)
    ev = {
        "property": rep.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "explanation": "Static analysis of the compiler's MIR of /repo's current tree (library and all tools); "
                           "each obligation is one construct (function, call site, table entry or path set) judged by the named rule.",
            "rules": rep.rules, "obligations": n,
            "discharged": sum(1 for o in rep.obligations if o[2] == "holds"),
            "per_rule": by, "analysed": rep.analysed, "undecided": rep.undecided[:50],
            "samples": samples,
            "known_findings": [v["key"] for v, _ in old],
        },
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d known findings, %d new violations" % (
        rep.pid, n, ev["coverage"]["discharged"], len(rep.undecided), len(old), len(new)))
    return 1 if new else 0
