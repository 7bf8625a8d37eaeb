"""Reports: violations with stable keys, known findings, evidence."""
import os, json, time, sys, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.viols = {}
        self.notes = []
        self.rule = ""
        self.lists = {}

    def count(self, what, n=1):
        self.counts[what] += n

    def add(self, what, x):
        self.lists.setdefault(what, [])
        if x not in self.lists[what]:
            self.lists[what].append(x)

    def undecided(self, what, why):
        """a part the analysis could not decide: neither held nor violated"""
        self.add("undecided", "%s: %s" % (what, why))

    def viol(self, key, msg, where=""):
        """key: identity of the failing construct, stable under unrelated edits"""
        self.viols.setdefault(key, (msg, where))


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                pid, key = line[len("finding: "):].split(" ", 1)
                key, _, text = key.partition(" -- ")
                out[(pid.split("=")[1], key.strip())] = text.strip()
    return out


def finish(rep, tier, technique):
    kf = known()
    bad, kn = [], []
    for key, (msg, where) in rep.viols.items():
        if (rep.pid, key) in kf:
            kn.append((key, kf[(rep.pid, key)] or msg))
        else:
            bad.append((key, msg, where))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"explanation": rep.rule}
    cov.update(rep.counts)
    for k, v in rep.lists.items():
        cov[k] = v
    if rep.notes:
        cov["notes"] = rep.notes
    cov["known_findings"] = [k for k, _ in kn]
    ev = {"property": rep.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - rep.t0, 3),
          "violations": [{"key": k, "what": m, "where": w} for k, m, w in bad]}
    path = os.path.join(VERIF, "evidence", rep.pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, t in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (rep.pid, t, k))
    for k, m, w in bad[:20]:
        print("  %s: %s%s" % (k, m, " [%s]" % w if w else ""))
    und = rep.lists.get("undecided", [])
    for x in und[:25]:
        print("UNDECIDED: property=%s %s" % (rep.pid, x[:600]))
    if len(und) > 25:
        print("UNDECIDED: property=%s %d more (listed in the evidence file)" % (rep.pid, len(und) - 25))
    print("%s: %s" % (rep.pid, ", ".join("%s=%d" % x for x in sorted(rep.counts.items()))))
    if bad:
        print("VIOLATION property=%s replay=%s" % (rep.pid, "evidence/%s.json" % rep.pid))
        return 1
    return 0
