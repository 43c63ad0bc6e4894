"""Findings, known findings, evidence and exit codes."""
import json
import os
import re
import sys
import time

from .program import AnalysisBroken, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.txt")
EVID = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))


def known_findings(pid):
    """known: property=P10 key=<rule>|<construct> :: <what fails>"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+key=(.*?)\s+::\s+(.*)$", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


class Check:
    """Collects the obligations of one property and what became of them."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.rules = {}
        self.samples = []
        self.assumptions = []
        self.analysed = set()
        self.obligations = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def ok(self, rule, construct=None):
        self.obligations += 1
        self.count("obligations:" + rule)
        if construct is not None and len(self.samples) < 12:
            s = "%s: %s" % (rule, construct)
            if s not in self.samples:
                self.samples.append(s)

    def func(self, f):
        self.analysed.add(f if isinstance(f, str) else f.full)

    def finding(self, rule, construct, where, msg, trace=()):
        self.findings.setdefault("%s|%s" % (rule, construct), []).append((rule, construct, where, msg, tuple(trace)))

    def judge(self, cond, rule, construct, where, msg, trace=()):
        self.ok(rule, construct)
        if not cond:
            self.finding(rule, construct, where, msg, trace)
        return cond

    def at_least(self, key, n, what=None):
        got = self.counts.get(key, 0)
        if got < n:
            raise AnalysisBroken("%s: only %d of at least %d %s found" % (self.pid, got, n, what or key))

    # ------------------------------------------------------------ finish
    def finish(self, broken=None):
        known = known_findings(self.pid)
        new = {k: v for k, v in self.findings.items() if k not in known}
        old = {k: v for k, v in self.findings.items() if k in known}
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source of %s; rules: %s" % (
                    REPO, "; ".join("%s = %s" % i for i in sorted(self.rules.items()))),
                "functions_analysed": sorted(self.analysed),
                "functions": len(self.analysed),
                "obligations": self.obligations,
                "counts": dict(sorted(self.counts.items())),
                "samples": self.samples or ["(none)"],
                "known_findings_seen": sorted(old),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        if broken:
            ev["coverage"]["analysis_error"] = broken
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, known[k], k))
        if new and broken:
            print(broken[-400:], file=sys.stderr)
        if new:
            path = os.path.join(EVID, self.pid + ".report.txt")
            with open(path, "w") as f:
                for k in sorted(new):
                    for rule, construct, where, msg, trace in new[k][:3]:
                        f.write("%s\n  rule:  %s (%s)\n  where: %s\n  what:  %s\n" % (
                            construct, rule, self.rules.get(rule, ""), where, msg))
                        if trace:
                            f.write("  path:  %s\n" % " ".join(str(t) for t in trace[-30:]))
            n = 0
            for k in sorted(new):
                for rule, construct, where, msg, trace in new[k][:1]:
                    if n < int(os.environ.get("SA_MAX", 25)):
                        print("  %s: [%s] %s: %s" % (where, rule, construct, msg[:300]))
                    n += 1
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if broken:
            print("ANALYSIS-BROKEN property=%s %s" % (self.pid, broken))
            return 2
        print("OK property=%s obligations=%d functions=%d %.1fs" % (
            self.pid, self.obligations, len(self.analysed), time.time() - self.t0))
        return 0
