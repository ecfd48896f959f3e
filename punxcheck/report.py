"""Obligations of a property, and how they are reported."""
import os

from .program import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Obligation:
    __slots__ = ("rule", "instance", "where", "detail")

    def __init__(self, rule, instance, where, detail):
        self.rule, self.instance, self.where, self.detail = rule, instance, where, detail

    def key(self):
        return "%s|%s" % (self.rule, self.instance)

    def text(self):
        s = "[%s] %s" % (self.rule, self.instance)
        if self.where:
            s = "%s: %s" % (self.where, s)
        if self.detail:
            s += "\n    " + str(self.detail).replace("\n", "\n    ")
        return s


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}
        self.count = 0
        self.bad = []
        self.samples = []
        self.functions = set()
        self.events = 0
        self.loops = 0
        self.notes = []
        self.short = []

    def rule(self, name, text):
        """declare a rule; obligations name it"""
        self.rules[name] = text

    def ob(self, rule, instance, ok, where=None, detail=None):
        """one obligation"""
        if rule not in self.rules:
            raise AnalysisBroken("undeclared rule " + rule)
        self.count += 1
        if ok:
            if len([s for s in self.samples if s.startswith("[%s]" % rule)]) < 6:
                self.samples.append(("[%s] %s" % (rule, instance))[:400])
        else:
            self.bad.append(Obligation(rule, instance, where, detail))
        return ok

    def unshown(self, what, where=None, detail=None):
        """an obligation which could not be discharged, as there is no answer"""
        self.rules.setdefault("decided", "the analysis finds what the property is about, and puts it in a closed form it can decide")
        self.ob("decided", what, False, where, detail)

    def analysed(self, *results):
        """record what an analysis looked at"""
        for r in results:
            self.events += len(r.events)
            for e in r.events:
                for f in e.stack:
                    self.functions.add(f.where())
                if e.kind == "enter_fn":
                    self.functions.add(e.args["func"].where())

    def floor(self, what, n, least):
        """the number of instances must not fall below what was confirmed by hand"""
        self.notes.append("%s: %d" % (what, n))
        if n < least:
            self.short.append("%s: found %d, expected at least %d" % (what, n, least))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out
