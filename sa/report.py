"""Result of one property's analysis."""


class Report:
    def __init__(self, rule, func, obj, where, text, trail=""):
        self.rule, self.func, self.obj, self.where, self.text, self.trail = rule, func, obj, where, text, trail

    def key(self):
        return ("%s|%s|%s" % (self.rule, self.func, self.obj)).replace(" ", "_")

    def full(self):
        s = "%s [%s]\nat %s" % (self.text, self.key(), self.where)
        if self.trail:
            s += "\npath (last decisions first): " + self.trail
        return s


class Result:
    def __init__(self, pid, w):
        self.pid = pid
        self.w = w
        self.reports = []
        self.counts = {}
        self.floors = []
        self.rules = []
        self.assumptions = []

    def add(self, rule, func, obj, where, text, trail=""):
        self.reports.append(Report(rule, func, obj, where, text, trail))

    def count(self, name, n, floor=None):
        """what was analysed; fewer than floor means the rule lost its anchors"""
        self.counts[name] = n
        if floor is not None:
            self.floors.append((name, n, floor))

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def verify_floor(self):
        bad = ["%s=%d (expected at least %d)" % x for x in self.floors if x[1] < x[2]]
        if bad:
            raise RuntimeError("anchors vanished: " + "; ".join(bad))

    def explanation(self):
        return "static analysis of %d compilation units: %s" % (self.w.info["units"], ", ".join("%s=%s" % kv for kv in self.counts.items()))
