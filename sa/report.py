"""Collects what a check looked at and what it found wrong."""
from .build import Broken


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.counts = {}
        self.rules = {}
        self.viol = []
        self._keys = set()
        self.samples = []
        self.assumptions = []

    def rule(self, name, text):
        """Declare a rule; every rule must see at least one instance."""
        self.rules[name] = text
        self.counts.setdefault(name, 0)

    def seen(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def bad(self, rule, site, where, text):
        """One violation.  site names the construct without line numbers."""
        key = "%s:%s" % (rule, site)
        if (key, where, text) in self._keys:
            return
        self._keys.add((key, where, text))
        self.viol.append((key, where, text))

    def finish(self):
        for r in self.rules:
            if not self.counts.get(r):
                raise Broken("rule %s of %s matched nothing" % (r, self.pid))
