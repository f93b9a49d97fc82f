"""What one check found: obligations, violations, coverage."""
import collections


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.obs = []            # (rule, key, ok)
        self.viol = collections.OrderedDict()   # key -> dict
        self.counts = collections.OrderedDict()
        self.rules = collections.OrderedDict()
        self.notes = []
        self.fns = set()

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, key):
        self.obs.append((rid, key, True))

    def bad(self, rid, key, where, msg, trace=None):
        """key carries no line number: it names the construct."""
        self.obs.append((rid, key, False))
        k = '%s|%s' % (rid, key)
        if k not in self.viol:
            self.viol[k] = {'key': k, 'rule': rid, 'where': where, 'msg': msg, 'trace': trace or []}

    def check(self, rid, key, cond, where, msg, trace=None):
        if cond:
            self.ok(rid, key)
        else:
            self.bad(rid, key, where, msg, trace)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fail closed: a rule that matches fewer sites than were confirmed by hand"""
        have = self.counts.get(name, 0)
        self.check('floor', name, have >= n, 'engine', 'only %d %s found, at least %d expected: the rule lost its anchor' % (have, name, n))

    def anchor(self, what, cond):
        self.check('anchor', what, cond, 'engine', 'anchor not found: %s' % what)
        return cond


def where(sp):
    return '%s:%s' % (sp[0], sp[1])
