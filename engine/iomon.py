"""Typestate monitors for code that talks to std::io readers and writers."""
from . import flow
from .mir import callee, callee_decl
from .fault import FAILV, opt_err, shapes

EINTR = 'Interrupted'


def io_op(t):
    """'read', 'write', 'write_all', 'read_line', 'flush' for a std::io call, else None"""
    d = callee_decl(t) or ''
    c = callee(t) or ''
    if c.startswith('<') and not c.startswith(('<std::', '<core::', '<alloc::', '<&')):
        return None         # an implementation of this crate: a forwarder
    for tr in ('io::Read::', 'io::Write::', 'io::BufRead::'):
        if tr in d and (d.startswith('std::') or d.startswith('core::')):
            return d.split('::')[-1]
    c = callee(t) or ''
    if ' as std::io::' in c or ' as core::io::' in c:
        return c.split('::')[-1]
    return None


def failing_ret(f, ints=frozenset()):
    for k, v in f.items():
        if k[0] == 0 and v[0] == 'var' and v[1] and v[1] <= FAILV:
            return True
        if k == (0, ()) and v[0] == 'int' and v[1] <= ints:
            return True
    return False


def result_fork(sim, okmon, errmon, okextra=None):
    ok = {(): ('var', frozenset(['Ok']))}
    ok.update(okextra or {})
    return [(okmon, ok), (errmon, {(): ('var', frozenset(['Err']))})]


class Common(flow.Monitor):
    init = ()

    def __init__(self, crate, ib):
        self.crate = crate
        self.ib = ib
        self.bad = {}
        self.sites = {}

    def std(self, sim, f, t, mon):
        """model Result/Try/eq calls shared by all monitors; True if handled"""
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        fk = sim.eq_forks(f, t)
        if fk is not None:
            sim.forks = [(mon, r, ex) for r, ex in fk]
            return True
        if d.endswith('Try::branch'):
            p = self.ib.norm(t['a'][0]['pl']) if 'pl' in t['a'][0] else None
            v = f.get(p) if p is not None else None
            vs = v[1] if v is not None and v[0] == 'var' else frozenset(['Ok', 'Err'])
            sim.forks = []
            if 'Ok' in vs:
                ex = {(): ('var', frozenset(['Continue']))}
                pv = f.get((p[0], p[1] + (('d', 'Ok'), ('f', '0')))) if p is not None else None
                if pv is not None:
                    ex[(('d', 'Continue'), ('f', '0'))] = pv
                sim.forks.append((mon, ex))
            if 'Err' in vs:
                sim.forks.append((mon, {(): ('var', frozenset(['Break']))}))
            return True
        if d.endswith('from_residual'):
            sim.result = frozenset(['Err'])
            return True
        if 'result::Result::' in d and last in ('map_err', 'unwrap', 'expect'):
            p = self.ib.norm(t['a'][0]['pl']) if 'pl' in t['a'][0] else None
            v = f.get(p) if p is not None else None
            vs = v[1] if v is not None and v[0] == 'var' else frozenset(['Ok', 'Err'])
            if last == 'map_err':
                sim.result = vs
                return True
            if vs == frozenset(['Err']):
                self.dead = True
            return True
        return False

    def flag(self, sim, key, msg):
        if key not in self.bad:
            self.bad[key] = (msg, sim.trace())

    def key(self, bi, op):
        return (self.ib.blocks[bi]['fn'], op)


class Retry(Common):
    """an Interrupted read or write is retried; any other handling must have asked kind()"""

    def stmt(self, sim, f, bi, s, mon):
        if mon and s['k'] == '=' and any(e[0] == '*' for e in s['d']['p']):
            ty = sim.place_ty(s['d']) or ''
            if 'io::Error' in ty and s['r']['k'] in ('agg', 'use'):
                if mon[0] == 'intr' or not mon[2]:
                    self.flag(sim, mon[1], 'the error of a %s is kept without asking whether it was Interrupted' % mon[1][1])
                return ()
        return mon

    def call(self, sim, f, bi, t, mon):
        op = io_op(t)
        d = callee_decl(t) or ''
        if op in ('read', 'write'):
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = result_fork(sim, (), ('err', k, False, bi))
            return mon
        if mon and mon[0] == 'err' and d.split('::')[-1] == 'kind' and 'Error' in d:
            allk = self.crate.variants('std::io::ErrorKind') or self.crate.variants('core::io::ErrorKind') or {0: 'Other', 1: EINTR}
            sim.forks = [(('intr', mon[1], True, mon[3]), {(): ('var', frozenset([EINTR]))}),
                         (('err', mon[1], True, mon[3]), {(): ('var', frozenset(x for x in allk.values() if x != EINTR) or frozenset(['Other']))})]
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def edge(self, sim, f, bi, nb, mon):
        if mon and mon[0] == 'intr':
            lp = flow.innermost_loop(self.ib, mon[3])
            if lp is None or nb not in lp[1]:
                self.flag(sim, mon[1], 'an Interrupted %s leaves its loop instead of being retried' % mon[1][1])
                return ()
            if nb == lp[0]:
                return ()
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and mon[0] == 'intr':
            self.flag(sim, mon[1], 'an Interrupted %s can end the call instead of being retried' % mon[1][1])
        elif mon and not mon[2]:
            self.flag(sim, mon[1], 'the error of a %s ends the call without asking whether it was Interrupted' % mon[1][1])


class Flush(Common):
    """whatever was written to the output is flushed before success is returned"""

    def call(self, sim, f, bi, t, mon):
        op = io_op(t)
        if op in ('write', 'write_all', 'write_fmt'):
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = result_fork(sim, ('dirty', k), ('dirty', k))
            return mon
        if op == 'flush':
            self.sites[self.key(bi, op)] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = result_fork(sim, (), ())
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and not failing_ret(f):
            self.flag(sim, mon[1], 'success can be returned after a %s without flushing the output' % mon[1][1])


class Eof(Common):
    """end of input before the decoder answered Success must end in an error"""

    def call(self, sim, f, bi, t, mon):
        op = io_op(t)
        d = callee_decl(t) or ''
        if op == 'read':
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = [(mon, {(): ('var', frozenset(['Ok'])), (('d', 'Ok'), ('f', '0')): ('int', frozenset([1]))}),
                         (('eof', k), {(): ('var', frozenset(['Ok'])), (('d', 'Ok'), ('f', '0')): ('int', frozenset([0]))}),
                         (mon, {(): ('var', frozenset(['Err']))})]
            return mon
        if d.endswith('Decompressor::decode'):
            self.sites[self.key(bi, 'decode')] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = [((), frozenset(['Success'])), (mon, frozenset(['Failure'])), (mon, frozenset(['NeedsMoreInput'])), (mon, frozenset(['NeedsMoreOutput']))]
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and not failing_ret(f):
            self.flag(sim, mon[1], 'the input can end before the stream does and success is returned')


def run(crate, ib, mon_cls, cap=300):
    m = mon_cls(crate, ib)

    def keep(k, v):
        return v[0] in ('var', 'disc') or (v[0] == 'int' and v[1] <= frozenset([0, 1, 2, 3]))
    s = flow.Sim(ib, m, cap=cap, keep=keep).run()
    return m, s


def reaching(crate, pred):
    """local functions from which a call satisfying pred is reachable"""
    base = set()
    for p, b in crate.fns.items():
        for _, t in b.calls():
            if pred(t):
                base.add(p)
                break
    cg = crate.callgraph()
    out = set(base)
    ch = True
    while ch:
        ch = False
        for p, ss in cg.items():
            if p not in out and ss & out:
                out.add(p)
                ch = True
    return out
