"""C07: the std::io adapters lose nothing between the codec and the underlying stream."""
from .. import fault, flow, iomon, mir
from ..mir import callee, callee_decl
from .c06 import sweep, EXEMPT
from .c19 import retry

EXPLAIN = ('Path-sensitive typestate over the MIR of every io::Read / io::Write implementation of the library (helpers of '
           'the two adapter modules inlined): failing calls end in Err, Interrupted is retried, a stored read error is '
           'looked at again once the buffered input is used up, produced bytes are written before success or before more '
           'are produced, flush returns Ok only after the codec said Success and the inner writer was flushed, and the '
           'close step of a decompressor turns a request for more input into a failure.')
ASSUME = ['Write::write_all retries Interrupted and short writes itself']


def proc_op(t):
    d = callee_decl(t) or ''
    if d.endswith('::Processor::process') or d.endswith('::Processor::close'):
        return d.split('::')[-1]
    return None


class Out(iomon.Common):
    """bytes a codec step may have produced are written before anything else happens"""

    def call(self, sim, f, bi, t, mon):
        op = proc_op(t)
        if op:
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            if mon:
                self.flag(sim, mon[1], 'output of a codec %s is dropped: the next codec call runs before it was written' % mon[1][1])
            sim.result = None
            return ('made', k)
        io = iomon.io_op(t)
        if io in ('write_all', 'write'):
            sim.forks = iomon.result_fork(sim, (), ('werr', self.key(bi, io)))
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and mon[0] == 'made' and not iomon.failing_ret(f):
            self.flag(sim, mon[1], 'success can be returned although the output of a codec %s was not written' % mon[1][1])


class Drain(iomon.Common):
    """a codec that has more output is run again before the write succeeds"""

    def call(self, sim, f, bi, t, mon):
        op = proc_op(t)
        if op:
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = [((), frozenset(['Success'])), (('more', k), frozenset(['NeedsMoreOutput'])), ((), frozenset(['Failure']))]
            if op == 'process':
                sim.forks.append(((), frozenset(['NeedsMoreInput'])))
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and not iomon.failing_ret(f):
            self.flag(sim, mon[1], 'success can be returned although the codec asked for more output space')


class Finish(iomon.Common):
    """flush: Ok only after close() said Success (or nothing had to be closed) and the inner flush ran"""

    def call(self, sim, f, bi, t, mon):
        op = proc_op(t)
        if op == 'close':
            k = self.key(bi, op)
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = [(('done', k), frozenset(['Success'])), (('open', k), frozenset(['NeedsMoreOutput'])), (('open', k), frozenset(['Failure']))]
            return mon
        if iomon.io_op(t) == 'flush':
            k = self.key(bi, 'flush')
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            if mon and mon[0] == 'open':
                self.flag(sim, mon[1], 'flush can go on although the codec has not finished')
            sim.forks = iomon.result_fork(sim, ('flushed', k), ('flushed', k))
            return mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def ret(self, sim, f, bi, mon):
        if iomon.failing_ret(f):
            return
        if mon and mon[0] == 'open':
            self.flag(sim, mon[1], 'flush can return success although the codec has not finished')
        elif not mon or mon[0] != 'flushed':
            self.flag(sim, (self.ib.path, 'flush'), 'flush can return success without flushing the inner writer')


class Sticky(iomon.Common):
    """a stored read error is looked at once the buffered input is used up"""
    field = None

    def _touch(self, p):
        return p is not None and any(isinstance(e, tuple) and e[0] == 'f' and e[1] == self.field for e in p[1])

    def stmt(self, sim, f, bi, s, mon):
        if mon and mon[0] == 'need' and s['k'] == '=':
            r = s['r']
            if r['k'] in ('disc',) and self._touch(self.ib.norm(r['pl'])):
                return ()
            if r['k'] == 'use' and 'pl' in r['o'] and self._touch(self.ib.norm(r['o']['pl'])):
                return ()
        return mon

    def call(self, sim, f, bi, t, mon):
        if proc_op(t):
            k = self.key(bi, proc_op(t))
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            if mon and mon[0] == 'drop':
                self.flag(sim, mon[1], 'a stored read error is taken out and not returned')
            elif mon:
                self.flag(sim, mon[1], 'the codec is run again without looking at a stored read error')
            return ('need', k)
        for a in t['a']:
            if 'pl' in a and self.ib.is_ref(a['pl']['l']) and self._touch(self.ib.target(a)):
                last = (callee_decl(t) or '').split('::')[-1]
                if last in ('take', 'replace'):
                    sim.forks = [((), frozenset(['None'])), (('drop', self.key(bi, last)), frozenset(['Some']))]
                return () if not mon or mon[0] == 'need' else mon
        self.dead = False
        if self.std(sim, f, t, mon):
            return None if self.dead else mon
        return mon

    def edge(self, sim, f, bi, nb, mon):
        # leaving through "input is left over" needs no look at the error yet
        if mon and mon[0] == 'need':
            t = self.ib.blocks[bi]['t']
            if t['k'] == 'switch' and 'pl' in t['o']:
                v = None
                p = self.ib.norm(t['o']['pl'])
                v = self.cmpfact.get((bi, p))
                if v is not None:
                    truth = f.get(p)
                    if truth is not None and truth[0] == 'int' and len(truth[1]) == 1:
                        one = 1 in truth[1]
                        if (v == 'Eq' and not one) or (v in ('Ne', 'Gt') and one):
                            return ()
        return mon

    def prep(self):
        self.cmpfact = {}
        for bi in self.ib.live_blocks:
            t = self.ib.blocks[bi]['t']
            if t['k'] == 'switch' and 'pl' in t['o']:
                p = self.ib.norm(t['o']['pl'])
                for d in self.ib.defs.get(p[0], ()):
                    if d[0] == 'rv' and d[1]['k'] == 'bin' and d[1]['b'].get('v') == 0:
                        self.cmpfact[(bi, p)] = d[1]['op']
                if t['ty'] != 'bool' and [x for x, _ in t['v']] == [0]:
                    pass

    def ret(self, sim, f, bi, mon):
        if mon and mon[0] == 'drop' and not iomon.failing_ret(f):
            self.flag(sim, mon[1], 'a stored read error is taken out and not returned')
        elif mon and not iomon.failing_ret(f):
            self.flag(sim, mon[1], 'the call can return without looking at a stored read error after the buffered input was used up')


class Close(iomon.Common):
    def call(self, sim, f, bi, t, mon):
        d = callee_decl(t) or ''
        c = callee(t) or ''
        if d.endswith('Decompressor::decode') or c.endswith('Decompressor>::decode'):
            k = self.key(bi, 'decode')
            self.sites[k] = '%s:%s' % (t['sp'][0], t['sp'][1])
            sim.forks = [((), frozenset(['Success'])), ((), frozenset(['NeedsMoreOutput'])), (('need', k), frozenset(['NeedsMoreInput'])), (('need', k), frozenset(['Failure']))]
        return mon

    def ret(self, sim, f, bi, mon):
        if mon and not iomon.failing_ret(f):
            self.flag(sim, mon[1], 'a stream that ends early is not reported as a failure when the input is closed')


def check(ctx, rep):
    L = ctx.lib
    rep.rule('fail-edge', 'a failing call of the codec or of the inner stream ends in Err')
    rep.rule('retry', 'an Interrupted read is retried')
    rep.rule('written', 'bytes the codec produced are written before success or before more are produced')
    rep.rule('drained', 'a codec that asked for more output space is run again before success')
    rep.rule('finish', 'flush returns Ok only after the codec finished and the inner writer was flushed')
    rep.rule('sticky', 'a read error kept for later is looked at again')
    rep.rule('truncated', 'closing a decompressor that wants more input is a failure')
    mods = ('reader::', 'writer::')

    def inmod(p):
        return any(m in p for m in mods)
    sweep(L, rep, 'fail-edge', EXEMPT, only=lambda b: inmod(b.path))
    rep.floor('failing call sites', 18)
    retry(L, rep, set(p for p in L.fns if inmod(p)))

    def want(caller, t, cands, stack):
        if len(cands) == 1 and inmod(cands[0].path) and not proc_op(t):
            return cands[0]
        return None
    rds, wrs, fls = [], [], []
    for p, b in sorted(L.fns.items()):
        ti = mir.canon(b.j.get('trait_item') or '')
        if ti.endswith('io::Read::read'):
            rds.append(b)
        elif ti.endswith('io::Write::write'):
            wrs.append(b)
        elif ti.endswith('io::Write::flush'):
            fls.append(b)

    def drive(bodies, cls, rid, field=None):
        n = 0
        for b in bodies:
            ib = flow.IBody(L, b, want)
            if not any(ib.blocks[x]['t']['k'] == 'call' and proc_op(ib.blocks[x]['t']) for x in ib.live_blocks):
                continue
            m = cls(L, ib)
            if field:
                m.field = field
                m.prep()
            flow.Sim(ib, m, cap=400, keep=lambda k, v: v[0] in ('var', 'disc') or (v[0] == 'int' and v[1] <= frozenset([0, 1, 2, 3]))).run()
            rep.fns.add(b.path)
            n += 1
            for k in sorted(set(m.sites) | set(m.bad)):
                rep.check(rid, '%s via %s:%s' % (b.path, k[0], k[1]), k not in m.bad, m.sites.get(k, '%s:%s' % (b.file, b.line)),
                          '%s: %s' % (b.path, m.bad[k][0]) if k in m.bad else '', m.bad[k][1] if k in m.bad else None)
        return n
    # readers and writers are forwarded to one generic adapter each; a forwarder is seen through
    rep.count('write adapters', drive(wrs, Out, 'written') )
    rep.count('flush adapters', drive(fls, Out, 'written'))
    drive(wrs, Drain, 'drained')
    drive(fls, Drain, 'drained')
    drive(fls, Finish, 'finish')
    for a in L.adts.values():
        if not inmod(mir.canon(a['path'])):
            continue
        for v in a['vars']:
            for fd in v['fields']:
                if 'io::Error' in fd[1] and 'Option' in fd[1]:
                    rep.count('stored read errors')
                    rep.count('read adapters', drive(rds, Sticky, 'sticky', fd[0]))
    n = 0
    for p, b in sorted(L.fns.items()):
        ti = mir.canon(b.j.get('trait_item') or '')
        if ti.endswith('::Processor::close') and inmod(p) and 'ecompressor' in p.split(' as ')[0]:
            ib = flow.IBody(L, b, want)
            m, s = iomon.run(L, ib, Close)
            rep.fns.add(p)
            n += 1
            for k in sorted(m.sites):
                rep.count('close steps')
                rep.check('truncated', '%s:%s' % (p, k[1]), k not in m.bad, m.sites[k], '%s: %s' % (p, m.bad[k][0]) if k in m.bad else '', m.bad[k][1] if k in m.bad else None)
    rep.floor('close steps', 2)
    rep.floor('write adapters', 1)
    rep.floor('flush adapters', 1)
    rep.floor('read adapters', 1)
    rep.floor('direct reads and writes', 1)
