"""C10: a failed or abandoned parallel decompression ends both of its sides."""
from .. import flow, sync
from ..mir import canon, callee, callee_decl
from .c09 import model

EXPLAIN = ('Typestate over MIR: every wait on the shared queue is entered only when no failure was seen under the same lock; '
           'broadcasting a failure stores it in the queue on every path; the stored failure is never taken back; the worker '
           'loop (closure given to thread::spawn) reports its failure before it ends, and every further round looks whether the '
           'stream has failed; a mutex the worker holds while it runs is locked elsewhere only after a failure was broadcast; '
           'dropping the main thread\'s handle broadcasts a failure.')
ASSUME = ['a panic while the queue lock is held poisons it and panics the other thread (C15 keeps panics out of the decoder)']


def bcast(t):
    d = callee_decl(t) or ''
    c = callee(t) or ''
    return 'broadcast_err' in d.split('::')[-1] or 'broadcast_err' in c.split('::')[-1]


class Bcast(flow.Monitor):
    """every path stores the failure or hands it to another broadcast"""
    init = ()

    def __init__(self, md, ib):
        self.md = md
        self.ib = ib
        self.bad = None

    def stmt(self, sim, f, bi, s, mon):
        if s['k'] == '=':
            p = self.ib.norm(s['d'])
            if any(isinstance(e, tuple) and e[0] == 'f' and e[1] in self.md.errf for e in p[1]):
                r = s['r']
                none = r['k'] == 'agg' and r.get('var') == 'None'
                return () if none else ('set',)
        return mon

    def call(self, sim, f, bi, t, mon):
        if bcast(t):
            return ('set',)
        return mon

    def ret(self, sim, f, bi, mon):
        if not mon and self.bad is None:
            self.bad = sim.trace()


class Loop(flow.Monitor):
    init = ''

    def __init__(self, ib, crate, failread):
        self.ib = ib
        self.crate = crate
        self.failread = failread
        self.bad = {}
        self.n = 0

    def flag(self, sim, key, msg):
        self.bad.setdefault(key, (msg, sim.trace(), '%s:%s' % tuple(self.ib.blocks[sim.cur[0]]['t']['sp'][:2])))

    def call(self, sim, f, bi, t, mon):
        d = callee_decl(t) or ''
        ty = self.ib.locals[t['d']['l']]
        if canon(ty).endswith('interface::DivansResult') and self.crate.resolve(t):
            self.n += 1
            if mon == 'more':
                self.flag(sim, 'unchecked', 'the worker goes on without looking whether the stream has failed: it never ends if the main thread has given up')
            elif mon == 'fail':
                self.flag(sim, 'silent', 'the worker goes on after a failure it has not reported')
            elif mon == 'stop':
                self.flag(sim, 'goon', 'the worker goes on although the stream has failed')
            sim.forks = [('done', frozenset(['Success'])), ('fail', frozenset(['Failure'])),
                         ('more', frozenset(['NeedsMoreInput'])), ('more', frozenset(['NeedsMoreOutput']))]
            return mon
        if bcast(t):
            return 'done'
        loc = self.crate.resolve(t)
        if loc and ty == 'bool' and loc[0].path in self.failread:
            sim.forks = [('stop', {(): ('int', frozenset([1]))}), ('ok' if mon == 'more' else mon, {(): ('int', frozenset([0]))})]
            return mon
        return mon

    def ret(self, sim, f, bi, mon):
        if mon == 'fail':
            self.flag(sim, 'unreported', 'the worker ends after a failure without telling the main thread, which waits forever')
        elif mon in ('more', 'ok'):
            self.flag(sim, 'early', 'the worker ends before the stream is complete without telling the main thread')


class Free(flow.Monitor):
    """broadcast before locking"""
    init = ()

    def __init__(self, ib, held):
        self.ib = ib
        self.held = held
        self.bad = None
        self.n = 0

    def call(self, sim, f, bi, t, mon):
        if bcast(t):
            return ('told',)
        if sync.is_lock(t):
            x = sync.inner_of(self.ib.locals[t['d']['l']], 'MutexGuard')
            if x in self.held:
                self.n += 1
                if not mon and self.bad is None:
                    self.bad = (sim.trace(), '%s:%s' % tuple(t['sp'][:2]))
        return mon


def keep(k, v):
    return v[0] in ('var', 'disc', 'cmp') or (v[0] == 'int' and v[1] <= frozenset([0, 1]))


def check(ctx, rep):
    cr = ctx.lib
    md = model(ctx, rep)
    rep.rule('wait-err', 'a wait is entered only when no failure has been stored')
    rep.rule('broadcast', 'broadcasting a failure stores it on every path')
    rep.rule('sticky', 'a stored failure is never taken back')
    rep.rule('worker', 'the worker reports its failure, and looks for one of the stream in every round')
    rep.rule('free', 'the failure is broadcast before anybody waits for a lock the worker holds while it runs')
    rep.rule('drop', 'dropping the handle of a parallel stream broadcasts a failure')
    # 1. waits
    for p, ib in md.root.items():
        m, s = sync.run(md, ib)
        n = sum(1 for k in m.sites if k[0] == 'wait')
        if not n:
            continue
        rep.fns.add(p)
        rep.count('waits', n)
        bad = [(k, v) for k, v in m.bad.items() if k[0] == 'wait-err']
        for (rule, key), (msg, tr, wh) in bad:
            rep.bad('wait-err', '%s:%s' % (p, key), wh, '%s: %s' % (p, msg), tr)
        if not bad:
            rep.ok('wait-err', p)
    rep.floor('waits', 4)

    # 2. broadcast implementations
    def small(caller, t, cands, stack):
        if len(cands) == 1 and len(stack) < 6 and len(cands[0].blocks) < 80:
            return cands[0]
        return None
    nb = 0
    for p, b in sorted(cr.fns.items()):
        ti = canon(b.j.get('trait_item') or '')
        if not (ti.endswith('::broadcast_err') or p.split('::')[-1].startswith('broadcast_err')):
            continue
        nb += 1
        ib = flow.IBody(cr, b, small)
        m = Bcast(md, ib)
        flow.Sim(ib, m, cap=200, keep=keep).run()
        rep.fns.add(p)
        rep.check('broadcast', p, m.bad is None, '%s:%s' % (b.file, b.line), '%s: a path returns without having stored the failure' % p, m.bad or [])
    rep.count('broadcast implementations', nb)
    rep.floor('broadcast implementations', 2)
    # 3. sticky
    nw = 0
    stat = set()
    for q in md.q:
        for fn, ty in md.qfields.items():
            h = canon(ty)
            v = cr.variants(h)
            if v and 'Err' in v.values():
                stat.add((fn, h))
    for p, b in sorted(cr.fns.items()):
        if not any(q.split('::')[-1] in t for q in md.q for t in b.locals):
            continue
        ib = flow.IBody(cr, b)
        for bi in sorted(ib.live_blocks):
            blk = ib.blocks[bi]
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                pth = ib.norm(s['d'])
                fld = md.field(ib, pth)
                if fld in md.errf and s['d']['p'] and s['d']['p'][-1][0] == 'f':
                    nw += 1
                    v = s['r'].get('var') if s['r']['k'] == 'agg' else None
                    if s['r']['k'] == 'use' and 'pl' in s['r']['o']:
                        for d in ib.defs.get(s['r']['o']['pl']['l'], ()):
                            if d[0] == 'rv' and d[1]['k'] == 'agg':
                                v = d[1].get('var')
                    rep.check('sticky', '%s:%s' % (p, fld), v == 'Some', '%s:%s' % tuple(s['sp'][:2]),
                              '%s: the stored failure can be overwritten with something that is not a failure' % p)
                if s['r']['k'] == 'ref' and s['r']['mut'] and md.field(ib, ib.norm(s['r']['pl'])) in md.errf:
                    rep.bad('sticky', '%s:borrow' % p, '%s:%s' % tuple(s['sp'][:2]), '%s: the stored failure is handed out for modification' % p)
    rep.count('stores of a failure', nw)
    rep.floor('stores of a failure', 1)
    for p, b in sorted(cr.fns.items()):
        if not stat or not any(q.split('::')[-1] in b.locals[i] for q in md.q for i in range(1, b.argc + 1)):
            continue
        ib = flow.IBody(cr, b)
        m = Stat(md, ib, dict(stat))
        flow.Sim(ib, m, cap=200, keep=keep).run()
        for key, (msg, wh, tr) in m.bad.items():
            rep.bad('sticky', '%s:%s' % (p, key), wh, '%s: %s' % (p, msg), tr)
        if m.n and not m.bad:
            rep.ok('sticky', p + ':status')
    # 4. worker closures
    failread = set()
    for p, b in cr.fns.items():
        if b.locals[0] != 'bool' or p not in md.root:
            continue
        m, s = sync.run(md, md.root[p])
        ib = md.root[p]
        rd = set()
        for bi in ib.live_blocks:
            for st in ib.blocks[bi]['s']:
                if st['k'] == '=':
                    for pl in sync.reads_of(st['r']):
                        rd.add(md.field(ib, ib.norm(pl)))
        if rd & md.errf:
            failread.add(p)
    rep.anchor('a query whether the stream has failed', bool(failread))
    held = set()
    nworkers = 0
    spawners = set()
    for p, b in sorted(cr.fns.items()):
        for bi, t in b.calls():
            d = callee_decl(t) or ''
            if not (d.endswith('thread::spawn') or d.endswith('Builder::spawn')):
                continue
            spawners.add(p)
            for cl in [x for x in cr.callgraph().get(p, ()) if '{closure' in x]:
                cb = cr.fns[cl]

                def want(caller, tt, cands, stack):
                    if len(cands) == 1 and len(stack) < 4 and cands[0].path not in failread and not bcast(tt) and not canon(caller.locals[tt['d']['l']]).endswith('DivansResult') and len(cands[0].blocks) < 60 and 'parallel' in cands[0].file:
                        return cands[0]
                    return None
                ib = flow.IBody(cr, cb, want)
                m = Loop(ib, cr, failread)
                flow.Sim(ib, m, cap=200, keep=keep).run()
                if not m.n:
                    continue
                nworkers += 1
                rep.fns.add(cl)
                for key, (msg, tr, wh) in m.bad.items():
                    rep.bad('worker', '%s:%s' % (cl, key), wh, '%s: %s' % (cl, msg), tr)
                if not m.bad:
                    rep.ok('worker', cl)
                held |= set(sync.inner_of(ib.locals[ib.blocks[x]['t']['d']['l']], 'MutexGuard')
                            for x in ib.live_blocks if ib.blocks[x]['t']['k'] == 'call' and sync.is_lock(ib.blocks[x]['t']))
    rep.count('worker threads', nworkers)
    rep.floor('worker threads', 1)
    held.discard(None)
    held -= md.q
    # 5. locks held by the worker
    nf = 0
    for p, b in sorted(cr.fns.items()):
        if '{closure' in p or not any(sync.is_lock(t) for _, t in b.calls()):
            continue
        ib = flow.IBody(cr, b)
        m = Free(ib, held)
        flow.Sim(ib, m, cap=200, keep=keep).run()
        if m.n:
            nf += 1
            rep.fns.add(p)
            rep.check('free', p, m.bad is None, m.bad[1] if m.bad else '', '%s: locks what the worker holds while it runs before telling it to stop' % p, m.bad[0] if m.bad else [])
    rep.count('locks of a running worker', nf)
    if held:
        rep.floor('locks of a running worker', 1)
    # 6. drop glue of the struct the spawner builds
    ok = 0
    for p in sorted(spawners):
        owner = None
        b = cr.fns[p]
        h = canon(b.locals[0])
        a = cr.adts.get(h)
        if a is None:
            continue
        good = drops(cr, md, h, set())
        ok += 1
        rep.check('drop', h, good, '%s:%s' % (b.file, b.line),
                  '%s: dropping it leaves the worker thread waiting for input that never comes: no part of it broadcasts a failure when dropped' % h)
    rep.count('types that own a worker', ok)
    rep.floor('types that own a worker', 1)


class Stat(flow.Monitor):
    """the status field is never moved from a failure to something else"""
    init = ()

    def __init__(self, md, ib, stat):
        self.md = md
        self.ib = ib
        self.stat = stat
        self.bad = {}
        self.n = 0

    def stmt(self, sim, f, bi, s, mon):
        if s['k'] == '=':
            p = self.ib.norm(s['d'])
            fld = self.md.field(self.ib, p)
            if fld in self.stat and isinstance(p[1][-1], tuple) and p[1][-1] == ('f', fld):
                self.n += 1
                r = s['r']
                new = None
                if r['k'] == 'agg':
                    new = frozenset([r['var']])
                elif r['k'] == 'use' and 'pl' in r['o']:
                    v = f.get(self.ib.norm(r['o']['pl']))
                    new = v[1] if v is not None and v[0] == 'var' else None
                if new != frozenset(['Err']):
                    cur = f.get(p)
                    if cur is None or cur[0] != 'var' or 'Err' in cur[1]:
                        self.bad.setdefault(fld, ('the failure kept in `%s` can be overwritten' % fld, '%s:%s' % tuple(s['sp'][:2]), sim.trace()))
        return mon


def drops(cr, md, adt, seen, depth=0):
    if adt in seen or depth > 5:
        return False
    seen.add(adt)
    for p, b in cr.fns.items():
        ti = canon(b.j.get('trait_item') or '')
        if ti.endswith('Drop::drop') and ('<%s as' % adt) in p:
            # every path that is not a panic in progress broadcasts
            def small(caller, t, cands, stack):
                if len(cands) == 1 and len(stack) < 5 and len(cands[0].blocks) < 80 and not bcast(t):
                    return cands[0]
                return None
            ib = flow.IBody(cr, b, small)
            m = DropMon(md, ib)
            flow.Sim(ib, m, cap=200, keep=keep).run()
            if m.bad is None:
                return True
    a = cr.adts.get(adt)
    if a:
        for v in a['vars']:
            for f in v['fields']:
                t = f[1]
                if t.startswith('&') or 'Arc<' in t:
                    continue
                if drops(cr, md, canon(t), seen, depth + 1):
                    return True
    return False


class DropMon(Bcast):
    def call(self, sim, f, bi, t, mon):
        d = callee_decl(t) or ''
        if d.endswith('panicking'):
            sim.forks = [(('set',), {(): ('int', frozenset([1]))}), (mon, {(): ('int', frozenset([0]))})]
            return mon
        return Bcast.call(self, sim, f, bi, t, mon)
