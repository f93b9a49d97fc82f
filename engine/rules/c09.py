"""C09: no thread of a parallel decompression sleeps forever or deadlocks."""
from .. import sync

EXPLAIN = ('Typestate of every locked section of the queue between the two threads of a parallel decompression (helpers that '
           'take the guard or the queue state inlined): a condition-variable wait begins only after its condition was '
           'evaluated under the same lock with the waiter counted exactly once, is in a loop and is followed by a fresh '
           'evaluation; a section that can change a field some wait of the other thread reads wakes that thread (or has seen '
           'the waiter count at zero under the lock) before it returns or waits; the lock-acquisition graph over the call '
           'graph has no cycle and no lock is taken twice.')
ASSUME = ['one main thread and one worker thread share a queue, so notify_one wakes the right one',
          'the wait conditions of a thread are the fields it reads between taking the lock and waiting']


def model(ctx, rep):
    md = sync.Model(ctx.lib)
    rep.anchor('a mutex-protected queue with a condition variable', bool(md.q))
    rep.anchor('waiter counter of the queue', md.counter is not None)
    return md


def check(ctx, rep):
    md = model(ctx, rep)
    rep.rule('recheck', 'a wait is in a loop and its condition is evaluated under the same lock before and after it')
    rep.rule('waiter-count', 'a thread is counted as a waiter exactly while it waits')
    rep.rule('wake', 'a section that changes what the other thread may wait for wakes it')
    rep.rule('lock-order', 'no cycle in the lock-acquisition order, no lock taken twice')
    rep.rule('shared', 'the two threads share state only through the locked queue and atomics')
    roles = md.roles()
    waits = {'main': set(), 'worker': set()}
    for p, ib in md.root.items():
        m, s = sync.run(md, ib)
        for r in roles[p]:
            waits[r] |= m.seen_reads
    for r in waits:
        rep.count('fields the %s thread waits on' % r, len(waits[r]))
        rep.anchor('waits of the %s thread' % r, bool(waits[r]))
    order = set()
    for p, ib in md.root.items():
        need = set()
        for r in roles[p]:
            need |= waits['worker' if r == 'main' else 'main']
        m, s = sync.run(md, ib, frozenset(need))
        rep.fns.add(p)
        rep.count('abstract states', s.steps)
        order |= set((h, x, w, p) for h, x, w in m.order)
        for k in m.sites:
            rep.count(k[0] + ' sites')
        flagged = set()
        for (rule, key), (msg, tr, wh) in m.bad.items():
            if rule in ('wait-err',):
                continue
            rep.bad(rule, '%s:%s' % (p, key), wh, '%s: %s' % (p, msg), tr)
            flagged.add(rule)
        has = set(k[0] for k in m.sites)
        for rule, needs in (('recheck', 'wait'), ('waiter-count', 'wait'), ('wake', 'lock')):
            if needs in has and rule not in flagged:
                rep.ok(rule, p)
    g = {}
    for h, x, w, p in order:
        g.setdefault(h, {}).setdefault(x, (w, p))
    for h in md.locks:
        seen, st, cyc = set(), [(h, None)], None
        while st:
            y, first = st.pop()
            for z, wp in g.get(y, {}).items():
                if z == h:
                    cyc = first or wp
                if z not in seen:
                    seen.add(z)
                    st.append((z, first or wp))
        if cyc:
            rep.bad('lock-order', h, cyc[0], '%s: while the lock of `%s` is held the same lock can be taken again' % (cyc[1], h))
        else:
            rep.ok('lock-order', h)
    rep.count('lock-order edges', len(set((h, x) for h, x, _, _ in order)))
    rep.floor('lock sites', 6)
    rep.floor('wait sites', 4)
    rep.floor('lock-order edges', 1)
