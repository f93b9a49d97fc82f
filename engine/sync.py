"""Locks and condition variables: typestate of one locked section."""
from collections import namedtuple
from . import flow, mir
from .mir import canon, callee, callee_decl

S = namedtuple('S', 'held checked errnone inc woken changed woke reads')
INIT = S(frozenset(), False, False, 0, False, frozenset(), False, frozenset())


def inner_of(ty, what):
    """type argument X of the first what<..X..> in ty, canonical"""
    i = ty.find(what + '<')
    if i < 0:
        return None
    j = i + len(what)
    k = mir._match(ty, j)
    a = ty[j + 1:k].strip()
    if a.startswith("'"):
        a = a.split(',', 1)[1].strip()
    return canon(a)


def is_lock(t):
    d = callee_decl(t) or ''
    return d.endswith('Mutex::lock') or d.endswith('Mutex::try_lock') or d.endswith('RwLock::write') or d.endswith('RwLock::read')


def cond_op(t):
    d = callee_decl(t) or ''
    if 'Condvar::' in d:
        return d.split('::')[-1]
    return None


class Model(object):
    def __init__(self, crate):
        self.crate = crate
        self.q = set()          # contents of mutexes somebody waits on
        self.locks = set()      # contents of all locked mutexes
        for p, b in crate.fns.items():
            for bi, t in b.calls():
                if is_lock(t):
                    x = inner_of(b.locals[t['d']['l']], 'MutexGuard')
                    if x:
                        self.locks.add(x)
                if cond_op(t) in ('wait', 'wait_while', 'wait_timeout', 'wait_timeout_while'):
                    for a in t['a']:
                        if 'pl' in a:
                            x = inner_of(b.locals[a['pl']['l']], 'MutexGuard')
                            if x:
                                self.q.add(x)
        self.errf = set()
        self.qfields = {}
        for q in self.q:
            a = crate.adts.get(q)
            if a:
                for f in a['vars'][0]['fields']:
                    self.qfields[f[0]] = f[1]
                    if 'Option<' in f[1] and 'ErrMsg' in f[1]:
                        self.errf.add(f[0])
        self.counter = None
        self.roots()
        self.find_counter()

    def acquires(self, fn):
        """mutexes a function may lock, through everything it calls"""
        if not hasattr(self, '_acq'):
            direct = {}
            for p, b in self.crate.fns.items():
                for _, t in b.calls():
                    if is_lock(t):
                        x = inner_of(b.locals[t['d']['l']], 'MutexGuard')
                        if x:
                            direct.setdefault(p, set()).add(x)
            self._direct = direct
            self._acq = {}
        r = self._acq.get(fn)
        if r is None:
            seen, _ = self.crate.reach([fn])
            r = set()
            for p in seen:
                r |= self._direct.get(p, set())
            self._acq[fn] = r
        return r

    def roles(self):
        """root function -> set of 'main' / 'worker' (both when unknown)"""
        out = {}
        by = {'main': set(), 'worker': set()}
        for p, b in self.crate.fns.items():
            ti = canon(b.j.get('trait_item') or '')
            if ti.startswith('threading::MainToThread::'):
                by['main'].add(p)
            elif ti.startswith('threading::ThreadToMain::'):
                by['worker'].add(p)
        cg = self.crate.callgraph()
        for r in by:
            seen = set(by[r])
            # only inherent functions of the queue types below a trait method
            st = list(seen)
            while st:
                x = st.pop()
                for y in cg.get(x, ()):
                    if y in self.root and y not in seen and y not in by['main'] and y not in by['worker']:
                        seen.add(y)
                        st.append(y)
            by[r] = seen
        for p in self.root:
            rs = set(r for r in by if p in by[r])
            out[p] = rs or {'main', 'worker'}
        return out

    def mentions(self, ty):
        return any(q in canon(ty) or q.split('::')[-1] + '<' in ty for q in self.q) or 'MutexGuard' in ty or 'Condvar' in ty

    def want(self, caller, t, cands, stack):
        if len(cands) != 1 or len(stack) > 6:
            return None
        b = cands[0]
        tys = [b.locals[i] for i in range(0, b.argc + 1)]
        if len(b.blocks) > 200:
            return None
        for ty in tys:
            if any(('SerialWorker' in ty or q.split('::')[-1] in ty) and 'MultiWorker' not in ty for q in self.q) or 'MutexGuard' in ty or 'Condvar' in ty:
                return b
        return None

    def roots(self):
        self.root = {}
        for p, b in sorted(self.crate.fns.items()):
            tys = [b.locals[i] for i in range(1, b.argc + 1)]
            if any('MutexGuard' in t for t in tys):
                continue
            direct = any(is_lock(t) or cond_op(t) for _, t in b.calls())
            callees = [x for _, t in b.calls() for x in self.crate.resolve(t)]
            viaguard = any('MutexGuard' in x.locals[0] for x in callees)
            if direct or viaguard:
                self.root[p] = flow.IBody(self.crate, b, self.want)

    def field(self, ib, path):
        """field of a queue struct that a path goes through, or None"""
        l, el = path
        ty = ib.locals[l]
        if not any(q.split('::')[-1] in ty for q in self.q):
            return None
        if not ty.startswith('&') or 'Guard' in ty:
            return None
        i = 0
        while i < len(el) and el[i] == '*':
            i += 1
        if i < len(el) and el[i][0] == 'f' and el[i][1] in self.qfields:
            return el[i][1]
        return None

    def find_counter(self):
        cand = {}
        for p, ib in self.root.items():
            if not any(cond_op(ib.blocks[b]['t']) == 'wait' for b in ib.live_blocks if ib.blocks[b]['t']['k'] == 'call'):
                continue
            add, sub = set(), set()
            for bi in ib.live_blocks:
                for s in ib.blocks[bi]['s']:
                    if s['k'] != '=' or s['r']['k'] != 'bin':
                        continue
                    a = s['r']['a']
                    if 'pl' in a and s['r']['b'].get('v') == 1:
                        f = self.field(ib, ib.norm(a['pl']))
                        if f and s['r']['op'].startswith('Add'):
                            add.add(f)
                        if f and s['r']['op'].startswith('Sub'):
                            sub.add(f)
            for f in add | sub:
                cand[f] = cand.get(f, 0) + len([1 for x in (add, sub) if f in x])
        top = sorted(cand.items(), key=lambda kv: -kv[1])
        if top and (len(top) == 1 or top[0][1] > top[1][1]):
            self.counter = top[0][0]

    def closure_reads(self, ib, a):
        """fields of the queue read by a closure passed as operand a (or None)"""
        if 'pl' not in a:
            return None
        l = a['pl']['l']
        seen = set()
        while l not in seen:
            seen.add(l)
            ds = ib.defs.get(l, ())
            if len(ds) != 1 or ds[0][0] != 'rv':
                return None
            r = ds[0][1]
            if r['k'] == 'agg' and r['a'] == 'closure':
                b = self.crate.fns.get(canon(r['def']))
                if b is None:
                    return None
                cb = flow.IBody(self.crate, b, self.want)
                out = set()
                for bi in cb.live_blocks:
                    for s in cb.blocks[bi]['s']:
                        if s['k'] == '=':
                            for pl in reads_of(s['r']):
                                f = self.field(cb, cb.norm(pl))
                                if f:
                                    out.add(f)
                return out
            if r['k'] == 'use' and 'pl' in r['o']:
                l = r['o']['pl']['l']
            elif r['k'] == 'ref':
                l = r['pl']['l']
            else:
                return None
        return None


def reads_of(r):
    out = [o['pl'] for o in flow.rv_operands(r) if 'pl' in o]
    if 'pl' in r and r['k'] in ('disc', 'ref', 'len'):
        out.append(r['pl'])
    return out


def all_uses(ib):
    """local -> where it occurs as more than the place that is set: ('s', dest local or None, rvalue), ('a', block, argument number), ('x',)"""
    u = {}
    for bi in ib.live_blocks:
        for s in ib.blocks[bi]['s']:
            if s['k'] != '=':
                continue
            whole = s['d']['l'] if not s['d']['p'] else None
            if s['d']['p']:
                u.setdefault(s['d']['l'], []).append(('x',))
            r = s['r']
            for o in flow.rv_operands(r):
                if 'pl' in o:
                    u.setdefault(o['pl']['l'], []).append(('s', whole, r, o['pl']))
            if 'pl' in r:
                u.setdefault(r['pl']['l'], []).append(('s', whole, r, r['pl']))
        t = ib.blocks[bi]['t']
        if t['k'] == 'call':
            for i, o in enumerate(t['a']):
                if 'pl' in o:
                    u.setdefault(o['pl']['l'], []).append(('a', bi, i, o['pl']))
    return u


class Section(flow.Monitor):
    init = INIT

    def lent(self):
        """references to a field that only an iterator is made of, and the locals that hold what it yields"""
        if hasattr(self, '_lent'):
            return self._lent
        ib, lent, items = self.ib, set(), {}
        u = all_uses(ib)
        for bi in ib.live_blocks:
            for s in ib.blocks[bi]['s']:
                if s['k'] != '=' or s['r']['k'] != 'ref' or not s['r']['mut'] or s['d']['p']:
                    continue
                fld = self.md.field(ib, ib.norm(s['r']['pl']))
                if not fld:
                    continue
                got = self.yields(u, s['d']['l'])
                if got is not None:
                    lent.update(got[0])
                    for l in got[1]:
                        items.setdefault(l, set()).add(fld)
        self._lent = lent, items
        return self._lent

    def yields(self, u, l):
        ib, work, seen, items = self.ib, [(l, 'ref')], set(), set()
        refs = set()
        while work:
            l, k = work.pop()
            if (l, k) in seen:
                continue
            seen.add((l, k))
            if k == 'ref':
                refs.add(l)
            for x in u.get(l, ()):
                if x[0] == 's':
                    _, d, r, pl = x
                    if k == 'item':
                        continue
                    if k == 'opt':
                        if r['k'] == 'disc':
                            continue
                        if r['k'] == 'use' and d is not None:
                            items.add(d)
                            work.append((d, 'item'))
                            continue
                        return None
                    if d is None or len(ib.defs.get(d, ())) != 1:
                        return None
                    if k == 'ref' and (r['k'] in ('use', 'cast') and not pl['p'] or r['k'] == 'ref' and [e[0] for e in pl['p']] == ['*']):
                        work.append((d, 'ref'))
                    elif k == 'it' and r['k'] == 'use' and not pl['p']:
                        work.append((d, 'it'))
                    elif k == 'it' and r['k'] == 'ref' and not pl['p']:
                        work.append((d, 'itref'))
                    elif k == 'itref' and (r['k'] == 'use' and not pl['p'] or r['k'] == 'ref' and [e[0] for e in pl['p']] == ['*']):
                        work.append((d, 'itref'))
                    else:
                        return None
                elif x[0] == 'a':
                    t = ib.blocks[x[1]]['t']
                    n = (callee_decl(t) or '').split('::')[-1]
                    if k == 'item':
                        continue
                    if x[2] != 0 or t['d']['p']:
                        return None
                    if k == 'ref' and n in ('iter_mut', 'into_iter') or k == 'it' and n == 'into_iter':
                        work.append((t['d']['l'], 'it'))
                    elif k == 'itref' and n == 'next':
                        work.append((t['d']['l'], 'opt'))
                    else:
                        return None
                elif k != 'item':
                    return None
        if not items:
            return None
        return refs, items

    def __init__(self, model, ib, wait_fields=None):
        self.md = model
        self.ib = ib
        self.waits = {}         # block -> fields read before it
        self.bad = {}
        self.sites = {}
        self.order = set()
        self.want_wake = wait_fields
        self.nlock = set()

    def flag(self, sim, rule, key, msg):
        if (rule, key) not in self.bad:
            self.bad[(rule, key)] = (msg, sim.trace(), self.where(sim))

    def where(self, sim):
        sp = self.ib.blocks[sim.cur[0]]['t']['sp']
        return '%s:%s' % (sp[0], sp[1])

    def touch(self, mon, fld, write):
        if fld == self.md.counter:
            return mon
        if write:
            mon = mon._replace(changed=mon.changed | frozenset([fld]))
            if fld in self.md.errf:
                mon = mon._replace(errnone=False)
        else:
            mon = mon._replace(checked=True, woken=False, reads=mon.reads | frozenset([fld]))
        return mon

    def stmt(self, sim, f, bi, s, mon):
        if s['k'] == '=':
            for pl in reads_of(s['r']):
                fld = self.md.field(self.ib, self.ib.norm(pl))
                if fld:
                    if s['r']['k'] == 'ref' and s['r']['mut'] and (s['d']['p'] or s['d']['l'] not in self.lent()[0]):
                        mon = self.touch(mon, fld, True)
                    else:
                        mon = self.touch(mon, fld, False)
            items = self.lent()[1]
            wr = s['d']['l'] if s['d']['p'] else s['r']['pl']['l'] if s['r']['k'] == 'ref' and s['r']['mut'] else None
            for fld in sorted(items.get(wr, ())):
                mon = self.touch(mon, fld, True)
            fld = self.md.field(self.ib, self.ib.norm(s['d']))
            if fld:
                if fld == self.md.counter:
                    d = self.delta(sim, s)
                    mon = mon._replace(inc=max(-3, min(3, mon.inc + d)))
                else:
                    if mon.woken:
                        self.flag(sim, 'recheck', 'store to ' + fld, 'the shared state is changed after a wait without looking at it again')
                    mon = self.touch(mon, fld, True)
        return mon

    def delta(self, sim, s):
        """+1 / -1 stored to the waiter counter"""
        r = s['r']
        if r['k'] == 'use' and 'pl' in r['o']:
            src = self.ib.norm(r['o']['pl'])
            for d in self.ib.defs.get(src[0], ()):
                if d[0] == 'rv' and d[1]['k'] == 'bin' and d[1]['b'].get('v') == 1:
                    return 1 if d[1]['op'].startswith('Add') else -1
        if r['k'] == 'bin' and r['b'].get('v') == 1:
            return 1 if r['op'].startswith('Add') else -1
        return 0

    def purge(self, f):
        for k in [k for k in f if k[0] in self.copies() or any(q.split('::')[-1] in self.ib.locals[k[0]] for q in self.md.q)]:
            del f[k]

    def copies(self):
        """temporaries that hold the value of the waiter counter"""
        if not hasattr(self, '_copies'):
            self._copies = set()
            for l, ds in self.ib.defs.items():
                if len(ds) == 1 and ds[0][0] == 'rv':
                    r = ds[0][1]
                    if r['k'] in ('use', 'cast') and 'pl' in r['o'] and self.md.counter and self.md.field(self.ib, self.ib.norm(r['o']['pl'])) == self.md.counter:
                        self._copies.add(l)
        return self._copies

    def edge(self, sim, f, bi, nb, mon):
        if self.ib.blocks[bi]['t']['k'] == 'switch':
            for l in self.copies():
                v = f.get((l, ()))
                if v is not None and v[0] == 'int' and v[1] == frozenset([0]):
                    mon = mon._replace(woke=True)
            for k, v in f.items():
                if k[1] and k[1][-1] == ('f', self.md.counter) and v == ('int', frozenset([0])):
                    mon = mon._replace(woke=True)
        for k, v in f.items():
            if not k[1]:
                continue
            e = k[1][-1]
            if v[0] == 'var' and v[1] == frozenset(['None']) and isinstance(e, tuple) and e[0] == 'f' and e[1] in self.md.errf and mon.held and e[1] not in mon.changed:
                mon = mon._replace(errnone=True)
        return mon

    def call(self, sim, f, bi, t, mon):
        for a in t['a']:
            if 'pl' in a and self.ib.locals[a['pl']['l']].startswith('&mut'):
                for fld in sorted(self.lent()[1].get(a['pl']['l'], ())):
                    mon = self.touch(mon, fld, True)
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        c = cond_op(t)
        if is_lock(t):
            x = inner_of(self.ib.locals[t['d']['l']], 'MutexGuard')
            self.nlock.add(bi)
            self.sites[('lock', bi)] = '%s:%s' % (t['sp'][0], t['sp'][1])
            for h in mon.held:
                self.order.add((h, x, '%s:%s' % (t['sp'][0], t['sp'][1])))
            if x in self.md.q:
                self.purge(f)
                if mon.inc:
                    self.flag(sim, 'waiter-count', 'lock', 'a waiter is still counted (%+d) when the lock is taken again' % mon.inc)
                ch = frozenset() if mon.woke else mon.changed
                mon = mon._replace(checked=False, errnone=False, changed=ch, woke=False, woken=False, inc=0, reads=frozenset())
            return mon._replace(held=mon.held | frozenset([x]))
        if c in ('notify_one', 'notify_all'):
            self.sites[('notify', bi)] = '%s:%s' % (t['sp'][0], t['sp'][1])
            return mon._replace(woke=True)
        if c and c.startswith('wait'):
            key = 'wait'
            self.sites[('wait', bi)] = '%s:%s' % (t['sp'][0], t['sp'][1])
            if c in ('wait_while', 'wait_timeout_while'):
                rd = None
                for a in t['a'][1:]:
                    rd = rd or self.md.closure_reads(self.ib, a)
                mon = mon._replace(checked=True, reads=mon.reads | frozenset(rd or ()), errnone=bool(rd and rd & self.md.errf))
            self.seen_reads |= mon.reads
            if not mon.checked:
                self.flag(sim, 'recheck', key, 'a wait begins without its condition having been evaluated under the same lock')
            if self.md.counter and mon.inc != 1:
                self.flag(sim, 'waiter-count', key, 'a wait begins with %d waiters counted by this thread instead of 1: nobody will wake it' % mon.inc)
            if not mon.errnone:
                self.flag(sim, 'wait-err', key, 'a wait can begin although the stream has failed: nothing will end it')
            self.check_wake(sim, mon, 'before a wait')
            self.purge(f)
            if c in ('wait', 'wait_timeout') and flow.innermost_loop(self.ib, bi) is None:
                self.flag(sim, 'recheck', key + ' loop', 'a wait is not inside a loop that evaluates its condition again')
            return mon._replace(checked=c != 'wait', errnone=False, woken=c in ('wait', 'wait_timeout'), changed=frozenset(), woke=False, reads=frozenset())
        if d.endswith('Option::is_some') or d.endswith('Option::is_none'):
            p = self.ib.target(t['a'][0]) if 'pl' in t['a'][0] else None
            fld = self.md.field(self.ib, p) if p else None
            if fld in self.md.errf:
                some = int(last == 'is_some')
                m0 = mon._replace(checked=True, woken=False, reads=mon.reads | frozenset([fld]))
                known = f.get(p)
                ks = known[1] if known is not None and known[0] == 'var' else frozenset(['Some', 'None'])
                sim.forks = []
                if 'Some' in ks:
                    sim.forks.append((m0._replace(errnone=False), {(): ('int', frozenset([some]))}, {p: ('var', frozenset(['Some']))}))
                if 'None' in ks:
                    sim.forks.append((m0._replace(errnone=mon.held != frozenset()), {(): ('int', frozenset([1 - some]))}, {p: ('var', frozenset(['None']))}))
                return mon
        if last in ('call', 'call_mut', 'call_once') and 'ops::' in d:
            for a in t['a'][:1]:
                rd = self.md.closure_reads(self.ib, a)
                if rd:
                    mon = mon._replace(reads=mon.reads | frozenset(rd), checked=True, woken=False, errnone=bool(rd & self.md.errf))
            return mon
        if mon.held:
            for b in self.md.crate.resolve(t):
                for x in self.md.acquires(b.path):
                    for h in mon.held:
                        self.order.add((h, x, '%s:%s' % (t['sp'][0], t['sp'][1])))
        if t['t'] is not None:
            # a guard moved into a call that does not give it back
            rty = self.ib.locals[t['d']['l']]
            for a in t['a']:
                if a['k'] == 'move' and 'pl' in a and not a['pl']['p']:
                    x = inner_of(self.ib.locals[a['pl']['l']], 'MutexGuard')
                    if x and not self.ib.locals[a['pl']['l']].startswith('&') and 'MutexGuard' not in rty:
                        mon = self.release(sim, mon, x)
        return mon

    def drop(self, sim, f, bi, t, mon):
        pl = t['pl']
        ty = self.ib.locals[pl['l']]
        x = inner_of(ty, 'MutexGuard')
        if x and not ty.startswith('&'):
            mon = self.release(sim, mon, x)
        return mon

    def release(self, sim, mon, x):
        if x in self.md.q and x in mon.held:
            mon = mon._replace(errnone=False)
            if mon.inc and self.md.counter:
                self.flag(sim, 'waiter-count', 'unlock', 'the lock is released with %+d waiters counted by a thread that is not waiting' % mon.inc)
                mon = mon._replace(inc=0)
        return mon._replace(held=mon.held - frozenset([x]))

    def check_wake(self, sim, mon, when):
        if self.want_wake is None or mon.woke:
            return
        for fld in sorted(mon.changed & self.want_wake):
            self.flag(sim, 'wake', fld, '`%s` can change %s without waking the thread that waits for it' % (fld, when))

    def ret(self, sim, f, bi, mon):
        if mon.woken:
            self.flag(sim, 'recheck', 'return', 'a wait can be followed by a return without its condition having been evaluated again')
        self.check_wake(sim, mon, 'and the call return')


def run(model, ib, wait_fields=None, cap=600):
    m = Section(model, ib, wait_fields)
    m.seen_reads = set()

    def keep(k, v):
        return v[0] in ('var', 'disc', 'cmp') or (v[0] == 'int' and v[1] <= frozenset([0, 1]))
    s = flow.Sim(ib, m, cap=cap, keep=keep).run()
    return m, s
