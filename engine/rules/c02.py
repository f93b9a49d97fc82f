"""C02: a codec can be suspended at any byte and resumed without losing or repeating work."""
import re
from .. import flow, pred
from ..mir import callee_decl, ty_head
from ..slice import Slice
from . import c02v

EXPLAIN = ('path-sensitive typestate over the MIR of every resumable function (those that drain or fill a coder buffer and code nibbles or advance a codec state): on every path, '
           'coding a nibble is preceded by a successful drain of the same coder since the last nibble, every suspension leaves the progress made since the last point of commitment '
           'recorded in the codec state, is passed on as the same kind of suspension, and no value computed during the activation and not part of the codec state is used after a '
           'point at which the function could have been suspended; where a suspension is taken in mid-loop the stored position is compared with the loop variables as linear forms; '
           'the command cursor moves only when a command was completed, and assembled commands not yet coded are kept. Nothing is executed')
ASSUME = ['a coder buffer that was drained has room for (or holds) one nibble (src/ans.rs, src/arithmetic_coder.rs)', 'more than 16 buffered bytes suffice for the two nibbles of a literal byte',
          'the caller repeats the command it was suspended in']
BASE = 'drain_or_fill_static_buffer'
CODE = 'ArithmeticEncoderOrDecoder::get_or_put_nibble'
RES = ('DivansResult', 'DivansOutputResult', 'CodecTraitResult', 'DivansOpResult', 'DivansInputResult')
SUSP = ('Success', 'NeedsMoreInput', 'NeedsMoreOutput', 'Failure')
STATE = re.compile(r'(State|Substate)$')
DEAD = ('ecdf_write_nibble',)     # feature external-literal-probability only
QUIET = ('free', 'fmt')


def last(t):
    return (callee_decl(t) or '').split('::')[-1]


def res_head(ty):
    return ty_head(ty or '').split('::')[-1]


def is_state(cr, ty):
    h = ty_head(ty or '')
    if not STATE.search(h):
        return False
    a = cr.adts.get(h) or {}
    return len(cr.variants(h) or ()) > 1


class Info:
    """which functions drain, code, and keep a codec state"""

    def __init__(self, cr):
        self.cr = cr
        self.drain = {}     # path -> coder constant or None (see arg)
        self.code, self.store = set(), set()
        for p, b in cr.fns.items():
            if p.endswith('::' + BASE):
                self.drain[p] = None
        # direct facts
        for p, b in cr.fns.items():
            if p.split('::')[-1] in DEAD:
                continue
            for bi, t in b.calls():
                if (callee_decl(t) or '').endswith(CODE):
                    self.code.add(p)
            for blk in b.blocks:
                for s in blk['s']:
                    if s['k'] == '=' and s['d']['p'] and self.persist(b, s['d']) and is_state(cr, self.ty(b, s['d'])):
                        self.store.add(p)
        # transitively (helpers without a drain of their own are inlined)
        cg = cr.callgraph()
        self.cg = cg
        drains = set(self.drain)
        ch = True
        while ch:
            ch = False
            for p in cr.fns:
                if p not in drains and cg.get(p, set()) & drains:
                    drains.add(p)
                    ch = True
        self.drains = drains
        self.codes = self.up(self.code)
        self.stores = self.up(self.store)
        self.resumable = set()
        self.mid = set()     # those that save a position in mid-loop
        self.wrap = set()
        for p in drains:
            b = cr.fns[p]
            if p in self.drain or not p.split('::')[0] in ('codec', '<codec') and 'codec::' not in p:
                continue
            if p in self.codes or p in self.stores:
                if res_head(b.locals[0]) in RES:
                    self.resumable.add(p)
            elif res_head(b.locals[0]) in RES:
                self.wrap.add(p)

    def ty(self, b, pl):
        if pl['p']:
            e = pl['p'][-1]
            if e[0] == 'f':
                return e[3]
            if e[0] == '*':
                return re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', b.locals[pl['l']]) if len(pl['p']) == 1 else ''
            return ''
        return b.locals[pl['l']]

    def persist(self, b, pl):
        return pl['p'] and pl['p'][0][0] == '*' or pl['l'] <= b.argc

    def up(self, s):
        s = set(s)
        ch = True
        while ch:
            ch = False
            for p in self.cr.fns:
                if p.split('::')[-1] in DEAD:
                    continue
                if p not in s and any(q in s for q in self.cg.get(p, ())):
                    s.add(p)
                    ch = True
        return s

    def want(self, c, t, cands, stack):
        if len(cands) == 1 and cands[0].path not in self.drains and cands[0].path not in stack:
            b = cands[0]
            if b.path in self.codes or b.path in self.stores and 'codec' in b.path:
                return b
        return None


class Resume(pred.PredMon):
    """user = (ready coders, effect made, state stored, pending failure variant, written locals, stale locals)"""

    def __init__(self, cr, inf, ib, entry, bare, cand, need=None, classified=False):
        self.user = (frozenset(entry), False, False, None, frozenset(), frozenset())
        pred.PredMon.__init__(self, ib)
        self.cr, self.inf = cr, inf
        self.bare, self.cand = bare, cand
        self.classified = classified
        self.cyclic = cyclic(ib, cand)
        self.own = owns(cr, ib)
        self.sl = Slice(ib, through=())
        self.bad = {}
        self.n = {'nibbles coded': set(), 'suspension points': set(), 'returns': set()}
        self.saves = {}     # drain block -> {stored?}
        self.needs = need or {}
        self.rets = {}
        self.guard = {}
        self.lasttouch = None

    def flag(self, sim, key, msg):
        if key not in self.bad:
            w = self.ib.blocks[sim.cur[0]]['t']['sp']
            self.bad[key] = (msg, sim.trace(), '%s:%s' % tuple(w[:2]))

    # -- predicates
    def of_const(self, o):
        d = str(o.get('def') or o.get('s') or '')
        for n in ('FULLY_SAFE', 'SECOND_HALF', 'DOES_CALLER_WANT_ORIGINAL_FILE_BYTES'):
            if d.endswith(n):
                return (n, True)
        return None

    def of_cmp(self, op, a, b, s):
        if 'pl' not in b and b.get('v') == 16 and op in ('Lt', 'Ge'):
            A = self.sl.op(a)
            if any(x[0] == 'call' and x[1].split('::')[-1] in ('data_ready', 'bytes_avail') for x in A):
                return ('low', op == 'Lt')
        return None

    def of_call(self, t):
        if last(t) == 'has_context_speeds' and any(x[0] == 'arg' and 'state_prediction_mode' in x for x in self.sl.op(t['a'][0])):
            return ('pulled', True)
        return None

    # -- effects
    def persistent(self, path):
        if path is None:
            return False
        return path[0] <= self.ib.argc and path[0] > 0 and bool(path[1]) and path[1][0] == '*'

    def root(self, path):
        return path[0] if path is not None else None

    def reads(self, sim, ops, u):
        st = u[5]
        if not st:
            return
        for l in ops:
            if l in st:
                self.flag(sim, 'stale:%s' % (self.ib.name(l) or l), 'the value of `%s` computed before a point of suspension is used after it; a resumed activation would not have it' % (self.ib.name(l) or '_%d' % l))

    def wrote(self, l, u, lost):
        if lost:
            return u[:4] + (u[4] | {l}, u[5] - {l})
        if l in u[4] or l in u[5]:
            return u[:4] + (u[4] - {l}, u[5] - {l})
        return u

    def path_ty(self, p, pl, sim):
        if p[1] == ('*',):
            return re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', self.ib.locals[p[0]])
        return sim.place_ty(pl)

    def u_stmt(self, sim, st, bi, s, known, u):
        if s['k'] == 'dead':
            if s['l'] in u[4] or s['l'] in u[5]:
                return u[:4] + (u[4] - {s['l']}, u[5] - {s['l']})
            return u
        if s['k'] not in ('=', 'setdisc'):
            return u
        src = set()
        if s['k'] == '=':
            src = set(flow.rv_locals(s['r']))
            self.reads(sim, src, u)
        pl = s['d']
        p = self.ib.norm(pl)
        lost = bool(src & u[4]) or bool(src) and (pl['l'] if not pl['p'] else p[0]) in self.cyclic
        if not pl['p']:
            u = self.wrote(pl['l'], u, lost)
            if not (p[0] <= self.ib.argc and p[1]):
                return u
        elif p[0] > self.ib.argc:
            u = self.wrote(p[0], u, lost or p[0] in u[4])
            return u
        if not self.persistent(p):
            return u
        ty = self.path_ty(p, pl, sim)
        if is_state(self.cr, ty):
            own = p[0] <= self.ib.argc and len(p[1]) == 2 and p[1][-1] == ('f', 'state')
            return ('@forget', (), u[:2] + ('own' if own else u[2] or True,) + u[3:])
        f = [e[1] for e in p[1] if isinstance(e, tuple) and e[0] == 'f']
        if f[:2] == ['state_prediction_mode', 'pm']:
            return u     # the pulled map: kept, and pulled only when absent (guard rule)
        if ty == 'usize' and not f:
            return u     # a cursor handed in by the caller: C04
        if s['k'] == '=' and self.constant(src):
            return u     # overwriting with a constant can be repeated
        self.lasttouch = s['sp']
        return u[:1] + (True,) + u[2:]

    def constant(self, src):
        return all(x[0] == 'const' for l in src for x in self.sl.path((l, ())))

    def key(self, o):
        s = self.sl.op(o)
        for x in s:
            if x[0] == 'arg':
                if 'lit_coder' in x:
                    return 1
                if 'coder' in x:
                    return 0
        return 1

    def u_call(self, sim, st, bi, t, known, u):
        d = callee_decl(t) or ''
        n = d.split('::')[-1]
        ops = set()
        for a in t['a']:
            if 'pl' in a:
                ops.add(a['pl']['l'])
        self.reads(sim, ops, u)
        cands = [c.path for c in self.cr.resolve(t)]
        for a in t['a']:
            if 'pl' in a and self.ib.locals[a['pl']['l']].startswith('&') and 'mut ' in self.ib.locals[a['pl']['l']][:24]:
                tg = self.ib.target(a)
                if tg is not None and tg[0] > self.ib.argc and (d.endswith(CODE) or tg[0] in self.cyclic or ops & u[4]):
                    u = self.wrote(tg[0], u, True)
        if not t['d']['p']:
            u = self.wrote(t['d']['l'], u, bool(ops & u[4]))
        if d.endswith(CODE):
            k = self.key(t['a'][0])
            self.n['nibbles coded'].add(tuple(t['sp'][:2]))
            if k not in u[0] and not (known.get('FULLY_SAFE') and k == 1):
                self.flag(sim, 'room:%s' % t['sp'][0], 'a nibble is %s on a path on which the %s coder has not been drained or filled since the last one' % ('coded', ('command', 'literal')[k]))
            return (u[0] - {k}, True) + u[2:]
        drain = [c for c in cands if c in self.inf.drain or c in self.inf.wrap]
        if drain:
            return self.drained(sim, st, bi, t, known, u, drain[0])
        sub = [c for c in cands if c in self.inf.resumable]
        if sub or n in ('push_cmd', 'push_eof', 'close') and res_head(self.ib.locals[t['d']['l']]) in RES:
            return self.sub(sim, st, bi, t, known, u, sub)
        if n == 'flush' and res_head(self.ib.locals[t['d']['l']]) in RES:
            return u     # handing out what is buffered can be repeated (C04)
        if n == 'pull_context_map':
            self.guard[tuple(t['sp'][:2])] = self.guard.get(tuple(t['sp'][:2]), True) and known.get('pulled') is False
            return u
        if n in ('from', 'into') and res_head(self.ib.locals[t['d']['l']]) in RES and t['a'] and 'pl' in t['a'][0]:
            v = st.get(self.ib.norm(t['a'][0]['pl']))
            if v is not None and v[0] == 'var':
                sim.result = v[1]
            return u
        if n in ('get_literal_byte',):
            if known.get('FULLY_SAFE') and known.get('low') is not False and u[4] is not None and 'low' in known:
                self.flag(sim, 'safe', 'the unchecked loop goes on although the buffered input may be running out')
        # any other callee that can change persistent state
        ret = self.ib.locals[t['d']['l']] if not t['d']['p'] else ''
        if '&' not in ret and n not in ('get_base_alloc', 'next', 'set_mixing_values', 'has_context_speeds', 'wrote_eof', 'free_ref'):
            for a in t['a']:
                if 'pl' not in a:
                    continue
                ty = self.ib.locals[a['pl']['l']]
                if ty.startswith('&') and 'mut ' in ty[:24]:
                    tg = self.ib.target(a)
                    if self.persistent(tg):
                        f = [e[1] for e in tg[1] if isinstance(e, tuple) and e[0] == 'f']
                        if f[:1] in (['muxer'], ['demuxer']) or f[-1:] in (['muxer'], ['demuxer'], ['crc']):
                            continue    # byte accounting: C03, C04
                        self.lasttouch = t['sp']
                        u = u[:1] + (True,) + u[2:]
        return u

    def suspended(self, sim, bi, t, u):
        """about to find out whether to suspend: what was done so far must be recorded"""
        self.n['suspension points'].add(tuple(t['sp'][:2]))

    def drained(self, sim, st, bi, t, known, u, p):
        k = self.inf.wrap and self.coder_of(t, p)
        self.suspended(sim, bi, t, u)
        ok = u
        if bi in self.bare:
            ok = (u[0] | {k}, False, False, None, frozenset(), (u[5] | u[4]) & self.cand)
        else:
            ok = (u[0] | {k},) + u[1:3] + (None,) + u[4:]
        sim.forks = [(ok, frozenset(['Success']))]
        if not (known.get('FULLY_SAFE') and k == 1):
            for v in ('NeedsMoreInput', 'NeedsMoreOutput', 'Failure'):
                # in the first run: is a position stored after this drain has failed?
                stored = u[2] and self.classified
                sim.forks.append(((u[0] - {k}, u[1], stored, (bi, v)) + u[4:], frozenset([v])))
        # whether the buffer runs low has to be asked again
        return ('@forget', ('low',), u)

    def coder_of(self, t, p):
        """constant index of the coder a drain is for"""
        if p in self.inf.drain:
            a = t['a'][0]
            if 'pl' not in a:
                return a.get('v', self.key(t['a'][1]))
            return self.key(t['a'][1])
        b = self.cr.fns[p]
        for bi, t2 in b.calls():
            for c in self.cr.resolve(t2):
                if c.path in self.inf.drain:
                    if 'pl' not in t2['a'][0] and 'v' in t2['a'][0]:
                        return t2['a'][0]['v']
        return 1 if 'lit' in p.split('::')[-1] else 0

    def sub(self, sim, st, bi, t, known, u, sub):
        self.suspended(sim, bi, t, u)
        if sub:
            need = self.needs.get(sub[0], frozenset())
            if not need <= u[0]:
                self.flag(sim, 'room:%s' % t['sp'][0], '%s codes a nibble first, and is called on a path on which its coder has not been drained or filled' % sub[0].split('::')[-1])
        safe = any('NibbleArraySafe' in str(a.get('ty') or self.ib.locals[a['pl']['l']] if 'pl' in a else a.get('ty') or a.get('s') or '') for a in t['a'])
        # callee state in a local of ours: it has to be stored back whatever happened
        tg = self.ib.target(t['a'][0]) if t['a'] and 'pl' in t['a'][0] else None
        local = bool(sub) and tg is not None and tg[0] > self.ib.argc and is_state(self.cr, self.ib.locals[tg[0]])
        h = res_head(self.ib.locals[t['d']['l']])
        done = (u[0], True, u[2], None) + u[4:]
        if local:
            done = (u[0], True, False, None) + u[4:]
        sus = (u[0], u[1] or local, u[2] and not local)
        if h == 'CodecTraitResult':
            q = (('d', 'Res'), ('f', '0'))
            q2 = q + (('d', 'BufferExhausted'), ('f', '0'))
            r = ('var', frozenset(['Res']))
            e = ('var', frozenset(['BufferExhausted']))
            fk = [(done, {(): r, q: ('var', frozenset(['Advance']))}), (done, {(): ('var', frozenset(['UpdateCodecTraitAndAdvance']))}),
                  (done, {(): r, q: e, q2: ('var', frozenset(['Success']))})]
            for v in ('NeedsMoreInput', 'NeedsMoreOutput', 'Failure'):
                fk.append((sus + ((bi, v),) + u[4:], {(): r, q: e, q2: ('var', frozenset([v]))}))
        else:
            fk = [(done, frozenset(['Success']))]
            vs = ['NeedsMoreInput', 'NeedsMoreOutput', 'Failure'] if h == 'DivansResult' else ['NeedsMoreOutput', 'Failure']
            if safe:
                vs = ['NeedsMoreInput', 'Failure']
            for v in vs:
                fk.append((sus + ((bi, v),) + u[4:], frozenset([v])))
        sim.forks = fk
        return u

    def u_ret(self, sim, st, bi, known, u):
        vs = set()
        for k, v in st.items():
            if k[0] == 0 and v[0] == 'var' and v[1] & frozenset(SUSP):
                vs |= v[1]
        adv = set()
        for k, v in st.items():
            if k[0] == 0 and v[0] == 'var':
                adv |= v[1] & {'Advance', 'UpdateCodecTraitAndAdvance'}
        self.n['returns'].add((bi, tuple(sorted(vs | adv))))
        if known.get('FULLY_SAFE'):
            self.rets.setdefault('safe', set()).update(vs)
        for p in [u[3]] if u[3] else []:
            self.saves.setdefault(p[0], set()).add(bool(u[2]))
        if vs and vs <= {'Failure'}:
            return
        if u[1] and not u[2] and vs != {'Success'} and self.own:
            self.flag(sim, 'progress', 'the function returns (to be resumed) on a path on which work was done (%s) and no progress recorded in its state' % (
                '%s:%s' % tuple(self.lasttouch[:2]) if self.lasttouch else 'a nibble was coded'))
        if u[3] and vs and not (u[3][1] in vs and len(vs) == 1):
            if not (vs == {'Success'} and u[1] and u[2] and known.get('FULLY_SAFE') is not None):
                if not (u[3][1] == 'NeedsMoreInput' and vs <= {'Failure'}):
                    self.flag(sim, 'kind:' + u[3][1], 'a suspension (%s) is returned as %s' % (u[3][1], '/'.join(sorted(vs))))
        if not adv and u[2] == 'own' and vs & {'NeedsMoreInput', 'NeedsMoreOutput'} and not vs & {'Success'}:
            if [1 for k, v in st.items() if v[0] == 'var' and k[1] and k[1][-1] == ('f', 'state') and k[0] <= self.ib.argc and len(k[1]) == 2 and v[1] == frozenset(['Begin'])]:
                self.flag(sim, 'progress:begin', 'the function is suspended on a path on which it has gone back to its beginning: what it was doing is lost')
        if adv:
            s = [v[1] for k, v in st.items() if v[0] == 'var' and k[1] and k[1][-1] == ('f', 'state') and k[0] <= self.ib.argc and len(k[1]) == 2]
            if not s or s[0] != frozenset(['Begin']):
                self.flag(sim, 'advance', 'the function reports a command as completed on a path on which its state is not back at the beginning')


def judge(cr, inf, p, rep):
    b = cr.fns[p]
    ib = flow.IBody(cr, b, inf.want)
    live = ib.liveness()
    dr = [bi for bi in ib.live_blocks if ib.blocks[bi]['t']['k'] == 'call' and any(c.path in inf.drains for c in cr.resolve(ib.blocks[bi]['t']))]
    nibbles = any(ib.blocks[bi]['t']['k'] == 'call' and (callee_decl(ib.blocks[bi]['t']) or '').endswith(CODE) for bi in ib.live_blocks)
    return ib, live, dr, nibbles


def run(cr, inf, p, ib, entry, bare, cand, needs, classified=False):
    m = Resume(cr, inf, ib, entry, bare, cand, needs, classified)
    sim = flow.Sim(ib, m, 20000, keep=keep(cr, ib))
    sim.run()
    return m, sim


def keep(cr, ib):
    def f(path, v):
        if v[0] == 'var':
            return True
        return v[0] in ('disc', 'int')
    return None


def check(ctx, rep):
    cr = ctx.lib
    inf = Info(cr)
    rep.rule('room', 'coding a nibble is preceded by a successful drain of its coder')
    rep.rule('progress', 'a suspended function has recorded what it did')
    rep.rule('kind', 'a suspension is passed on as what it is')
    rep.rule('stale', 'nothing outside the codec state is carried over a point of suspension')
    rep.rule('advance', 'a command is reported as completed only when the state is back at the beginning')
    rep.rule('safe', 'the unchecked literal loop runs only while enough input is buffered')
    needs = {}
    order = sorted(inf.resumable, key=lambda p: len(cr.reach([p])[0]))
    done = set()
    for p in order:
        ib, live, dr, nib = judge(cr, inf, p, rep)
        m, sim = run(cr, inf, p, ib, (), frozenset(dr), frozenset(), needs)
        if any(k.startswith('room') for k in m.bad):
            m2, sim2 = run(cr, inf, p, ib, (0, 1), frozenset(dr), frozenset(), needs)
            if not any(k.startswith('room') for k in m2.bad):
                one, _ = run(cr, inf, p, ib, (1,), frozenset(dr), frozenset(), needs)
                needs[p] = frozenset([1]) if not any(k.startswith('room') for k in one.bad) else frozenset([0, 1])
                m, sim = m2, sim2
        entry = needs.get(p, frozenset())
        # a second time, knowing which points of suspension save a position of their own
        bare = frozenset(bi for bi in dr if True not in m.saves.get(bi, ()))
        if len(bare) < len(dr) and nib:
            inf.mid.add(p)
        cand = frozenset()
        if nib:
            cand = candidates(ib, live, dr)
        m, sim = run(cr, inf, p, ib, entry, bare, cand, needs, True)
        for r in ('room', 'progress', 'kind', 'stale', 'advance', 'safe'):
            if r == 'advance' and not p.endswith('encode_or_decode_one_command') or r == 'safe' and 'FULLY_SAFE' not in str(m.rets) and 'safe' not in m.rets:
                continue
            hit = sorted(k for k in m.bad if k.split(':')[0] == r)
            if not hit:
                rep.ok(r, p)
            for k in hit:
                msg, tr, w = m.bad[k]
                rep.bad(r, '%s:%s' % (p, k if r != 'room' else r), w, '%s: %s' % (p.split('::')[-2] + '::' + p.split('::')[-1], msg), tr)
        if 'safe' in m.rets:
            rep.check('safe', p + ':kinds', m.rets['safe'] <= {'Success', 'NeedsMoreInput'}, '%s:%s' % b_file(cr, p), '%s: the unchecked loop may return %s' % (p, sorted(m.rets['safe'])))
        for w, ok in sorted(m.guard.items()):
            rep.check('progress', p + ':pull', ok, '%s:%s' % w, '%s: a context map is pulled on a path on which one may already have been pulled' % p)
        for k, v in m.n.items():
            rep.count(k, len(v))
        rep.count('resumable functions')
        done.add(p)
    rep.fns.update(done)
    callers(cr, inf, needs, rep)
    rep.floor('resumable functions', 8)
    rep.floor('nibbles coded', 20)
    rep.floor('suspension points', 15)
    c02v.check(ctx, rep, inf)


def callers(cr, inf, needs, rep):
    """a function that codes first is only called from functions judged above"""
    for q in sorted(needs):
        for p in sorted(cr.fns):
            if q in inf.cg.get(p, ()) and p not in inf.resumable:
                rep.bad('room', '%s->%s' % (p, q), '%s:%s' % b_file(cr, p), '%s calls %s, which codes a nibble first, without being able to drain' % (p, q))


def cyclic(ib, cand):
    """locals updated from their own value"""
    dep = {}
    for bi in ib.live_blocks:
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['r']['k'] != 'ref':
                dep.setdefault(s['d']['l'], set()).update(flow.rv_locals(s['r']))
    out = set()
    for l in cand:
        seen, todo = set(), list(dep.get(l, ()))
        while todo:
            x = todo.pop()
            if x in seen or x <= ib.argc and x != l:
                continue
            seen.add(x)
            todo += dep.get(x, ())
        if l in seen:
            out.add(l)
    return frozenset(out)


def owns(cr, ib):
    """codes nibbles or stores a codec state itself"""
    for bi in ib.live_blocks:
        blk = ib.blocks[bi]
        t = blk['t']
        if t['k'] == 'call' and (callee_decl(t) or '').endswith(CODE):
            return True
        for s in blk['s']:
            if s['k'] == '=' and s['d']['p']:
                p = ib.norm(s['d'])
                if p[0] <= ib.argc and p[1] and is_state(cr, re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', ib.locals[p[0]]) if p[1] == ('*',) else pl_ty(s['d'], ib)):
                    return True
    return False


def pl_ty(pl, ib):
    e = pl['p'][-1]
    return e[3] if e[0] == 'f' and len(e) > 3 else ''


def b_file(cr, p):
    b = cr.fns[p]
    return (b.file, b.line)


def candidates(ib, live, dr):
    """locals that are alive after a possible suspension and assigned while the function runs"""
    after = set()
    for bi in dr:
        t = ib.blocks[bi]['t']
        if t.get('t') is not None:
            after |= set(live[t['t']])
    # reachable from any drain
    seen, todo = set(), [ib.blocks[bi]['t'].get('t') for bi in dr]
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        todo += [s for s in ib.succ[x]]
    out = set()
    for bi in seen:
        blk = ib.blocks[bi]
        for s in blk['s']:
            if s['k'] == '=':
                p = ib.norm(s['d'])
                out.add(s['d']['l'] if not s['d']['p'] else p[0])
        t = blk['t']
        if t['k'] == 'call':
            if not t['d']['p']:
                out.add(t['d']['l'])
            for a in t['a']:
                if 'pl' in a and 'mut ' in ib.locals[a['pl']['l']][:24]:
                    tg = ib.target(a)
                    if tg is not None:
                        out.add(tg[0])
    return frozenset(out & after)
