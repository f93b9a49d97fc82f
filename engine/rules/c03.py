"""C03: success means that the whole stream was there, undamaged."""
import re
from .. import flow, sym, pred
from ..mir import canon, callee, callee_decl, ty_head
from ..slice import Slice, THROUGH
from ..sym import K, add, sub, num, is_const
from . import c04

EXPLAIN = ('path-sensitive typestate over MIR: a decoder returns success only on paths on which the end marker was seen, the pulled commands are used up, the output was '
           'flushed, all eight trailer bytes were read and each was compared with its expected value, differences being let through only for the four checksum bytes and only when '
           'checking is off; every run of bytes consumed by the decoder or produced by the encoder, the header included, enters the checksum once and as a whole (linear forms), '
           'unless checking is off or the trailer has begun; encoder and decoder lay the trailer out alike')
ASSUME = ['CRC-32C itself (src/codec/crc32.rs) is computed correctly: the known-answer tests of the repository pin it',
          'the multiplexer recognises the end marker (C04, C16 decide parts of that)']
TRAILER = ('a', 'n', 's', '~')
LIMIT = {'take', 'skip', 'step_by', 'take_while', 'skip_while', 'filter', 'filter_map', 'split_at', 'split_first', 'split_last', 'index', 'chunks', 'get', 'nth', 'rev', 'windows',
         'split_at_mut', 'index_mut', 'splitn'}
FIN = 'Hasher::finish'
WRT = 'Hasher::write'


def last(t):
    return (callee_decl(t) or '').split('::')[-1]


def has(sl, *names):
    for s in sl:
        for n in names:
            if n in s or any(isinstance(x, str) and x.endswith(n) for x in s):
                return True
    return False


class Verdict(pred.PredMon):
    """user = (flushed, compared)   known: eof drained full differ low skip inloop"""
    user = (False, False)

    def __init__(self, cr, ib):
        pred.PredMon.__init__(self, ib)
        self.cr = cr
        self.sl = Slice(ib, through=())
        self.bad = {}
        self.n = {'success returns': set(), 'trailer comparisons': set(), 'flushes': set()}

    def flag(self, sim, key, msg):
        if key not in self.bad:
            w = self.ib.blocks[sim.cur[0]]['t']['sp']
            self.bad[key] = (msg, sim.trace(), '%s:%s' % tuple(w[:2]))

    def src(self, o):
        return self.sl.op(o)

    def of_cmp(self, op, a, b, s):
        A, B = self.src(a), self.src(b)
        ta = self.ty(a)
        if op in ('Eq', 'Ne') and ta == 'u8' and 'pl' in b:
            for X, Y in ((A, B), (B, A)):
                if has(X, FIN) and has(Y, 'deserialized_crc') and not (a['pl']['l'] == b['pl']['l']):
                    self.n['trailer comparisons'].add(tuple(s['sp'][:2]))
                    lim = set(x[1].split('::')[-1] for x in A | B if x[0] == 'call') & LIMIT
                    if lim:
                        return None
                    return ('differ', op == 'Ne')
        if has(A, 'deserialized_crc_count') and (has(B, 'deserialized_crc') and has(B, 'len') or B == frozenset([('const', 8)])):
            if op in ('Eq', 'Ne'):
                return ('full', op == 'Eq')
            if op in ('Lt', 'Ge'):
                return ('full', op == 'Ge')
            return None
        if has(A, 'cmd_buffer_offset') and has(B, 'cmd_buffer') and op in ('Lt', 'Ge', 'Eq', 'Ne'):
            return ('drained', op in ('Ge', 'Eq'))
        if ta == 'usize' and has(A, 'next') and 'pl' not in b and 'v' in b:
            if (op, b['v']) in (('Ge', 4), ('Gt', 3)):
                return ('low', False)
            if (op, b['v']) in (('Lt', 4), ('Le', 3)):
                return ('low', True)
        return None

    def ty(self, o):
        if 'pl' in o:
            pl = o['pl']
            if not pl['p']:
                return self.ib.locals[pl['l']]
            e = pl['p'][-1]
            return e[3] if e[0] == 'f' else 'u8' if e[0] in ('i', 'c') else re.sub(r"^&('[a-z_0-9]+ )?(mut )?", '', self.ib.locals[pl['l']])
        return o.get('ty')

    def of_place(self, p):
        f = [e[1] for e in p[1] if isinstance(e, tuple) and e[0] == 'f']
        if f and f[-1] == 'skip_checksum':
            return ('skip', True)
        if f and f[-1] in ('cmd_buffer_contains_eof', 'eof'):
            return ('eof.' + f[-1], True)
        return None

    def of_call(self, t):
        d = callee_decl(t) or ''
        if d.endswith('PartialEq::eq') or d.endswith('PartialEq::ne'):
            A, B = self.src(t['a'][0]), self.src(t['a'][1])
            for X, Y in ((A, B), (B, A)):
                if has(X, FIN) and has(Y, 'deserialized_crc'):
                    self.n['trailer comparisons'].add(tuple(t['sp'][:2]))
                    lim = set(x[1].split('::')[-1] for x in A | B if x[0] == 'call') & LIMIT
                    if not lim:
                        one = re.sub(r"^(&('[a-z_0-9]+ )?)+", '', self.ty2(t['a'][0])) == 'u8'
                        return ('differ' if one else 'differ.all', d.endswith('ne'))
        return None

    def u_stmt(self, sim, st, bi, s, known, u):
        if s['k'] == '=' and s['d']['p']:
            f = s['d']['p'][-1]
            if f[0] == 'f' and f[1] == 'cmd_buffer_contains_eof':
                self.n.setdefault('end notes', set()).add(tuple(s['sp'][:2]))
                v = s['r']['o'].get('v') if s['r']['k'] == 'use' else None
                if v != 0 and not known.get('status.eof'):
                    self.flag(sim, 'end', 'the end of the commands is noted on a path on which the worker did not report it')
                return ('@forget', ('eof.cmd_buffer_contains_eof',), u)
            if any(e[0] == 'f' and e[1] == 'cmd_buffer_offset' for e in s['d']['p']) and not (s['r']['k'] == 'use' and 'pl' in s['r']['o'] and False):
                return ('@forget', ('drained',), u)
        return u

    def u_edge(self, sim, st, bi, nb, known):
        if self.ib.blocks[bi]['t']['k'] == 'switch':
            for k, v in st.items():
                if v == ('var', frozenset(['Eof'])) and k[0] > self.ib.argc:
                    return {'status.eof': True}

    def u_call(self, sim, st, bi, t, known, u):
        d = callee_decl(t) or ''
        n = d.split('::')[-1]
        ret = self.ib.locals[t['d']['l']] if not t['d']['p'] else ''
        if n == 'next' and known.get('differ') and not self.allowed(known):
            self.flag(sim, 'compare', 'a trailer byte that differs is let through')
        if n == 'next':
            a = self.ib.target(t['a'][0])
            sl = self.sl.path(a) if a is not None else ()
            fin = has(sl, FIN) and has(sl, 'deserialized_crc')
            rng = not fin and self.range8(sl)
            if fin or rng:
                if set(x[1].split('::')[-1] for x in sl if x[0] == 'call') & LIMIT:
                    fin = rng = False
            sim.forks = [((u[0], u[1] or ('loop' if fin else 'range' if rng else False)) if fin or rng else u, frozenset(['None'])), (u, frozenset(['Some']))]
            return ('@forget', ('differ', 'low'), u)
        if any(has(self.src(a), 'cmd_buffer') and 'mut ' in (self.ty2(a) or '') for a in t['a']) and n != 'slice_mut':
            u = ('@forget', ('drained', 'status.eof'), u)
            return u
        if n == 'flush' and 'interface::DivansOutputResult' in ret and has(self.src(t['a'][0]), 'recoder'):
            self.n['flushes'].add(tuple(t['sp'][:2]))
            sim.forks = [((True, u[1]), frozenset(['Success'])), ((False, u[1]), frozenset(['NeedsMoreOutput', 'Failure']))]
            return u
        if t['a'] and has(self.src(t['a'][0]), 'recoder') and 'mut' in (self.ty(t['a'][0]) or ''):
            u = (False, u[1])
        if n in ('from', 'into') and ty_head(ret or '').endswith('DivansResult'):
            # result conversions keep the variant
            p = self.ib.norm(t['a'][0]['pl']) if t['a'] and 'pl' in t['a'][0] else None
            v = st.get(p) if p else None
            if v is not None and v[0] == 'var':
                sim.result = v[1]
            elif 'DivansOpResult' in (self.ty(t['a'][0]) or ''):
                sim.result = frozenset(['Success', 'Failure'])
        return u

    def ty2(self, o):
        return self.ib.locals[o['pl']['l']] if 'pl' in o and not o['pl']['p'] else ''

    def range8(self, sl):
        return set(x[1] for x in sl if x[0] == 'const') == {0, 8} and not any(x[0] == 'call' and x[1].split('::')[-1] in LIMIT for x in sl)

    def allowed(self, k):
        return k.get('low') is True and k.get('skip') is True

    def u_ret(self, sim, st, bi, known, u):
        v = None
        for pre in ((), (('d', 'Processed'), ('f', '0'))):
            x = st.get((0, pre))
            if x is not None and x[0] == 'var' and (pre or 'Success' in x[1] or 'Failure' in x[1] or 'NeedsMoreInput' in x[1] or 'NeedsMoreOutput' in x[1]):
                v = x[1]
        top = st.get((0, ()))
        if top is not None and top[0] == 'var' and top[1] == frozenset(['Yield']):
            return
        if v is not None and 'Success' not in v:
            return
        self.n['success returns'].add(bi)
        if known.get('differ') and not self.allowed(known) or known.get('differ.all'):
            self.flag(sim, 'compare', 'a trailer byte that differs is let through')
        if not u[1] and known.get('differ.all') is not False:
            self.flag(sim, 'compare-all', 'success is returned on a path that has not compared all eight trailer bytes')
        if not u[0]:
            self.flag(sim, 'flush', 'success is returned on a path on which the output buffered in the ring buffer has not been handed out completely')
        if not known.get('full'):
            self.flag(sim, 'full', 'success is returned on a path that does not know all eight trailer bytes to have been read')
        if not (known.get('eof.eof') or known.get('eof.cmd_buffer_contains_eof')):
            self.flag(sim, 'eof', 'success is returned on a path on which the end of the commands has not been reported')
        if not (known.get('eof.eof') or known.get('drained')):
            self.flag(sim, 'drained', 'success is returned on a path on which pulled commands may be left over')


class Chain(flow.Monitor):
    init = False

    def __init__(self, cr, ib, V):
        self.cr, self.ib, self.V = cr, ib, V
        self.bad = {}

    def call(self, sim, st, bi, t, mon):
        if any(c.path in self.V for c in self.cr.resolve(t)):
            h = ty_head(self.ib.locals[t['d']['l']]).split('::')[-1]
            if h == 'DecoderResult':
                q = (('d', 'Processed'), ('f', '0'))
                sim.forks = [(True, {(): ('var', frozenset(['Processed'])), q: ('var', frozenset(['Success']))}),
                             (False, {(): ('var', frozenset(['Processed'])), q: ('var', frozenset(['NeedsMoreInput', 'NeedsMoreOutput', 'Failure']))}),
                             (False, frozenset(['Yield']))]
            else:
                sim.forks = [(True, frozenset(['Success'])), (False, frozenset(['NeedsMoreInput', 'NeedsMoreOutput', 'Failure']))]
            return mon
        if last(t) in ('from', 'into') and not t['d']['p'] and ty_head(self.ib.locals[t['d']['l']]).endswith('DivansResult'):
            v = st.get(self.ib.norm(t['a'][0]['pl'])) if 'pl' in t['a'][0] else None
            if v is not None and v[0] == 'var':
                sim.result = v[1]
        return mon

    def ret(self, sim, st, bi, mon):
        v = st.get((0, ()))
        if not mon and (v is None or v[0] != 'var' or 'Success' in v[1]) and not self.bad:
            self.bad['passed'] = ('', sim.trace(), '%s:%s' % tuple(self.ib.blocks[bi]['t']['sp'][:2]))


class Owed(pred.PredMon):
    """every run of stream bytes enters the checksum.  user = (consumed run owed, produced run owed, written since entry)"""
    user = (False, False, False)

    def __init__(self, cr, ib, dec):
        pred.PredMon.__init__(self, ib)
        self.cr = cr
        self.dec = dec
        self.sl = Slice(ib, through=())
        self.bad = {}
        self.n = {'checksum updates': set(), 'runs': set(), 'freezes': set()}

    def flag(self, sim, key, msg):
        if key not in self.bad:
            w = self.ib.blocks[sim.cur[0]]['t']['sp']
            self.bad[key] = (msg, sim.trace(), '%s:%s' % tuple(w[:2]))

    def of_const(self, o):
        d = str(o.get('def') or o.get('s') or '')
        if 'IS_DECODING_FILE' in d:
            return ('decoding', True)
        return None

    def of_place(self, p):
        f = [e[1] for e in p[1] if isinstance(e, tuple) and e[0] == 'f']
        if f and f[-1] in ('skip_checksum', 'skip_crc'):
            return ('skip', True)
        if not p[1] and p[0] and self.ib.locals[p[0]] == 'bool' and has(self.sl.path(p), 'skip_crc', 'skip_checksum'):
            return ('skip', True)
        return None

    def of_call(self, t):
        n = last(t)
        if n in ('is_some', 'is_none') and has(self.sl.op(t['a'][0]), 'frozen_checksum'):
            return ('frozen', n == 'is_some')
        return None

    def frozen(self, st, known):
        if known.get('frozen'):
            return True
        for k, v in st.items():
            if v[0] == 'var' and v[1] == frozenset(['Some']) and k[1] and k[1][-1] == ('f', 'frozen_checksum'):
                return True
        return False

    def stable(self, name):
        return name == 'decoding'

    def u_call(self, sim, st, bi, t, known, u):
        d = callee_decl(t) or ''
        n = d.split('::')[-1]
        cin, cout, wr = u
        if d.endswith(WRT):
            self.n['checksum updates'].add(tuple(t['sp'][:2]))
            if known.get('skip') and not known.get('decoding') is False and self.dec:
                self.flag(sim, 'skipped', 'bytes enter the checksum although checking is off')
            s = self.sl.op(t['a'][1])
            if has(s, 'write_linear') or self.isin(s):
                return (False, cout, True)
            return (cin, False, True)
        if n == 'write_linear':
            self.n['runs'].add(tuple(t['sp'][:2]))
            return (True, cout, wr)
        if n == 'fork' and self.dec:
            if not wr and not known.get('skip'):
                self.flag(sim, 'header', 'decoding begins on a path on which the header has not entered the checksum')
        if d.endswith(FIN) and not self.dec and known.get('decoding') is not True:
            self.n['freezes'].add(tuple(t['sp'][:2]))
            if cout:
                self.flag(sim, 'freeze', 'the checksum is taken before the bytes produced so far have entered it')
            return (cin, False, wr)
        tys = [self.ty(a) for a in t['a']]
        if not self.dec and any(s == 'out' for s, _, _ in c04.pairs(tys)):
            self.n['runs'].add(tuple(t['sp'][:2]))
            return (cin, True, wr)
        return u

    def isin(self, s):
        return any(x[0] == 'arg' and x[1] < len(self.ib.locals) and c04.RO.match(self.ib.locals[x[1]]) for x in s)

    def ty(self, o):
        return self.ib.locals[o['pl']['l']] if 'pl' in o and not o['pl']['p'] else ''

    def u_ret(self, sim, st, bi, known, u):
        v = st.get((0, ()))
        if v is not None and v[0] == 'var' and v[1] == frozenset(['Failure']):
            return
        cin, cout, wr = u
        if cin and not known.get('skip') and known.get('decoding') is not False:
            self.flag(sim, 'consumed', 'bytes of the stream are consumed on a path on which they do not enter the checksum')
        if cout and known.get('decoding') is not True and not self.frozen(st, known):
            self.flag(sim, 'produced', 'bytes of the stream are produced on a path on which they do not enter the checksum')


class RunPol(c04.Pol):
    def __init__(self, cr):
        c04.Pol.__init__(self, cr)
        self.curs = set()
        self.found = []

    def contract(self, S, st, bi, t, args):
        d = callee_decl(t) or ''
        if d.endswith(WRT) and len(args) == 2:
            sl = S.as_slice(args[1], st) if args[1][0] != 'slice' else args[1]
            ok, why = self.judge(S, st, sl)
            self.found.append((tuple(t['sp'][:2]), ok, why))
            return None
        tys = [S.op_ty(o) for o in t['a']]
        for side, i, j in c04.pairs(tys):
            if j is not None:
                s = S.as_slice(args[i])
                self.curs.add((side, s[1], s[2], S.deref(st, args[j])))
        return c04.Pol.contract(self, S, st, bi, t, args)

    def judge(self, S, st, sl):
        base, off, n = sl[1], sl[2], sl[3]
        end = add(off, n)
        args = {}
        ib = S.ib
        tys = [ib.locals[i] for i in range(1, ib.argc + 1)]
        for side, i, j in c04.pairs(tys):
            if j is not None:
                args[(('h', c04.arg0(i + 1)), ())] = (side, ('m', ('h', c04.arg0(j + 1)), ()))
        if base in args:
            side, c0 = args[base]
            moved = [add(e[2], e[3]) for e in st.ev if e[0] in ('in', 'out') and e[1] == base]
            starts = [e[2] for e in st.ev if e[0] in ('in', 'out') and e[1] == base]
            ends = list(moved[-1:])
            for s2, b2, soff, c in self.curs:
                if b2 == base:
                    ends.append(add(soff, num(st.read(c))))
                    starts.append(soff)
            if not any(S.zero(st, sub(end, e)) for e in ends):
                return False, 'the run that enters the checksum ends at %s, but bytes have been moved up to %s' % (sym.show(end, ib), ' / '.join(sorted(set(sym.show(e, ib) for e in ends))))
            if not S.zero(st, sub(off, num(c0))) and not S.zero(st, off):
                return False, 'the run that enters the checksum starts at %s and not where this call began' % sym.show(off, ib)
            if S.zero(st, off) and not S.zero(st, num(c0)):
                # counted from 0: only right when every caller starts the cursor at 0
                self.zero_based = True
            return True, ''
        for e in st.ev:
            if e[0] == 'copy' and e[2][1] == base and S.zero(st, sub(e[2][2], off)) and S.zero(st, sub(e[2][3], n)):
                return True, ''
        return None, 'later'


def copied(S, seg, sl):
    return any(e[0] == 'copy' and e[2][1] == sl[1] and S.zero(seg, sub(e[2][2], sl[2])) and S.zero(seg, sub(e[2][3], sl[3])) for e in seg.ev)


class HdrPol(c04.Pol):
    """write_header: what enters the checksum is what is copied out"""

    def contract(self, S, st, bi, t, args):
        d = callee_decl(t) or ''
        if d.endswith(WRT) and len(args) == 2:
            st.ev += (('crc', S.as_slice(args[1], st), tuple(t['sp'][:2])),)
            return None
        return c04.Pol.contract(self, S, st, bi, t, args)

    def evkey(self, ev):
        return c04.Pol.evkey(self, [e for e in ev if e[0] != 'crc'])


def shift(ib, o, d=0):
    """(local the value comes from, bits shifted right) of a trailer byte"""
    sh = 0
    while 'pl' in o and d < 20:
        d += 1
        pl = o['pl']
        if pl['p'] and not (len(pl['p']) == 1 and pl['p'][0][0] == '*'):
            return None
        ds = ib.defs.get(pl['l'], ())
        if 1 <= pl['l'] <= ib.argc and not ds:
            return ('arg', sh)
        if len(ds) != 1:
            return None
        if ds[0][0] == 'call':
            t = ds[0][1]
            if (callee_decl(t) or '').endswith(FIN):
                return ('finish', sh)
            if last(t) in ('unwrap', 'from', 'into', 'expect') and t['a']:
                q = t['a'][0]
                if last(t) in ('unwrap', 'expect') and 'pl' in q and 'u64' in ib.locals[t['d']['l']]:
                    return ('frozen', sh)
                o = q
                continue
            if last(t) in ('shr', 'wrapping_shr') and len(t['a']) == 2 and 'v' in t['a'][1]:
                sh += t['a'][1]['v']
                o = t['a'][0]
                continue
            return None
        r = ds[0][1]
        if r['k'] in ('use', 'cast'):
            o = r['o']
        elif r['k'] == 'bin' and r['op'] == 'BitAnd' and r['b'].get('v') == 255:
            o = r['a']
        elif r['k'] == 'bin' and r['op'] in ('Shr', 'ShrUnchecked') and 'v' in r['b']:
            sh += r['b']['v']
            o = r['a']
        else:
            return None
    return None


def layouts(cr, rep):
    """the trailer: checksum low byte first, then ans~"""
    n = 0
    for p, b in sorted(cr.fns.items()):
        ib = None
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] == '=' and s['r']['k'] == 'agg' and s['r']['a'] == 'array' and len(s['r']['o']) == 8:
                    os = s['r']['o']
                    if not any('pl' in o for o in os):
                        continue
                    if ib is None:
                        ib = flow.IBody(cr, b)
                    sh = [shift(ib, o) for o in os[:4]]
                    tail = [o.get('v') for o in os[4:]]
                    if all(x is None for x in sh) and tail != [ord(c) for c in TRAILER]:
                        continue
                    n += 1
                    good = [x and x[1] for x in sh] == [0, 8, 16, 24] and tail == [ord(c) for c in TRAILER]
                    rep.check('trailer', '%s:layout' % p, good, '%s:%s' % tuple(s['sp'][:2]),
                              '%s: the trailer is not the checksum, low byte first, followed by ans~' % p)
    rep.count('trailer layouts', n)


def want_decoder(cr):
    def want(caller, t, cands, stack):
        if len(cands) != 1 or len(stack) > 4:
            return None
        c = cands[0]
        if 'DivansDecoderCodec' in (c.locals[1] if c.argc else '') and c.path.startswith('codec::decoder'):
            return c
        tr = [c.locals[i] for i in range(1, c.argc + 1)]
        if any('deserialized_crc' in str(x) for x in tr):
            return c
        if c.path.startswith('codec::decoder::') and len(c.blocks) < 60:
            return c
        return None
    return want


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('success', 'a decoder returns success only after the whole stream was read, output and verified')
    V = set()
    cg = cr.callgraph()
    for p, b in sorted(cr.fns.items()):
        if not p.startswith('codec::decoder::DivansDecoderCodec::') or ty_head(b.locals[0]).split('::')[-1] != 'DecoderResult':
            continue
        ib = flow.IBody(cr, b, want_decoder(cr))
        m = Verdict(cr, ib)
        s = flow.Sim(ib, m, 3000, keep=lambda k, v: k[0] == 0 or k[0] > ib.argc and (v[0] in ('var', 'disc') or v[0] == 'int' and not k[1] and ib.locals[k[0]] == 'bool')).run()
        rep.fns.add(p)
        for q in ib.inlined:
            rep.fns.add(q)
        rep.count('abstract states', s.steps)
        for k in m.n:
            rep.count(k, len(m.n[k]))
        V.add(p)
        for k in ('compare', 'compare-all', 'flush', 'full', 'eof', 'drained', 'end'):
            if k in m.bad:
                rep.bad('success', '%s:%s' % (p, k), m.bad[k][2], '%s: %s' % (p, m.bad[k][0]), m.bad[k][1])
            else:
                rep.ok('success', '%s:%s' % (p, k))
    rep.rule('passed', 'the callers of the decoder return success only when it did')
    ch = True
    while ch:
        ch = False
        for p, b in sorted(cr.fns.items()):
            if p in V or '{' in p.split('::')[-1] or ty_head(b.locals[0]).split('::')[-1] != 'DivansResult':
                continue
            if not any(any(c.path in V for c in cr.resolve(t)) for _, t in b.calls()):
                continue
            V.add(p)
            ch = True
            m = Chain(cr, flow.IBody(cr, b), V)
            s = flow.Sim(m.ib, m, 2000).run()
            rep.fns.add(p)
            rep.count('abstract states', s.steps)
            rep.count('passing callers')
            rep.check('passed', p, not m.bad, m.bad.get('passed', ('', (), '%s:%s' % (b.file, b.line)))[2], '%s: success is returned on a path on which the decoder did not report it' % p,
                      m.bad.get('passed', ('', (), ''))[1])
    rep.floor('passing callers', 3)
    rep.floor('success returns', 1)
    rep.floor('trailer comparisons', 1)
    rep.floor('flushes', 1)

    rep.rule('covered', 'every run of stream bytes enters the checksum')
    rep.rule('run', 'what enters the checksum is exactly the run that was moved')
    for p, b in sorted(cr.fns.items()):
        names = [(callee_decl(t) or '') for _, t in b.calls()]
        if not any(n.endswith(WRT) or n.endswith(FIN) for n in names) and not any(n.endswith('::write_linear') for n in names) and not any(n.endswith('DivansCodec::fork') for n in names):
            continue
        if p.startswith('<') or '::tests::' in p or small(cr, b) and all(judged(cr, q) for q in cg if p in cg[q]):
            continue
        outer = any(not q.startswith('codec::DivansCodec::') for q in cg if p in cg[q])
        dec = 'decoder' in p or 'decompressor' in p
        ib = flow.IBody(cr, b, lambda c, t, cs, st: cs[0] if len(cs) == 1 and small(cr, cs[0]) and len(st) < 5 else None)
        m = Owed(cr, ib, dec)
        s = flow.Sim(ib, m, 3000).run()
        rep.fns.add(p)
        rep.count('abstract states', s.steps)
        for k in m.n:
            rep.count(k, len(m.n[k]))
        for k in ('consumed', 'produced', 'freeze', 'header', 'skipped'):
            if k == 'produced' and not outer:
                continue
            if k in m.bad:
                rep.bad('covered', '%s:%s' % (p, k), m.bad[k][2], '%s: %s' % (p, m.bad[k][0]), m.bad[k][1])
            else:
                rep.ok('covered', '%s:%s' % (p, k))
        if not m.n['checksum updates']:
            continue
        prs = c04.pairs([b.locals[i] for i in range(1, b.argc + 1)])
        if not prs:
            # the header of a decoder: all of it
            whole(cr, rep, p, ib)
            continue
        if any(s2 == 'out' for s2, _, _ in prs) and not any(n.endswith('::write_linear') for n in names) and any(b.locals[i].startswith('&') and 'usize' in b.locals[i] for i in (1,)):
            header_runs(cr, rep, p, b)
            continue
        ib2 = c04.body(cr, b, (WRT, FIN))
        pol = RunPol(cr)
        S = sym.Sym(ib2, pol, 6000)
        S.run()
        by = {}
        for site, ok, why in pol.found:
            if by.get(site, (True, ''))[0] is not False:
                by[site] = (ok, why)
        # loops: judge again now that all cursors are known
        for i, (site, (ok, why)) in enumerate(sorted(by.items())):
            rep.check('run', '%s:%d' % (p, i), ok is True, '%s:%s' % site, '%s: %s' % (p, why if ok is False else 'the bytes that enter the checksum are not a run of the stream buffer'))
            rep.count('checksum runs')
        if getattr(pol, 'zero_based', False):
            zero_callers(cr, rep, p)
    layouts(cr, rep)
    rep.rule('trailer', 'encoder and decoder lay out the trailer alike')
    rep.floor('trailer layouts', 2)
    rep.floor('checksum updates', 8)
    rep.floor('checksum runs', 4)
    rep.floor('freezes', 1)


def small(cr, b):
    """a helper that does nothing but feed the checksum"""
    if c04.pairs([b.locals[i] for i in range(1, b.argc + 1)]) or len(b.blocks) > 30:
        return False
    return any((callee_decl(t) or '').endswith(WRT) for _, t in b.calls()) and 'SubDigest as' not in b.path


def judged(cr, q):
    return q in cr.fns and bool(c04.pairs([cr.fns[q].locals[i] for i in range(1, cr.fns[q].argc + 1)]))


def zero_callers(cr, rep, p):
    """a callee that counts its run from 0 is only ever started with its cursor at 0"""
    name = p.split('::')[-1]
    for q, b in sorted(cr.fns.items()):
        sites = [(bi, t) for bi, t in b.calls() if any(c.path == p for c in cr.resolve(t))]
        if not sites:
            continue
        ib = flow.IBody(cr, b)

        class P(c04.Pol):
            def contract(self, S, st, bi, t, args):
                if callee(t) == p or any(c.path == p for c in cr.resolve(t)):
                    tys = [S.op_ty(o) for o in t['a']]
                    for side, i, j in c04.pairs(tys):
                        if j is not None and side == 'out':
                            c = S.deref(st, args[j])
                            rep.check('run', '%s->%s:start' % (q, name), S.zero(st, num(st.read(c))), '%s:%s' % tuple(t['sp'][:2]),
                                      '%s: calls %s, which takes the checksum of everything from the start of its buffer, with bytes already in it' % (q, name))
                return c04.Pol.contract(self, S, st, bi, t, args)
        sym.Sym(c04.body(cr, b, (WRT, FIN)), P(cr), 6000).run()


def header_runs(cr, rep, p, b):
    ib = c04.body(cr, b, (WRT, FIN))
    pol = HdrPol(cr)
    S = sym.Sym(ib, pol, 4000)
    S.run()
    n = 0
    for k, bi, st in pol.segs:
        crcs = [e for e in st.ev if e[0] == 'crc']
        outs = [e for e in st.ev if e[0] == 'copy' and e[1][1] == (('h', c04.arg0(next(i for s, i, j in c04.pairs([b.locals[x] for x in range(1, b.argc + 1)]) if s == 'out') + 1)), ())]
        if k != 'ret':
            continue
        good = len(crcs) == len(outs) and all(any(c[1][1] == o[2][1] and S.zero(st, sub(c[1][2], o[2][2])) and S.zero(st, sub(c[1][3], o[2][3])) for c in crcs) for o in outs)
        n += 1
        rep.check('run', '%s:%d' % (p, n), good, '%s:%s' % (b.file, b.line), '%s: what enters the checksum is not what is written to the output' % p)
    rep.count('checksum runs', n)


def whole(cr, rep, p, ib):
    """the header enters the checksum as a whole"""
    sl = Slice(ib, through=())
    for bi in sorted(ib.live_blocks):
        t = ib.blocks[bi]['t']
        if t['k'] == 'call' and (callee_decl(t) or '').endswith(WRT):
            s = sl.op(t['a'][1])
            calls = set(x[1].split('::')[-1] for x in s if x[0] == 'call')
            part = calls & (LIMIT - {'index'}) or any(isinstance(x[1], int) and x[0] == 'const' for x in s)
            ok = has(s, 'header') and not part
            rep.check('run', '%s:header' % p, ok, '%s:%s' % tuple(t['sp'][:2]), '%s: the checksum does not begin with the whole header' % p)
            rep.count('checksum runs')
