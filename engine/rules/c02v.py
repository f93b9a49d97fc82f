"""C02, the values: what is stored at a suspension is where the work stopped."""
import re
from .. import flow, sym
from ..mir import callee_decl, canon, ty_head
from ..slice import Slice
from ..sym import K, add, sub, num, is_const, atom
from . import c02


def check(ctx, rep, inf):
    cr = ctx.lib
    rep.rule('position', 'the position stored at a suspension in mid-loop is where the loop stopped')
    rep.rule('mantissa', 'a stored partial number goes with the number of bits still to come')
    rep.rule('cursor', 'the command cursor moves by one for every completed command and not otherwise')
    rep.rule('kept', 'commands assembled but not coded are kept, and coded before any other')
    for p in sorted(inf.resumable):
        ib = flow.IBody(cr, cr.fns[p], lambda c, t, cands, stack: small(cr, inf, c, t, cands, stack))
        if not any(ib.blocks[bi]['t']['k'] == 'call' and codes(cr, inf, ib.blocks[bi]['t']) for bi in ib.live_blocks):
            continue
        mid = p in inf.mid
        try:
            S, segs = explore(ib, 20000 if mid else 1500)
        except sym.TooMany:
            if not mid:
                continue    # no position is saved in mid-loop there
            rep.bad('position', p + ':size', '%s:%s' % c02.b_file(cr, p), '%s: too many paths to follow' % p)
            continue
        loops(cr, rep, inf, p, ib, S, segs)
        bytewise(cr, rep, inf, p, ib, S, segs)
    rep.floor('mid-loop suspensions', 2)
    rep.floor('partial numbers', 2)
    cursor(cr, rep, inf)
    kept(cr, rep)
    frozen(cr, rep)
    from . import c08
    c08.frozen(cr, rep, 'kept')


def codes(cr, inf, t):
    d = callee_decl(t) or ''
    return d.endswith(c02.CODE) or any(c.path in inf.codes and c.path not in inf.drains for c in cr.resolve(t))


def small(cr, inf, c, t, cands, stack):
    if len(cands) != 1 or len(stack) > 4:
        return None
    b = cands[0]
    if b.path in inf.drains or b.path in inf.codes:
        return None
    if b.path in inf.stores and 'codec' in b.path and len(b.blocks) < 30 or c02.is_state(cr, b.locals[0]) and len(b.blocks) < 30:
        return b
    return None


class Pol(sym.Policy):
    def __init__(self):
        self.segs = []

    def segment(self, S, st, kind, bi):
        self.segs.append((kind, bi, st))


def explore(ib, cap=20000):
    pol = Pol()
    S = sym.Sym(ib, pol, cap)
    S.run()
    return S, pol.segs


def has_code(cr, ev):
    for e in ev:
        if e[0] == 'call' and (e[1].endswith(c02.CODE) or e[1].split('::')[-1] in ('code_nibble',)):
            return True
    return False


def stored(cr, ib, st, base):
    """(place of the state enum, variant, payloads) when this segment stored a codec state into a field of a parameter"""
    out = []
    for p, v in st.mem.items():
        if p[1] and p[1][-1] == ('#',) and v[0] == 'var' and base.get(p) != v and p[0][0] == 'h':
            if STATEVAR(cr, v[1]):
                out.append((p[0], p[1][:-1], v[1]))
    return out


_vars = {}


def STATEVAR(cr, v):
    if id(cr) not in _vars:
        s = set()
        for a in cr.adts:
            if c02.STATE.search(a) and len(cr.variants(a) or ()) > 1 and 'codec' in a:
                s |= set(cr.variants(a).values())
        _vars.clear()
        _vars[id(cr)] = s
    return v in _vars[id(cr)]


def payload(st, pl, var):
    out = {}
    for p, v in st.mem.items():
        n = len(pl[1])
        if p[0] == pl[0] and p[1][:n] == pl[1] and len(p[1]) == n + 2 and p[1][n] == ('d', var):
            try:
                out[int(p[1][n + 1][1])] = v
            except ValueError:
                pass
    return out


def subst(v, m):
    """replace atoms"""
    if v in m:
        return m[v]
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'L':
            r = K(v[1])
            for a, k in v[2]:
                x = m.get(a, None)
                x = x if x is not None else subst(a, m)
                r = add(r, sym.mulk(num(x), k))
            return r
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
    return v


def same(S, st, a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if a[0] in ('ref', 'slice') or b[0] in ('ref', 'slice'):
        return False
    return S.zero(st, sub(a, b))


def loops(cr, rep, inf, p, ib, S, segs):
    heads = {}
    for k, bi, st in segs:
        if st.start[1] != 'entry':
            heads.setdefault(st.start[1], []).append((k, bi, st))
    n = 0
    w = '%s:%s' % c02.b_file(cr, p)
    short = '::'.join(p.split('::')[-2:])
    seen = set()
    for k, bi, st in segs:
        # partial numbers
        for r, el, var in stored(cr, ib, st, st.start[0]):
            pay = payload(st, (r, el), var)
            if len(pay) < 2:
                continue
            last = max(pay)
            s = shift_of(pay[last])
            if s is None:
                continue
            key = '%s:%s' % (p, var)
            ok = last - 1 in pay and same(S, st, pay[last - 1], s)
            if (key, ok) not in seen:
                seen.add((key, ok))
                rep.check('mantissa', key, ok, w, '%s: %s is stored with a number of missing bits that is not the position of the last nibble' % (short, var))
                rep.count('partial numbers')
    outer = set()
    for h, xs in heads.items():
        if not any(k == 'back' and bi == h for k, bi, st in xs):
            continue
        backs = [st for k, bi, st in xs if k == 'back' and bi == h and has_code(cr, st.ev)]
        rets = [st for k, bi, st in xs if k == 'ret']
        # a loop that codes in every round and carries locals
        saves = [st for st in rets if has_code(cr, st.ev) and stored(cr, ib, st, st.start[0])]
        ends = [st for st in rets if not has_code(cr, st.ev) and stored(cr, ib, st, st.start[0])]
        if not backs or not saves:
            continue
        carried = [pl for pl, v in backs[0].start[0].items() if pl[0][0] == 'l' and not pl[1] and backs[0].mem.get(pl) not in (None, v) and num_ok(v) and is_phi(v)]
        if not carried:
            continue
        # which of them were bound from the payload of the state
        bound, arm = {}, None
        for k, bi, st in segs:
            if k == 'enter' and bi == h:
                for pl in st.mem:
                    if pl[0][0] == 'l' and not pl[1]:
                        got = from_state(cr, st.mem[pl])
                        if got:
                            bound[pl] = got[1]
                            arm = got[0]
        if not bound:
            continue
        for st in saves:
            n += 1
            good = False
            why = 'the stored state is not where the loop stopped'
            for r, el, var in stored(cr, ib, st, st.start[0]):
                pay = payload(st, (r, el), var)
                for B in backs:
                    sg = dict((atom(num(v)), B.mem[pl]) for pl, v in B.start[0].items() if pl in carried and atom(num(v)) is not None)
                    if var == arm:
                        cs = [pl for pl in carried if pl in bound]
                        if cs and all(bound[pl] in pay and same(S, st, pay[bound[pl]], B.mem[pl]) for pl in cs):
                            good = True
                        else:
                            why = 'the %s stored in mid-loop does not hold the values the next round would have started with' % var
                    else:
                        for E in ends:
                            ws = writes(E)
                            mine = writes(st)
                            if all(q in mine and (mine[q] == subst(v, sg) or mine[q][0] == 'L' and same(S, st, mine[q], subst(v, sg))) for q, v in ws.items() if q[1][-1] not in (('#',),) and v != ('tup',)) and \
                               all(mine.get(q) == v for q, v in ws.items() if q[1][-1] == ('#',)):
                                good = True
                            else:
                                why = 'the %s stored in the last round differs from what the end of the loop stores' % var
                if good:
                    break
            rep.check('position', '%s:loop' % p, good, w, '%s: %s' % (short, why))
        # which of the two: decided by whether the loop has a round left
        zero = {}
        for st in saves:
            for r, el, var in stored(cr, ib, st, st.start[0]):
                for B in backs[:1]:
                    s = None
                    for pl in carried:
                        s = s or shift_of(st.mem.get(pl, B.mem[pl])) or shift_of(B.mem[pl])
                    if s is not None:
                        t = zerofact(st, s)
                        ok = t is not None and t == (var != arm)
                        rep.check('position', '%s:last' % p, ok, w, '%s: which state is stored in mid-loop is not decided by whether the loop is in its last round' % short)
    rep.count('mid-loop suspensions', n)


def zerofact(st, s):
    s = num(s)
    for v, f in st.facts.items():
        a = atom(num(v))
        if a == ('op', 'eq0', s) or a == ('op', 'eq0', sym.mulk(s, -1)):
            if f[0] == '=':
                return bool(f[1])
            if f[0] == '!':
                return not (0 not in f[1])
        if num(v) == s:
            if f[0] == '=':
                return f[1] == 0
            if f[0] == '!' and 0 in f[1]:
                return False
    return None


def writes(st):
    out = {}
    for q, v in st.mem.items():
        if q[0][0] == 'h' and q[1] and st.start[0].get(q) != v and q[1][0] in (('f', 'cc'), ('f', 'state'), ('f', 'dc'), ('f', 'lc')):
            out[q] = v
    return out


def is_phi(v):
    a = atom(num(v))
    return a is not None and a[0] == 'phi'


def num_ok(v):
    return v[0] not in ('ref', 'slice', 'tup', 'var', 'rep')


def from_state(cr, v):
    """(variant, payload index) when v is the payload of a codec state loaded in this segment"""
    if v is None or not num_ok(v):
        return None
    a = atom(num(v))
    if a is None:
        return None
    for x in walk(a):
        if isinstance(x, tuple) and len(x) >= 2:
            for i in range(len(x) - 1):
                if isinstance(x[i], tuple) and len(x[i]) == 2 and x[i][0] == 'd' and isinstance(x[i + 1], tuple) and x[i + 1][0] == 'f' and STATEVAR(cr, x[i][1]):
                    if i + 2 == len(x) and x[i + 1][1].isdigit():
                        return x[i][1], int(x[i + 1][1])
    return None


def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def shift_of(v):
    """s when v = old | (nibble << s)"""
    if v is None or v[0] != 'L':
        return None
    a = atom(v)
    if a is None or a[0] != 'op' or a[1] not in ('BitOr', 'BitXor'):
        return None
    for x in a[2:]:
        b = atom(x) if x[0] == 'L' else x
        if b is not None and b[0] == 'op' and b[1] == 'Shl':
            return b[3]
    return None


# ------------------------------------------------------- the literal bytes
def bytewise(cr, rep, inf, p, ib, S, segs):
    w = '%s:%s' % c02.b_file(cr, p)
    short = '::'.join(p.split('::')[-2:])
    res = {}
    for k, bi, st in segs:
        if k != 'ret' or st.start[1] == 'entry':
            continue
        pos, push = None, 0
        for e in st.ev:
            if e[0] != 'call':
                continue
            n = e[1].split('::')[-1]
            if n == 'get_literal_byte':
                pos, push = e[2][2], 0
            elif n in ('push_literal_byte',):
                push += 1
        if pos is None or not num_ok(pos):
            continue
        for r, el, var in stored(cr, ib, st, st.start[0]):
            pay = payload(st, (r, el), var)
            if not pay or 0 not in pay:
                continue
            want = add(sym.mulk(num(pos), 2), K(2 if push else 1))
            ok = same(S, st, pay[0], want)
            kind = var
            half = 'LowerHalf' in var
            res[(var, push > 0)] = res.get((var, push > 0), True) and ok and (half == (push == 0))
            # what is returned: complete only when this was the last byte
            rv = st.mem.get(((('l', 0)), (('#',),))) or st.mem.get((('l', 0), (('#',),)))
            if push and rv is not None and rv[0] == 'var':
                last = lastbyte(st, add(num(pos), K(1)))
                ok2 = last is not None and last == (rv[1] == 'Success')
                res[('returns', rv[1] == 'Success')] = res.get(('returns', rv[1] == 'Success'), True) and ok2
    for (a, b), ok in sorted(res.items()):
        rep.count('mid-loop suspensions')
        if a == 'returns':
            rep.check('position', '%s:complete' % p, ok, w, '%s: whether a suspended literal is reported as complete is not decided by whether its last byte was coded' % short)
        else:
            rep.check('position', '%s:%s:%d' % (p, a, b), ok, w, '%s: the nibble index stored with %s is not the one after the last nibble coded' % (short, a))


def lastbyte(st, nxt):
    """is it known whether nxt equals some length"""
    for v, f in st.facts.items():
        a = atom(num(v))
        if a is None or a[0] != 'op' or a[1] not in ('eq0', 'lt0') or f[0] != '=':
            continue
        if a[1] == 'lt0':
            # the position never exceeds the length
            d = sub(a[2], nxt)
            if not is_const(d) and d[1] == 0 and len(d[2]) == 1 and d[2][0][1] == -1 and 'len' in repr(d[2][0][0])[:4000]:
                return not f[1]
            continue
        for sgn in (1, -1):
            d = sub(a[2], sym.mulk(nxt, sgn))
            # what remains is a single length
            if is_const(d):
                continue
            if d[1] == 0 and len(d[2]) == 1 and abs(d[2][0][1]) == 1 and 'len' in repr(d[2][0][0])[:4000]:
                return bool(f[1])
    return None


# ------------------------------------------------------- the command cursor
class Cursor(flow.Monitor):
    """owed: a command was completed and the cursor has not moved yet"""
    init = (False,)

    def __init__(self, cr, ib, cur):
        self.cr, self.ib, self.cur = cr, ib, cur
        self.bad = {}
        self.n = set()
        self.sl = Slice(ib, through=())

    def flag(self, sim, k, msg):
        if k not in self.bad:
            self.bad[k] = (msg, sim.trace(), '%s:%s' % tuple(self.ib.blocks[sim.cur[0]]['t']['sp'][:2]))

    def stmt(self, sim, st, bi, s, mon):
        if s['k'] == '=' and s['d']['p']:
            p = self.ib.norm(s['d'])
            if p[0] == self.cur and p[1] == ('*',):
                self.n.add(tuple(s['sp'][:2]))
                ks = set(x[1] for l in flow.rv_locals(s['r']) for x in self.sl.path((l, ())) if x[0] == 'const')
                if not mon[0]:
                    self.flag(sim, 'moved', 'the command cursor moves on a path on which no command was completed')
                elif ks != {1}:
                    self.flag(sim, 'step', 'the command cursor does not move by one')
                return (False,)
        return mon

    def call(self, sim, st, bi, t, mon):
        if c02.res_head(self.ib.locals[t['d']['l']]) == 'CodecTraitResult' if not t['d']['p'] else False:
            if mon[0]:
                self.flag(sim, 'stuck', 'the next command is begun on a path on which the cursor has not moved past the completed one')
            q = (('d', 'Res'), ('f', '0'))
            r = ('var', frozenset(['Res']))
            sim.forks = [((True,), {(): r, q: ('var', frozenset(['Advance']))}), ((True,), {(): ('var', frozenset(['UpdateCodecTraitAndAdvance']))}),
                         ((False,), {(): r, q: ('var', frozenset(['BufferExhausted']))})]
        return mon

    def ret(self, sim, st, bi, mon):
        if mon[0]:
            self.flag(sim, 'lost', 'the function returns on a path on which a command was completed and the cursor has not moved past it')


def cursor(cr, rep, inf):
    n = 0
    for p, b in sorted(cr.fns.items()):
        ib = flow.IBody(cr, b)
        gets = [t for bi, t in b.calls() if (callee_decl(t) or '').endswith('get_input_command')]
        if not gets or p.endswith('get_input_command'):
            continue
        sl = Slice(ib, through=())
        src = sl.op(gets[0]['a'][-1])
        cur = [x[1] for x in src if x[0] == 'arg']
        if len(set(cur)) != 1:
            rep.bad('cursor', p + ':source', '%s:%s' % (b.file, b.line), '%s: the command is not taken from the place the caller\'s cursor names' % p)
            continue
        m = Cursor(cr, ib, cur[0])
        flow.Sim(ib, m, 4000).run()
        n += len(m.n)
        for k in ('moved', 'step', 'stuck', 'lost'):
            if k in m.bad:
                msg, tr, w = m.bad[k]
                rep.bad('cursor', '%s:%s' % (p, k), w, '%s: %s' % (p, msg), tr)
            else:
                rep.ok('cursor', '%s:%s' % (p, k))
        rep.fns.add(p)
    rep.count('cursor moves', n)
    rep.floor('cursor moves', 1)


# ------------------------------------------------------- frozen commands
ARR = re.compile(r"\[(brotli::)?interface::Command<")


class Frozen(flow.Monitor):
    """flushed: the commands kept from an earlier call have been coded; out: commands assembled and not yet coded"""
    init = (False, False, False)

    def __init__(self, cr, ib):
        self.cr, self.ib = cr, ib
        self.sl = Slice(ib, through=())
        self.bad = {}
        self.n = {'assembler calls': set(), 'keeps': set()}

    def flag(self, sim, k, msg):
        if k not in self.bad:
            self.bad[k] = (msg, sim.trace(), '%s:%s' % tuple(self.ib.blocks[sim.cur[0]]['t']['sp'][:2]))

    def on(self, o, f):
        return any(x[0] == 'arg' and f in x for x in self.sl.op(o))

    def call(self, sim, st, bi, t, mon):
        n = (callee_decl(t) or '').split('::')[-1]
        fl, out, kept = mon
        ty = self.ib.locals[t['d']['l']] if not t['d']['p'] else ''
        h = c02.res_head(ty)
        if n == 'flush_freeze_dried_cmds':
            sim.forks = [((True, out, kept), frozenset(['Success'])), (mon, frozenset(['NeedsMoreOutput', 'Failure']))]
            return mon
        if n in ('stream', 'flush') and t['a'] and self.on(t['a'][0], 'cmd_assembler'):
            self.n['assembler calls'].add(tuple(t['sp'][:2]))
            if not fl:
                self.flag(sim, 'first', 'new commands are assembled on a path on which the commands kept from an earlier call have not been coded')
            if out:
                self.flag(sim, 'dropped', 'commands are assembled on a path on which the ones before have not been coded')
            sim.forks = [((fl, True, False), frozenset([v])) for v in (('Success', 'NeedsMoreInput', 'NeedsMoreOutput', 'Failure') if h == 'DivansResult' else ('Success', 'NeedsMoreOutput', 'Failure'))]
            return mon
        if n == 'encode_or_decode' and t['a'] and self.on(t['a'][0], 'codec'):
            sim.forks = [((fl, False, kept), frozenset(['Success', 'NeedsMoreInput'])), ((fl, out, kept), frozenset(['NeedsMoreOutput'])), ((fl, out, kept), frozenset(['Failure']))]
            return mon
        if n == 'freeze_dry':
            self.n['keeps'].add(tuple(t['sp'][:2]))
            return (False, False, True)
        if n in ('from', 'into') and h in c02.RES and t['a'] and 'pl' in t['a'][0]:
            v = st.get(self.ib.norm(t['a'][0]['pl']))
            if v is not None and v[0] == 'var':
                sim.result = v[1]
        return mon

    def edge(self, sim, st, bi, nb, mon):
        # no commands were assembled
        t = self.ib.blocks[bi]['t']
        if mon[1] and t['k'] == 'switch' and 'pl' in t['o']:
            d = self.ib.defs.get(t['o']['pl']['l'], [])
            if len(d) == 1 and d[0][0] == 'rv' and d[0][1]['k'] == 'bin' and d[0][1]['op'] in ('Eq', 'Ne', 'Gt', 'Lt'):
                r = d[0][1]
                a, b = r['a'], r['b']
                z = 'pl' not in b and b.get('v') == 0 and 'pl' in a
                if z and self.counts(a) and r['op'] in ('Eq', 'Ne', 'Gt'):
                    tr = [v for v, x in t['v'] if x == nb]
                    truth = bool(tr[0]) if tr else True
                    if truth == (r['op'] == 'Eq'):
                        return (mon[0], False, mon[2])
            elif self.counts(t['o']):
                if [v for v, x in t['v'] if x == nb] == [0]:
                    return (mon[0], False, mon[2])
        return mon

    def counts(self, o):
        s = self.sl.op(o)
        return any(x[0] == 'call' and x[1].split('::')[-1] in ('stream', 'flush') for x in s) or ('pl' in o and self.ib.locals[o['pl']['l']] == 'usize' and self.cursorish(o['pl']['l']))

    def cursorish(self, l):
        seen = set()
        todo = [l]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for bi in self.ib.live_blocks:
                t = self.ib.blocks[bi]['t']
                if t['k'] == 'call' and (callee_decl(t) or '').split('::')[-1] in ('stream', 'flush') and any(self.ib.target(a) == (x, ()) for a in t['a'] if 'pl' in a):
                    return True
            for d in self.ib.defs.get(x, []):
                if d[0] == 'rv' and d[1]['k'] == 'use' and 'pl' in d[1]['o'] and not d[1]['o']['pl']['p']:
                    todo.append(d[1]['o']['pl']['l'])
        return False

    def ret(self, sim, st, bi, mon):
        v = st.get((0, ()))
        if mon[1] and not (v is not None and v[0] == 'var' and v[1] == frozenset(['Failure'])):
            self.flag(sim, 'lost', 'the function returns on a path on which assembled commands were neither coded nor kept')


def kept(cr, rep):
    n = 0
    for p, b in sorted(cr.fns.items()):
        if 'DivansCompressor' not in p:
            continue
        if not any((callee_decl(t) or '').split('::')[-1] in ('stream', 'flush') and t['a'] and 'pl' in t['a'][0] and 'RawToCmdState' in b.locals[t['a'][0]['pl']['l']] for bi, t in b.calls()):
            continue
        ib = flow.IBody(cr, b)
        m = Frozen(cr, ib)
        flow.Sim(ib, m, 4000).run()
        n += 1
        w = '%s:%s' % (b.file, b.line)
        for k in ('first', 'dropped', 'lost'):
            if k in m.bad:
                msg, tr, w2 = m.bad[k]
                rep.bad('kept', '%s:%s' % (p, k), w2, '%s: %s' % (p, msg), tr)
            else:
                rep.ok('kept', '%s:%s' % (p, k))
        for k, v in m.n.items():
            rep.count(k, len(v))
        rep.fns.add(p)
        ranges(cr, rep, p, b)
    rep.floor('assembler calls', 2)
    rep.floor('keeps', 2)


def ranges(cr, rep, p, b):
    """what is handed to the codec is what was assembled; what is kept is the rest"""
    found = {}

    class P(sym.Policy):
        def contract(self, S, st, bi, t, args):
            n = (callee_decl(t) or '').split('::')[-1]
            if n in ('stream', 'flush') and args and 'RawToCmdState' in S.op_ty(t['a'][0]):
                tys = [S.op_ty(o) for o in t['a']]
                i = next(i for i, x in enumerate(tys) if 'Command<' in x and x.startswith('&'))
                c = args[i + 1]
                S.opaque(st, t, bi, args, S.place(st, t['d']), callee_decl(t) or '')
                if args[i][0] == 'slice' and c[0] == 'ref':
                    st.ev += (('asm', args[i], c[1], st.read(c[1])),)
                else:
                    st.ev += (('asm', None, None, None),)
                return True
            if n == 'encode_or_decode' and len(args) == 7:
                asm = [e for e in st.ev if e[0] == 'asm']
                arr = self.commands(S, st, args[5])
                cur = args[6][1] if args[6][0] == 'ref' else None
                zero = cur is not None and is_const(num(st.read(cur))) and num(st.read(cur))[1] == 0
                if asm:
                    note('coded', bool(arr) and asm[-1][1] is not None and zero and self.match(S, st, arr, asm[-1][1], K(0), num(asm[-1][3])), t)
                S.opaque(st, t, bi, args, S.place(st, t['d']), callee_decl(t) or '')
                if cur is not None:
                    st.ev += (('done', cur, st.read(cur)),)
                return True
            if n == 'freeze_dry':
                asm = [e for e in st.ev if e[0] == 'asm']
                done = [e for e in st.ev if e[0] == 'done']
                a = args[3]
                ok = bool(asm) and bool(done) and a[0] == 'slice' and asm[-1][1] is not None
                if ok:
                    at = num(done[-1][2])
                    ok = self.match(S, st, a, asm[-1][1], at, sub(num(asm[-1][3]), at))
                note('rest', ok, t)
            return None

        def commands(self, S, st, v):
            """the slice inside the command array handed over"""
            if v[0] == 'ref':
                w = st.read((v[1][0], v[1][1] + (('f', '0'),)))
                return w if w[0] == 'slice' else None
            return None

        def match(self, S, st, a, whole, off, ln):
            return a[1] == whole[1] and S.zero(st, sub(a[2], add(whole[2], off))) and S.zero(st, sub(a[3], ln))

    def note(k, ok, t):
        w = '%s:%s' % tuple(t['sp'][:2])
        o = found.get((k, w), True)
        found[(k, w)] = o and ok
    ib = flow.IBody(cr, b)
    sym.Sym(ib, P(), 6000).run()
    for (k, w), ok in sorted(found.items()):
        rep.count('command ranges')
        rep.check('kept', '%s:%s' % (p, k), ok, w, '%s: %s' % (p, 'the commands handed to the codec are not the ones assembled' if k == 'coded' else
                                                            'what is kept is not what remains after the commands that were coded'))
    rep.floor('command ranges', 2)


def frozen(cr, rep):
    """what is recorded about kept commands is their number, starting from the first"""
    for p, b in sorted(cr.fns.items()):
        if p.split('::')[-1] != 'freeze_dry' or 'DivansCompressor' not in p:
            continue
        w = '%s:%s' % (b.file, b.line)
        tys = [b.locals[i] for i in range(1, b.argc + 1)]
        cur = [i + 1 for i, x in enumerate(tys) if x.replace("'_ ", '') == '&mut usize']
        inp = [i + 1 for i, x in enumerate(tys) if x.startswith('&') and not x.startswith('&mut') and 'Command<' in x and x.rstrip().endswith(']')]
        rep.anchor('%s: a range and the commands to keep' % p, len(cur) == 2 and len(inp) == 1)
        if len(cur) != 2 or len(inp) != 1:
            continue
        pol = Pol()
        ib = flow.IBody(cr, b)
        S = sym.Sym(ib, pol, 3000)
        S.run()
        good = 0
        for kind, bi, st in pol.segs:
            if kind != 'ret':
                continue
            n = cells = None
            a = st.read((('l', inp[0]), ()))
            vals = []
            for c in cur:
                r = st.read((('l', c), ()))
                vals.append(num(st.read(r[1])) if r[0] == 'ref' else num(st.read((('h', ('m', ('l', c), ())), ()))))
            good += 1
            ok = a[0] == 'slice' and S.zero(st, vals[0]) and S.zero(st, sub(vals[1], a[3]))
            # either order of the two cursors will do as long as the callers agree
            rep.check('kept', p + ':range', ok, w, '%s: the range recorded for the commands kept is not (0, their number)' % p)
        rep.anchor('%s returns' % p, good)
        moves(ib, rep, p)
        rep.fns.add(p)


def moves(ib, rep, p):
    """each command is kept as the command it is, its parts in their places"""
    n = 0
    for bi in sorted(ib.live_blocks):
        for s in ib.blocks[bi]['s']:
            r = s.get('r')
            if s['k'] != '=' or r['k'] != 'agg' or r.get('a') != 'adt':
                continue
            head = str(r['adt']).split('::')[-1]
            if head not in ('Command', 'LiteralCommand', 'PredictionModeContextMap', 'CopyCommand', 'DictCommand'):
                continue
            w = '%s:%s' % tuple(s['sp'][:2])
            for f, o in zip(r['fn'], r['o']):
                el = elems(ib, o)
                if head == 'Command':
                    from_ = set(e[1] for e in el if e[0] == 'd' and e[1] not in ('Some', 'Ok'))
                    n += 1
                    rep.check('kept', '%s:%s' % (p, r['var']), from_ == {r['var']}, w, '%s: a %s command is kept that is made from %s' % (p, r['var'], '/'.join(sorted(from_)) or 'something else'))
                else:
                    from_ = set(e[1] for e in el if e[0] == 'f' and e[1] in r['fn'])
                    rep.check('kept', '%s:%s.%s' % (p, head, f), from_ <= {f}, w, '%s: %s of a kept %s is taken from %s' % (p, f, head, '/'.join(sorted(from_))))
    rep.count('kinds of command kept', n)
    rep.floor('kinds of command kept', 5)


def elems(ib, o):
    """projections passed on the way back from an operand to where its value comes from"""
    out, seen, todo = set(), set(), [o['pl']] if 'pl' in o else []
    while todo:
        pl = todo.pop()
        l, el = ib.norm(pl)
        out |= set(e for e in el if isinstance(e, tuple))
        for x in {l, pl['l']}:
            if x in seen:
                continue
            seen.add(x)
            for d in ib.defs.get(x, []):
                if d[0] == 'call':
                    todo += [a['pl'] for a in d[1]['a'] if 'pl' in a]
                else:
                    todo += places(d[1])
    return out


def places(x):
    if isinstance(x, dict):
        if 'l' in x and 'p' in x:
            return [x]
        return [y for v in x.values() for y in places(v)]
    if isinstance(x, list):
        return [y for v in x for y in places(v)]
    return []
