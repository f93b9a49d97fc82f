"""Virtual inlining, access paths, and a path-sensitive typestate engine
(property simulation: disjunctive dataflow over (monitor state, value facts))."""
import os
from collections import defaultdict, deque
from . import mir
from .mir import canon, callee, callee_decl, term_succ


# ------------------------------------------------------------------ inlining
def _sh_place(pl, lb):
    return {'l': pl['l'] + lb, 'p': [(['i', e[1] + lb] if e[0] == 'i' else e) for e in pl['p']]}


def _sh_op(o, lb):
    if 'pl' in o:
        return {'k': o['k'], 'pl': _sh_place(o['pl'], lb)}
    return o


def _sh_rv(r, lb):
    r2 = dict(r)
    if 'pl' in r:
        r2['pl'] = _sh_place(r['pl'], lb)
    if 'o' in r:
        r2['o'] = [_sh_op(x, lb) for x in r['o']] if isinstance(r['o'], list) else _sh_op(r['o'], lb)
    if 'a' in r and isinstance(r['a'], dict):
        r2['a'] = _sh_op(r['a'], lb)
    if 'b' in r:
        r2['b'] = _sh_op(r['b'], lb)
    return r2


def _sh_stmt(s, lb):
    if s['k'] == '=':
        return {'k': '=', 'd': _sh_place(s['d'], lb), 'r': _sh_rv(s['r'], lb), 'sp': s['sp']}
    if s['k'] == 'setdisc':
        return {'k': 'setdisc', 'd': _sh_place(s['d'], lb), 'var': s['var'], 'sp': s['sp']}
    if s['k'] == 'dead':
        return {'k': 'dead', 'l': s['l'] + lb}
    return s


def _sh_term(t, lb, bb):
    t2 = dict(t)
    if 'o' in t:
        t2['o'] = _sh_op(t['o'], lb)
    if 'pl' in t:
        t2['pl'] = _sh_place(t['pl'], lb)
    if t['k'] in ('call', 'tailcall'):
        t2['a'] = [_sh_op(x, lb) for x in t['a']]
        t2['f'] = _sh_op(t['f'], lb)
        if 'd' in t:
            t2['d'] = _sh_place(t['d'], lb)
    for k in ('len', 'idx', 'x', 'y'):
        if k in t:
            t2[k] = _sh_op(t[k], lb)
    if 't' in t and t['t'] is not None:
        t2['t'] = t['t'] + bb
    if 'v' in t:
        t2['v'] = [[v, b + bb] for v, b in t['v']]
        t2['ow'] = t['ow'] + bb
    return t2


_known = []


def helper(b):
    """Functions that were not there when the rules were written (functions.txt) are parts of
    their callers that somebody moved out: every rule sees through them."""
    if not _known:
        _known.append(set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'functions.txt')).read().split('\n')))
    return b if b.path not in _known[0] and '{' not in b.path and len(b.blocks) < 200 else None


def own(cr):
    """(path, body) of the functions that are judged by themselves: not the parts that were moved
    out of others (helper), which are judged inside their callers"""
    called = set()
    for p, b in cr.fns.items():
        for _, t in b.calls():
            cs = cr.resolve(t)
            if len(cs) == 1 and cs[0].path != p:
                called.add(cs[0].path)
    return [(p, b) for p, b in sorted(cr.fns.items()) if p not in called or helper(b) is None]


class IBody(object):
    """A body with selected callees inlined."""

    def __init__(self, crate, root, want=None, max_depth=12, max_blocks=60000):
        self.crate = crate
        self.root = root
        self.path = root.path
        self.argc = root.argc
        self.locals = []
        self.names = {}
        self.blocks = []
        self.inlined = defaultdict(int)
        self.entry = 0
        self._emit(root, [root.path], want or (lambda c, t, b, s: None), max_depth, max_blocks)
        self.succ = [term_succ(b['t']) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        self.live_blocks = self._reach()
        self._index()

    def _emit(self, body, stack, want, depth, maxb):
        lb = len(self.locals)
        bb = len(self.blocks)
        self.locals.extend(body.locals)
        for k, v in body.names.items():
            self.names[k + lb] = v
        todo = []
        for bi, b in enumerate(body.blocks):
            if b['c']:
                self.blocks.append({'s': [], 't': {'k': 'unreachable', 'sp': b['t']['sp']}, 'fn': body.path, 'c': 1})
                continue
            self.blocks.append({'s': [_sh_stmt(s, lb) for s in b['s']], 't': _sh_term(b['t'], lb, bb),
                                'fn': body.path, 'c': 0, 'stk': tuple(stack), 'o': bi})
            if b['t']['k'] == 'call':
                todo.append(bb + bi)
        for g in todo:
            t = self.blocks[g]['t']
            if depth <= 0 or len(self.blocks) > maxb:
                continue
            cands = self.crate.resolve(t)
            cb = want(body, t, cands, stack) if cands else None
            if cb is None and len(cands) == 1:
                cb = helper(cands[0])
            if cb is None or cb.path in stack or len(t['a']) != cb.argc:
                continue
            if all(b['c'] or b['t']['k'] != 'return' for b in cb.blocks) and t['t'] is None:
                pass
            self.inlined[cb.path] += 1
            cbase, centry = self._emit(cb, stack + [cb.path], want, depth - 1, maxb)
            blk = self.blocks[g]
            sp = t['sp']
            blk['s'].append({'k': 'enter', 'fn': cb.path, 'sp': sp, 'term': t})
            for i, a in enumerate(t['a']):
                blk['s'].append({'k': '=', 'd': {'l': cbase + 1 + i, 'p': []}, 'r': {'k': 'use', 'o': a}, 'sp': sp, 'arg': 1})
            blk['t'] = {'k': 'goto', 't': centry, 'sp': sp}
            nb = len([1 for _ in cb.blocks])
            for k in range(centry, centry + nb):
                if self.blocks[k]['t']['k'] == 'return' and self.blocks[k].get('ret_of') is None and self.blocks[k]['fn'] == cb.path:
                    b2 = self.blocks[k]
                    b2['ret_of'] = cb.path
                    b2['s'].append({'k': '=', 'd': t['d'], 'r': {'k': 'use', 'o': {'k': 'move', 'pl': {'l': cbase, 'p': []}}}, 'sp': b2['t']['sp'], 'ret': 1})
                    b2['s'].append({'k': 'exit', 'fn': cb.path, 'sp': b2['t']['sp']})
                    b2['t'] = {'k': 'goto', 't': t['t'], 'sp': b2['t']['sp']} if t['t'] is not None else {'k': 'unreachable', 'sp': b2['t']['sp']}
        return lb, bb

    def _reach(self):
        seen = set()
        q = [0]
        while q:
            x = q.pop()
            if x in seen:
                continue
            seen.add(x)
            q.extend(self.succ[x])
        return seen

    def _index(self):
        self.defs = defaultdict(list)
        for bi in sorted(self.live_blocks):
            b = self.blocks[bi]
            for s in b['s']:
                if s['k'] == '=' and not s['d']['p']:
                    self.defs[s['d']['l']].append(('rv', s['r'], bi))
            t = b['t']
            if t['k'] == 'call' and not t['d']['p']:
                self.defs[t['d']['l']].append(('call', t, bi))
        self._norm = {}

    def name(self, l):
        return self.names.get(l) or ('_%d' % l)

    # -------------------------------------------------------------- paths
    def is_ref(self, l):
        t = self.locals[l]
        return t.startswith('&') or t.startswith('*')

    def norm(self, pl):
        """Canonical access path (root, elems) following single-definition
        reference temporaries."""
        return self._norm_path(pl['l'], tuple(_el(e) for e in pl['p']), 0)

    def _norm_path(self, l, el, d):
        if d > 60:
            return (l, el)
        if el and l > 0 and (l > self.argc or l == 0):
            ds = self.defs.get(l, ())
            if len(ds) == 1 and ds[0][0] == 'rv':
                r = ds[0][1]
                if r['k'] in ('ref', 'rawptr') and el[0] == '*':
                    q = r['pl']
                    return self._norm_path(q['l'], tuple(_el(e) for e in q['p']) + el[1:], d + 1)
                if r['k'] == 'use' and 'pl' in r['o'] and (self.is_ref(l)):
                    q = r['o']['pl']
                    return self._norm_path(q['l'], tuple(_el(e) for e in q['p']) + el, d + 1)
                if r['k'] == 'cast' and 'pl' in r['o'] and self.is_ref(l):
                    q = r['o']['pl']
                    return self._norm_path(q['l'], tuple(_el(e) for e in q['p']) + el, d + 1)
        return (l, el)

    def target(self, o):
        """Path an operand of reference type points at, or None."""
        if 'pl' not in o:
            return None
        return self.norm({'l': o['pl']['l'], 'p': list(o['pl']['p']) + [['*']]})

    def fmt(self, path):
        l, el = path
        s = self.name(l)
        for e in el:
            if e == '*':
                continue
            if e == '[]':
                s += '[]'
            elif e[0] == 'f':
                s += '.' + e[1]
            elif e[0] == 'd':
                s += '<' + e[1] + '>'
        return s

    # ---------------------------------------------------------- liveness
    def liveness(self):
        if hasattr(self, '_live'):
            return self._live
        n = len(self.blocks)
        use = [None] * n
        de = [None] * n
        esc = set()
        for bi in self.live_blocks:
            b = self.blocks[bi]
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)
            for s in b['s']:
                if s['k'] == '=':
                    for l in rv_locals(s['r']):
                        rd(l)
                    if s['r']['k'] in ('ref', 'rawptr'):
                        esc.add(s['r']['pl']['l'])
                    if s['d']['p']:
                        rd(s['d']['l'])
                    else:
                        d.add(s['d']['l'])
                    for e in s['d']['p']:
                        if e[0] == 'i':
                            rd(e[1])
                elif s['k'] == 'setdisc':
                    rd(s['d']['l'])
            t = b['t']
            for l in term_locals(t):
                rd(l)
            if t['k'] == 'return':
                rd(0)
            if t['k'] == 'call':
                if t['d']['p']:
                    rd(t['d']['l'])
                else:
                    d.add(t['d']['l'])
            use[bi], de[bi] = u, d
        live = [set() for _ in range(n)]
        work = deque(sorted(self.live_blocks, reverse=True))
        inq = set(work)
        while work:
            x = work.popleft()
            inq.discard(x)
            out = set()
            for s in self.succ[x]:
                out |= live[s]
            new = use[x] | (out - de[x])
            if new != live[x]:
                live[x] = new
                for p in self.pred[x]:
                    if p in self.live_blocks and p not in inq:
                        inq.add(p)
                        work.append(p)
        self._live = live
        self._esc = esc
        return live

    def lines(self):
        r = set()
        for bi in self.live_blocks:
            r.add((self.blocks[bi]['t']['sp'][0], self.blocks[bi]['t']['sp'][1]))
        return r


def _el(e):
    if e[0] == '*':
        return '*'
    if e[0] == 'f':
        return ('f', e[1])
    if e[0] == 'd':
        return ('d', e[1])
    if e[0] in ('i', 'c', 's'):
        return '[]'
    return ('o',)


def op_locals(o):
    if 'pl' in o:
        return [o['pl']['l']] + [e[1] for e in o['pl']['p'] if e[0] == 'i']
    return []


def rv_operands(r):
    k = r['k']
    if k in ('use', 'cast', 'un', 'repeat'):
        return [r['o']]
    if k == 'bin':
        return [r['a'], r['b']]
    if k == 'agg':
        return list(r['o'])
    return []


def rv_locals(r):
    out = []
    for o in rv_operands(r):
        out += op_locals(o)
    if 'pl' in r:
        out.append(r['pl']['l'])
        out += [e[1] for e in r['pl']['p'] if e[0] == 'i']
    return out


def term_locals(t):
    out = []
    if 'o' in t:
        out += op_locals(t['o'])
    if t['k'] in ('call', 'tailcall'):
        for a in t['a']:
            out += op_locals(a)
        out += op_locals(t['f'])
        if 'd' in t:
            out += [e[1] for e in t['d']['p'] if e[0] == 'i']
    if t['k'] == 'drop':
        out.append(t['pl']['l'])
    if t['k'] == 'assert':
        for k in ('len', 'idx', 'x', 'y'):
            if k in t:
                out += op_locals(t[k])
    return out


def is_prefix(a, b):
    """path a is a prefix of (or equal to) path b"""
    return a[0] == b[0] and b[1][:len(a[1])] == a[1]


# --------------------------------------------------------- typestate engine
TOP = None
UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')


class Monitor(object):
    """Override. Monitor state must be hashable."""
    init = ()

    def stmt(self, sim, st, bi, s, mon):
        return mon

    def call(self, sim, st, bi, t, mon):
        """return mon (None = path ends here); may set sim.result = frozenset of variants."""
        return mon

    def ret(self, sim, st, bi, mon):
        pass

    def edge(self, sim, st, bi, nb, mon):
        return mon

    def panic(self, sim, st, bi, mon):
        pass

    def drop(self, sim, st, bi, t, mon):
        return mon


class Sim(object):
    """Disjunctive forward analysis. st = (mon, facts-dict)."""

    def __init__(self, ib, mon, cap=400, init_facts=None, adt_variants=None, keep=None):
        self.ib = ib
        self.m = mon
        self.cap = cap
        self.viol = []
        self.init_facts = init_facts or {}
        self.adtv = adt_variants or (lambda a: ib.crate.variants(a))
        self.live = ib.liveness()
        self.keep = keep
        self.truncated = 0
        self.steps = 0

    # ---------- facts
    def kill(self, f, path):
        l = path[0]
        el = path[1]
        n = len(el)
        bad = [k for k in f if k[0] == l and (k[1][:n] == el or el[:len(k[1])] == k[1])]
        for k in bad:
            # a parent's own variant fact survives a write to a field inside it
            if len(k[1]) < n:
                v = f[k]
                if v[0] in ('var',):
                    continue
            del f[k]
        # facts that mention the path
        for k in [k for k, v in f.items() if v[0] in ('disc', 'cmp') and (is_prefix(path, v[1]) or is_prefix(v[1], path))]:
            if f[k][0] == 'disc' and len(f[k][1][1]) < n:
                continue
            del f[k]

    def copy(self, f, dst, src):
        n = len(src[1])
        add = {}
        for k, v in f.items():
            if k[0] == src[0] and k[1][:n] == src[1]:
                if v[0] in ('disc', 'cmp') and v[1][0] == dst[0] and (is_prefix(dst, v[1]) or is_prefix(v[1], dst)):
                    continue
                add[(dst[0], dst[1] + k[1][n:])] = v
        self.kill(f, dst)
        f.update(add)

    def assign_op(self, f, dst, o):
        if 'pl' in o:
            src = self.ib.norm(o['pl'])
            self.copy(f, dst, src)
            if not dst[1] and dst not in f and self.ib.locals[dst[0]] == 'bool' and src != dst:
                f[dst] = ('cmp', src, 'Eq', 1, 'b')
        else:
            self.kill(f, dst)
            v = self.cval(o)
            if v is not None:
                f[dst] = ('int', frozenset([v]))
            elif 'promoted' in o:
                pv = self.promoted(o)
                if pv is not None:
                    f[(dst[0], dst[1] + ('*',))] = pv

    def promoted(self, o):
        """fact about the target of a promoted constant reference"""
        cr = self.ib.crate
        b = cr.bodies.get('%s::promoted[%d]' % (canon(o['def']), o['promoted']))
        if b is None:
            return None
        tgt = None
        vals = {}
        for blk in b.blocks:
            for s in blk['s']:
                if s['k'] != '=' or s['d']['p']:
                    continue
                r = s['r']
                if r['k'] == 'ref' and s['d']['l'] == 0 and not r['pl']['p']:
                    tgt = r['pl']['l']
                elif r['k'] == 'agg' and r['a'] == 'adt' and self._is_enum(canon(r['adt'])):
                    vals[s['d']['l']] = ('var', frozenset([r['var']]))
                elif r['k'] == 'agg' and r['a'] == 'adt' and not r['o']:
                    vals[s['d']['l']] = ('var', frozenset([r['var']]))
                elif r['k'] == 'use' and 'v' in r['o']:
                    vals[s['d']['l']] = ('int', frozenset([r['o']['v']]))
        return vals.get(tgt)

    def eq_forks(self, f, t):
        """possible results of a PartialEq::eq / ne call, from what is known of both sides"""
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        if not (d.endswith('PartialEq::eq') or d.endswith('PartialEq::ne')) or len(t['a']) != 2:
            return None
        fs = []
        for a in t['a']:
            p = self.ib.target(a) if 'pl' in a else None
            v = f.get(p) if p is not None else None
            if v is None and 'promoted' in a:
                v = self.promoted(a)
            fs.append((p, v))
        (pa, a), (pb, b) = fs
        if b is None or (a is not None and len(a[1]) > 1 and len(b[1]) == 1):
            pass
        if a is not None and b is not None and a[0] == b[0] and a[0] in ('var', 'int'):
            out = []
            eq = int(last == 'eq')
            if a[1] & b[1]:
                both = a[1] & b[1]
                ex = {p: (a[0], both) for p in (pa, pb) if p is not None}
                out.append(({(): ('int', frozenset([eq]))}, ex))
            if not (len(a[1]) == 1 and a[1] == b[1]):
                ex = {}
                if len(b[1]) == 1 and pa is not None and a[1] - b[1]:
                    ex[pa] = (a[0], a[1] - b[1])
                out.append(({(): ('int', frozenset([1 - eq]))}, ex))
            return out
        return None

    def cval(self, o):
        if 'v' in o:
            return o['v']
        if 'def' in o:
            v = self.ib.crate.consts.get(canon(o['def']))
            if isinstance(v, int):
                return v
        return None

    def assign(self, f, d, r):
        dst = self.ib.norm(d)
        k = r['k']
        if k == 'use':
            self.assign_op(f, dst, r['o'])
            return
        if k == 'agg':
            if r['a'] == 'adt':
                var = r['var']
                isenum = canon(r['adt'])
                vs = []
                pre = dst[1]
                e = self._is_enum(isenum) or (not r['o'] and var != isenum.split('::')[-1])
                if e:
                    pre = pre + (('d', var),)
                tmp = {}
                for nm, o in zip(r['fn'], r['o']):
                    p = (dst[0], pre + (('f', nm),))
                    if 'pl' in o:
                        src = self.ib.norm(o['pl'])
                        n = len(src[1])
                        for kk, v in f.items():
                            if kk[0] == src[0] and kk[1][:n] == src[1]:
                                tmp[(p[0], p[1] + kk[1][n:])] = v
                    elif 'v' in o:
                        tmp[p] = ('int', frozenset([o['v']]))
                self.kill(f, dst)
                f.update(tmp)
                if e:
                    f[dst] = ('var', frozenset([var]))
                return
            if r['a'] == 'tuple':
                tmp = {}
                for i, o in enumerate(r['o']):
                    p = (dst[0], dst[1] + (('f', str(i)),))
                    if 'pl' in o:
                        src = self.ib.norm(o['pl'])
                        n = len(src[1])
                        for kk, v in f.items():
                            if kk[0] == src[0] and kk[1][:n] == src[1]:
                                tmp[(p[0], p[1] + kk[1][n:])] = v
                    elif 'v' in o:
                        tmp[p] = ('int', frozenset([o['v']]))
                self.kill(f, dst)
                f.update(tmp)
                return
            self.kill(f, dst)
            return
        if k == 'disc':
            src = self.ib.norm(r['pl'])
            adt = canon(r['adt']) if 'adt' in r else None
            self.kill(f, dst)
            f[dst] = ('disc', src, adt)
            return
        if k == 'bin' and r['op'] in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow') and 'v' in r['a'] and 'v' in r['b']:
            self.kill(f, dst)
            x, y = r['a']['v'], r['b']['v']
            f[(dst[0], dst[1] + (('f', '0'),))] = ('int', frozenset([{'A': x + y, 'S': x - y, 'M': x * y}[r['op'][0]]]))
            return
        if k == 'bin' and r['op'] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            a, b, op = r['a'], r['b'], r['op']
            if 'pl' in a and b.get('v') in (0, 1) and (self.place_ty(a['pl']) or '') in UNSIGNED:
                # x <= 0, x < 1 and so on decide x == 0
                z = {('Le', 0): 'Eq', ('Gt', 0): 'Ne', ('Lt', 1): 'Eq', ('Ge', 1): 'Ne'}.get((op, b['v']))
                if z:
                    op = z
                    b = dict(b, v=0)
            va, vb = self.ival(f, a), self.ival(f, b)
            self.kill(f, dst)
            if va is not None and vb is not None and len(va) == 1 and len(vb) == 1:
                x, y = list(va)[0], list(vb)[0]
                f[dst] = ('int', frozenset([int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])]))
                return
            if 'pl' not in b and 'v' in b and 'pl' in a and self.ib.norm(a['pl']) != dst:
                f[dst] = ('cmp', self.ib.norm(a['pl']), op, b['v'])
            elif 'pl' not in a and 'v' in a and 'pl' in b and self.ib.norm(b['pl']) != dst:
                op2 = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[op]
                f[dst] = ('cmp', self.ib.norm(b['pl']), op2, a['v'])
            return
        if k == 'un' and r['op'] == 'Not':
            v = None
            if 'pl' in r['o']:
                v = f.get(self.ib.norm(r['o']['pl']))
            self.kill(f, dst)
            if v is not None:
                if v[0] == 'int' and v[1] <= frozenset([0, 1]):
                    f[dst] = ('int', frozenset(1 - x for x in v[1]))
                elif v[0] == 'cmp':
                    f[dst] = ('cmp', v[1], {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}[v[2]]) + v[3:]
            elif 'pl' in r['o'] and self.ib.norm(r['o']['pl']) != dst:
                f[dst] = ('cmp', self.ib.norm(r['o']['pl']), 'Eq', 0, 'b')
            return
        if k == 'cast' and 'pl' in r['o'] and 'IntToInt' in r['ck']:
            src = self.ib.norm(r['o']['pl'])
            v = f.get(src)
            self.kill(f, dst)
            if v is not None and v[0] in ('int', 'disc', 'cmp'):
                f[dst] = v
            return
        self.kill(f, dst)

    def _is_enum(self, adt):
        a = self.ib.crate.adts.get(adt)
        if a is not None:
            return a['kind'] == 'Enum'
        return adt in self.ib.crate.ext or adt.split('::')[-1] in ('Option', 'Result', 'Command', 'Ordering', 'Cow')

    def ival(self, f, o):
        if 'pl' not in o:
            v = self.cval(o)
            return frozenset([v]) if v is not None else None
        v = f.get(self.ib.norm(o['pl']))
        if v is not None and v[0] == 'int':
            return v[1]
        return None

    def variant(self, st, path):
        v = st.get(path)
        return v[1] if v is not None and v[0] == 'var' else None

    # ---------- running
    def run(self):
        ib = self.ib
        self.seen = defaultdict(set)
        self.bymon = defaultdict(int)
        self.parent = {}
        work = deque()

        def push(bi, mon, f, par):
            live = self.live[bi]
            esc = ib._esc
            items = []
            for k, v in f.items():
                if k[0] in live or k[0] in esc or (k[0] == 0) or 1 <= k[0] <= ib.argc:
                    if v[0] in ('cmp', 'disc') and k[0] not in live:
                        continue
                    if self.keep is not None and not self.keep(k, v):
                        continue
                    items.append((k, v))
            fs = frozenset(items)
            key = (mon, fs)
            if key in self.seen[bi]:
                return
            if len(self.seen[bi]) >= self.cap:
                # widen: keep only facts common to everything seen with this mon
                self.truncated += 1
                for (m2, f2) in self.seen[bi]:
                    if m2 == mon:
                        fs = fs & f2
                key = (mon, fs)
                if key in self.seen[bi]:
                    return
            self.seen[bi].add(key)
            self.parent[(bi, mon, fs)] = par
            work.append((bi, mon, fs))
        push(0, self.m.init, dict(self.init_facts), None)
        while work:
            bi, mon, fs = work.pop()
            self.cur = (bi, mon, fs)
            f = dict(fs)
            b = ib.blocks[bi]
            dead = False
            for s in b['s']:
                mon = self.m.stmt(self, f, bi, s, mon)
                if mon is None:
                    dead = True
                    break
                if s['k'] == '=':
                    self.assign(f, s['d'], s['r'])
                elif s['k'] == 'setdisc':
                    p = ib.norm(s['d'])
                    self.kill(f, p)
                    f[p] = ('var', frozenset([s['var']]))
            if dead:
                continue
            t = b['t']
            k = t['k']
            self.steps += 1
            outs = []
            if k == 'return':
                self.m.ret(self, f, bi, mon)
            elif k == 'goto':
                outs.append((t['t'], mon, f))
            elif k == 'drop':
                outs.append((t['t'], self.m.drop(self, f, bi, t, mon), f))
            elif k == 'assert':
                outs.append((t['t'], mon, f))
            elif k == 'switch':
                for nb, f2 in self.switch(f, t):
                    outs.append((nb, mon, f2))
            elif k == 'call':
                self.result = None
                self.forks = None
                mon2 = self.m.call(self, f, bi, t, mon)
                if mon2 is not None:
                    tgts = []
                    dst = ib.norm(t['d'])
                    if t['t'] is None:
                        self.m.panic(self, f, bi, mon2)
                    else:
                        res = self.result
                        forks = self.forks
                        if forks is None:
                            forks = [(mon2, res)]
                        for fk in forks:
                            mm, rs = fk[0], fk[1]
                            f2 = dict(f)
                            self.call_effects(f2, t)
                            self.kill(f2, dst)
                            if rs is not None:
                                if isinstance(rs, dict):
                                    for kk, vv in rs.items():
                                        f2[(dst[0], dst[1] + kk)] = vv
                                else:
                                    f2[dst] = ('var', frozenset(rs))
                            if len(fk) > 2:
                                for kk, vv in fk[2].items():
                                    self.kill(f2, kk)
                                    f2[kk] = vv
                            outs.append((t['t'], mm, f2))
            for nb, mm, f2 in outs:
                mm = self.m.edge(self, f2, bi, nb, mm)
                if mm is None:
                    continue
                push(nb, mm, f2, (bi, self.cur[1], self.cur[2]))
        return self

    def call_effects(self, f, t):
        c = callee(t) or ''
        for a in t['a']:
            if 'pl' in a:
                l = a['pl']['l']
                ty = self.place_ty(a['pl'])
                if ty is None or '&mut' in ty or "mut " in ty[:12] or ty.startswith('*mut'):
                    p = self.ib.target(a)
                    if p is not None and p[1]:
                        self.kill(f, p)
                    elif p is not None:
                        self.kill(f, p)

    def place_ty(self, pl):
        if not pl['p']:
            return self.ib.locals[pl['l']]
        e = pl['p'][-1]
        if e[0] == 'f':
            return e[3]
        return None

    def switch(self, f, t):
        o = t['o']
        ib = self.ib
        if 'pl' not in o:
            v = o.get('v')
            for val, b in t['v']:
                if v == val:
                    return [(b, f)]
            if v is not None:
                return [(t['ow'], f)]
            return [(b, dict(f)) for b in term_succ(t)]
        p = ib.norm(o['pl'])
        v = f.get(p)
        outs = []
        listed = [x for x, _ in t['v']]
        if v is not None and v[0] == 'disc':
            src, adt = v[1], v[2]
            names = self.adtv(adt)
            cur = f.get(src)
            curs = cur[1] if cur is not None and cur[0] == 'var' else None
            if names:
                for val, b in t['v']:
                    nm = names.get(val)
                    if nm is None or (curs is not None and nm not in curs):
                        continue
                    f2 = dict(f)
                    f2[src] = ('var', frozenset([nm]))
                    outs.append((b, f2))
                rest = frozenset(n for x, n in names.items() if x not in listed)
                if curs is not None:
                    rest = rest & curs
                if rest:
                    f2 = dict(f)
                    f2[src] = ('var', rest)
                    outs.append((t['ow'], f2))
                return outs
            return [(b, dict(f)) for b in term_succ(t)]
        if v is not None and v[0] == 'int':
            for val, b in t['v']:
                if val in v[1]:
                    f2 = dict(f)
                    f2[p] = ('int', frozenset([val]))
                    outs.append((b, f2))
            rest = v[1] - frozenset(listed)
            if rest:
                f2 = dict(f)
                f2[p] = ('int', rest)
                outs.append((t['ow'], f2))
            return outs
        boolty = t['ty'] == 'bool'
        for val, b in t['v']:
            f2 = dict(f)
            f2[p] = ('int', frozenset([val]))
            if v is not None and v[0] == 'cmp' and not self.refine(f2, v, bool(val)):
                continue
            outs.append((b, f2))
        f2 = dict(f)
        ok = True
        if boolty and listed == [0]:
            f2[p] = ('int', frozenset([1]))
            if v is not None and v[0] == 'cmp':
                ok = self.refine(f2, v, True)
        if ok:
            outs.append((t['ow'], f2))
        return outs

    def refine(self, f, v, truth):
        path, op, c = v[1], v[2], v[3]
        if not truth:
            op = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}[op]
        cur = f.get(path)
        if cur is not None and cur[0] == 'int':
            s = frozenset(x for x in cur[1] if {'Eq': x == c, 'Ne': x != c, 'Lt': x < c, 'Le': x <= c, 'Gt': x > c, 'Ge': x >= c}[op])
            if not s:
                return False
            f[path] = ('int', s)
            return True
        if cur is not None and cur[0] == 'cmp':
            # path is itself a bool holding a comparison
            if op == 'Eq' and c in (0, 1):
                return self.refine(f, cur, bool(c))
            if op == 'Ne' and c in (0, 1):
                return self.refine(f, cur, not bool(c))
        if op == 'Eq':
            f[path] = ('int', frozenset([c]))
        elif op == 'Ne' and len(v) > 4:
            f[path] = ('int', frozenset([1 - c]))
        return True

    # ---------- reporting
    def trace(self, node=None, n=14):
        node = node or self.cur
        out = []
        seen = set()
        while node is not None and node not in seen:
            seen.add(node)
            sp = self.ib.blocks[node[0]]['t']['sp']
            w = '%s:%s' % (sp[0], sp[1])
            if not out or out[-1] != w:
                out.append(w)
            node = self.parent.get(node)
        out.reverse()
        if len(out) > n:
            out = out[:4] + ['...'] + out[-(n - 5):]
        return out



def dominators(succ, entry, nodes):
    """immediate-dominator sets as dict node -> set of dominators (small graphs) via rpo iteration"""
    order, seen = [], set()
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen and y in nodes:
                seen.add(y)
                st.append((y, iter(succ[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    num = {x: i for i, x in enumerate(order)}
    pred = defaultdict(list)
    for x in order:
        for y in succ[x]:
            if y in num:
                pred[y].append(x)
    idom = {entry: entry}

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for x in order[1:]:
            ps = [p for p in pred[x] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(x) != n:
                idom[x] = n
                ch = True
    return idom, pred


def natural_loops(ib):
    """header -> set of blocks"""
    if hasattr(ib, '_loops'):
        return ib._loops
    live = ib.live_blocks if hasattr(ib, 'live_blocks') else ib.reachable()
    idom, pred = dominators(ib.succ, 0, live)

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for x in idom:
        for h in ib.succ[x]:
            if h in idom and dom(h, x):
                body = loops.setdefault(h, set([h]))
                st = [x]
                while st:
                    y = st.pop()
                    if y in body:
                        continue
                    body.add(y)
                    st.extend(pred[y])
    ib._loops = loops
    return loops


def innermost_loop(ib, bi):
    best = None
    for h, body in natural_loops(ib).items():
        if bi in body and (best is None or len(body) < len(best[1])):
            best = (h, body)
    return best
