"""C15: values the format has no meaning for are refused before they are used."""
import re
from .. import flow, sym
from ..mir import callee_decl, ty_head
from ..sym import K, add, sub, num, is_const, atom, mulk
from . import c02, c16, c20
from .c02v import walk
from .c16 import facts, yes

EXPLAIN = ("Every function that reads nibbles from a stream, or acts on what was read, is followed symbolically along every path of every state. "
           "A nibble is any value 0..15; intervals of the codec's own state (the payload of a state, the command being read) are inferred to a fixed "
           "point over all paths, and every path condition narrows them. At each shift by, and each index of a fixed-size table with, a value that "
           "comes from the stream, the interval must lie inside what the shift or table admits; an index into a map of run-time length must have been "
           "compared with that length. A copy must leave with a distance that is not 0, a transform or word must exist before it is used, and codes "
           "without a meaning, modes, speeds and headers out of range must end in a failure.")
ASSUME = ['recent distances are not 0 (they are earlier accepted distances, or the constants they begin with)',
          'an index whose bound depends on a loop iterator or a buffer length kept elsewhere is not judged']

INF = float('inf')
ROOT = ('h', ('m', ('l', 1), ()))
WIDTH = {'u8': 255, 'u16': 65535, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1, 'usize': 2 ** 64 - 1, 'bool': 1}


class Unknown(Exception):
    pass


def table(cr, path):
    b = cr.bodies.get(path)
    if b is None:
        return None
    for blk in b.blocks:
        for s in blk['s']:
            if s['k'] == '=' and s['r'].get('k') == 'agg' and s['r'].get('a') == 'array':
                o = s['r']['o']
                if all(x.get('k') == 'const' and isinstance(x.get('v'), int) for x in o):
                    return [x['v'] for x in o]
    return None


def failed(st):
    v = st.mem.get((('l', 0), (('#',),)))
    return v is not None and v[0] == 'var' and v[1] in ('Failure', 'Err')


class Ranges:
    """intervals of what a function keeps: the fields of self, and locals carried around its loops"""

    def __init__(self, cr, ib, segs, kept=False):
        self.cr, self.ib, self.segs = cr, ib, segs
        self.kept = kept            # whether what is kept from one call to the next is worked out
        self.M = {}
        self.marks = {}
        self.I = {}
        self.asked = set()
        self.grow = {}
        self.conts = {}

    def key(self, a):
        if a[0] == 'm':
            pl, h = a[1:], None
        elif a[0] == 'phi':
            pl, h = a[2], a[1]
        else:
            return None
        if pl[0] == ROOT:
            return ('self', pl[1])
        if pl[0][0] == 'l' and h is not None:
            return (h, pl)
        return None

    def atom(self, st, a, d=0):
        if d > 14:
            raise Unknown(a)
        if a[0] == 'nib':
            return 0, 15
        k = self.key(a)
        if k is not None:
            self.asked.add(k)
            if k not in self.I:
                return None if self.kept else (-INF, INF)
            return self.I[k]
        if a[0] == '.' and a[1][0] == 'const' and len(a[2]) == 1 and a[2][0][0] == 'i':
            t = table(self.cr, a[1][1])
            if t:
                r = self.form(st, num(a[2][0][1]), d + 1)
                if r is None:
                    return None
                t = t[int(max(r[0], 0)):int(min(r[1], len(t) - 1)) + 1] or t
                return min(t), max(t)
        if a[0] == 'm' and any(x == ('f', 'distance_lru') for x in a[2]):
            return 1, 2 ** 32 - 1
        if a[0] == 'min':
            rs = [self.form(st, num(x), d + 1) for x in a[1:]]
            if None in rs:
                return None
            return min(r[0] for r in rs), min(r[1] for r in rs)
        if a[0] == 'op':
            n = a[1]
            rs = []
            for x in a[2:]:
                try:
                    rs.append(self.form(st, num(x), d + 1) if isinstance(x, tuple) else (x, x))
                except Unknown:
                    if n != 'BitOr':
                        raise
                    rs.append((0, INF))
            if n in ('lt0', 'eq0', 'not'):
                return 0, 1
            if n == 'lz':
                return 0, 32
            if None in rs:
                return None
            x = rs[0]
            if n == 'BitAnd':
                return 0, min(r[1] if r[0] >= 0 else INF for r in rs)
            if n == 'BitOr' or n == 'BitXor':
                rs = [(max(r[0], 0), r[1]) for r in rs]     # of unsigned numbers
                top = INF if any(r[1] == INF for r in rs) else (1 << max(int(r[1]).bit_length() for r in rs)) - 1
                return (max(r[0] for r in rs) if n == 'BitOr' else 0), top
            if n == 'Shr':
                s = rs[1]
                if x[0] < 0 or s[0] < 0:
                    return -INF, INF
                hi = INF if x[1] == INF else int(x[1]) >> int(s[0])
                return (int(x[0]) >> int(s[1]) if s[1] < 128 else 0), hi
            if n == 'Shl':
                s = rs[1]
                if x[0] < 0 or s[0] < 0:
                    return -INF, INF
                # bits shifted out are lost: only what cannot leave the widest type counts for the least value
                lo = int(x[0]) << int(s[0])
                hi = INF if x[1] == INF or s[1] > 63 else int(x[1]) << int(s[1])
                return (lo if s[1] < 32 and hi < 2 ** 32 else 0), hi
            if n == 'Div':
                s = rs[1]
                if x[0] >= 0 and s[0] > 0:
                    return (0 if s[1] == INF else int(x[0]) // int(s[1])), (INF if x[1] == INF else int(x[1]) // int(s[0]))
            if n == 'Rem':
                s = rs[1]
                if x[0] >= 0 and s[0] > 0 and s[1] != INF:
                    return 0, s[1] - 1
            if re.match(r'^tr(8|16|32|64)$', n):
                top = (1 << int(n[2:])) - 1
                if x[0] >= 0 and x[1] <= top:
                    return x
                return 0, top
        raise Unknown(a)

    def form(self, st, v, d=0):
        """the interval of a linear form under the path conditions of st; None: no value yet"""
        if v[0] != 'L':
            raise Unknown(v)
        lo = hi = v[1]
        un = None
        for a, c in v[2]:
            try:
                r = self.atom(st, a, d)
            except Unknown:
                un = a
                r = -INF, INF
            r = self.narrow(st, ('L', 0, ((a, 1),)), r)
            if r is None:
                return None
            lo += c * (r[0] if c > 0 else r[1])
            hi += c * (r[1] if c > 0 else r[0])
        r = (lo, hi)
        if not (len(v[2]) == 1 and v[2][0][1] == 1 and v[1] == 0):
            r = self.narrow(st, v, r)
        if un is not None and r is not None and r[1] == INF:
            raise Unknown(un)
        return r

    def four(self, st, v, d=0):
        """whether a form is a multiple of four, on every path"""
        if v[0] != 'L' or d > 8:
            return False
        rest = v[1]
        for a, c in v[2]:
            if c % 4 == 0:
                continue
            k = self.key(a)
            if k is not None:
                self.asked.add(k)
                if self.M.get(k, True):
                    continue
                return False
            if a[0] == 'op' and a[1] == 'BitOr' and len(a) == 4 and any(num(x) == K(3) for x in a[2:]):
                rest += 3 * c       # the low bits are all set
                continue
            if a[0] == 'op' and re.match(r'^tr(8|16|32|64)$', a[1]) and self.four(st, num(a[2]), d + 1):
                continue
            if a[0] == 'op' and a[1] == 'Shl' and is_const(num(a[3])) and num(a[3])[1] >= 2:
                continue
            if a[0] == 'op' and a[1] == 'BitAnd' and any(is_const(num(x)) and num(x)[1] & 3 == 0 for x in a[2:]):
                continue
            return False
        return rest % 4 == 0

    def conds(self, st):
        k = id(st)
        if k not in self.conts:
            out = []
            for x, f in st.facts.items():
                x = num(x)
                a = atom(x)
                if a is not None and a[0] == 'op' and a[1] in ('lt0', 'eq0'):
                    t = True if yes(f) else False if f == ('=', 0) else None
                    if t is not None:
                        out.append((a[1], num(a[2]), t))
                elif x[0] == 'L' and f[0] == '=':
                    out.append(('eq0', sub(x, K(f[1])), True))
            self.conts[k] = (st, out)
        return self.conts[k][1]

    def narrow(self, st, v, r):
        if r is None:
            return None
        lo, hi = r
        m4 = len(v[2]) == 1 and lo != -INF and self.four(st, v)
        for _ in (0, 1):
            if m4 and lo != -INF:
                lo = lo + (-lo) % 4
            if m4 and hi not in (INF, -INF):
                hi = hi - hi % 4
            for op, e, t in self.conds(st):
                for sgn in (1, -1):
                    c = sub(v, mulk(e, sgn))
                    if not is_const(c):
                        continue
                    c = c[1]            # v = sgn*e + c
                    if op == 'eq0':
                        if t:
                            lo, hi = max(lo, c), min(hi, c)
                        elif lo == c:
                            lo += 1
                        elif hi == c:
                            hi -= 1
                    elif sgn == 1:
                        if t:
                            hi = min(hi, c - 1)
                        else:
                            lo = max(lo, c)
                    elif t:
                        lo = max(lo, c + 1)
                    else:
                        hi = min(hi, c)
        if lo > hi:
            return None         # this way is never taken
        return lo, hi

    def infer(self, rounds=40):
        for n in range(rounds):
            ch = False
            for k in list(self.asked):
                for kind, bi, st, last in self.segs:
                    if k[0] == 'self':
                        p = (ROOT, k[1])
                        if p not in st.mem:
                            continue
                        if kind not in ('back', 'ret', 'enter'):
                            continue
                        # a payload that is left of an earlier state is not what the next one reads
                        if not self.live(st, k[1]):
                            continue
                    else:
                        if bi != k[0] or kind not in ('back', 'enter'):
                            continue
                        p = k[1]
                        if p not in st.mem:
                            continue
                    v = num(st.mem[p])
                    a = atom(v)
                    if a is not None and self.key(a) == k:
                        continue
                    if kind == 'ret' and failed(st):
                        continue
                    if self.M.get(k, True) and not self.four(st, v):
                        self.M[k] = False
                        self.I.clear()
                        self.grow.clear()
                        ch = True
                    try:
                        r = self.form(st, v)
                    except Unknown:
                        r = (-INF, INF)
                    if r is None:
                        continue
                    o = self.I.get(k)
                    if o is None and k[0] == 'self' and not any(x[0] == 'd' for x in k[1]):
                        r = min(0, r[0]), max(0, r[1])
                    w = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))
                    if w != o:
                        g = self.grow[k] = self.grow.get(k, 0) + 1
                        if g > 60 and o is not None:
                            w = (w[0] if w[0] == o[0] else -INF, w[1] if w[1] == o[1] else self.beyond(k, w[1]))
                        self.I[k] = w
                        ch = True
            if not ch:
                break
        else:
            for k in self.asked:
                self.I[k] = (-INF, INF)

    def beyond(self, k, hi):
        """the next value that the code compares this place with"""
        if k not in self.marks:
            self.marks[k] = set()
            for kind, bi, st, last in self.segs:
                for op, e, t in self.conds(st):
                    if len(e[2]) == 1 and abs(e[2][0][1]) == 1 and self.key(e[2][0][0]) == k:
                        c = -e[1] * e[2][0][1]
                        self.marks[k] |= set([c - 1, c, c + 1])
        return min([c for c in self.marks[k] if c >= hi] or [INF])

    def live(self, st, path):
        for i, x in enumerate(path):
            if x[0] == 'd':
                t = st.mem.get((ROOT, path[:i] + (('#',),)))
                if t is not None and t[0] == 'var' and t[1] != x[1]:
                    return False
        return True


class Seen(c16.Pol):
    def __init__(self, cr, inf):
        c16.Pol.__init__(self, cr, inf)
        self.asserts = {}
        self.uses = []

    def asserted(self, S, st, t, bb):
        m = t['m']
        if m not in ('bounds', 'overflow:Shl', 'overflow:Shr'):
            return
        v = num(S.val(st, t['o']))
        a = atom(v)
        if a is None or a[0] != 'op' or a[1] != 'lt0':
            return
        d = num(a[2])
        c = st.copy()
        self.asserts.setdefault((m, '%s:%s' % tuple(t['sp'][:2]), bb), []).append((d, c))

    def contract(self, S, st, bi, t, args):
        n = (callee_decl(t) or '').split('::')[-1]
        if n in ('TransformDictionaryWord', 'set_stride_context_speed', 'set_context_map_speed'):
            self.uses.append((n, list(args), st.copy(), '%s:%s' % tuple(t['sp'][:2]), dict(st.mem)))
        return c16.Pol.contract(self, S, st, bi, t, args)


def follow(cr, inf, p, cap=800, want=None):
    def take(c, t, cands, stack):
        if len(cands) == 1 and len(cands[0].blocks) <= 3 and re.match(r'^[ui](8|16|32|64|size)$', cands[0].locals[0]) and all(
                re.match(r'^[ui](8|16|32|64|size)$', cands[0].locals[i]) for i in range(1, cands[0].argc + 1)):
            return cands[0]
        return want(c, t, cands, stack) if want else c16.small(cr, inf, c, t, cands, stack)
    ib = flow.IBody(cr, cr.fns[p], take)
    pol = Seen(cr, inf)
    S = sym.Sym(ib, pol, cap)
    try:
        S.run()
    except sym.TooMany:
        # whatever is computed before the coding loop is taken as unknown
        want = lambda c, t, cands, stack: None
        ib = flow.IBody(cr, cr.fns[p], take)
        pol = Seen(cr, inf)
        S = sym.Sym(ib, pol, cap * 10)
        st = sym.State()
        st.start = ({}, 'entry')
        S.go(st, max(S.loops, key=lambda h: len(S.loops[h])), ())
    return ib, S, pol


def from_stream(d):
    """the leaves of a form: are they the stream's (nibbles, what self keeps), and is nothing else among them"""
    hit = False
    for x in walk(d):
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'nib':
            hit = True
        elif x[0] in ('m', 'phi'):
            pl = x[1:] if x[0] == 'm' else x[2]
            if pl[0] == ROOT:
                hit = True
    return hit


def adt(cr, p):
    return ty_head(re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', cr.fns[p].locals[1]))


def used(cr, inf, rep, p):
    ib, S, pol = follow(cr, inf, p)
    rep.fns.add(p)
    R = Ranges(cr, ib, pol.segs, True)
    # what is asked first decides which places are followed
    for n in range(8):
        before = len(R.asked)
        for obs in pol.asserts.values():
            for d, st in obs:
                try:
                    R.form(st, d)
                except Unknown:
                    pass
        for u in pol.uses:
            for x in u[1]:
                if isinstance(x, tuple) and x and x[0] in ('L', 'm', 'phi', 'op'):
                    try:
                        R.form(u[2], num(x))
                    except Unknown:
                        pass
        if 'CopyState' in p:
            for kind, bi, st, last in pol.segs:
                v = st.mem.get((ROOT, c20.fld('cc', 'distance')))
                if v is not None:
                    try:
                        R.form(st, num(v))
                    except Unknown:
                        pass
        R.infer()
        if len(R.asked) == before:
            break
        if n < 7:
            R.I.clear()
            R.M.clear()
            R.grow.clear()
    for (m, w, bb), obs in sorted(pol.asserts.items()):
        good, left, worst = 0, 0, None
        for d, st in obs:
            if not from_stream(d):
                continue
            const = len([1 for a, c in d[2] if c < 0]) == 0
            try:
                r = R.form(st, d)
            except Unknown:
                r = (-INF, INF)
                const = False
            if r is None or r[1] < 0:
                good += 1
            elif not const:
                # a place in a map counted up from nibble to nibble, with nothing in the code to end the count
                k = [R.key(a) for a, c in d[2] if c > 0]
                if m == 'bounds' and adt(cr, p).endswith('PredictionModeState') and k and None not in k and any(R.I.get(x, (0, 0))[1] == INF for x in k):
                    worst = worst or (d, r, st)
                else:
                    left += 1
            else:
                worst = worst or (d, r, st)
        what = 'an index of a table' if m == 'bounds' else 'a shift'
        if worst:
            rep.bad('range', '%s:%s' % (p, m), w, '%s by a value from the stream is not kept in range: %s can be %s over the limit' % (
                what, sym.show(worst[0], ib)[:120], 'arbitrarily far' if worst[1][1] == INF else worst[1][1] + 1))
        elif good:
            rep.ok('range', '%s:%s@%d' % (p, m, bb))
            rep.count('shifts and indices in range')
        if left and not worst:
            rep.count('indices not judged')
    return ib, S, pol, R


def where(cr, p):
    return '%s:%s' % c02.b_file(cr, p)


def result(st):
    v = st.mem.get((('l', 0), (('#',),)))
    return v[1] if v is not None and v[0] == 'var' else None


def safe(R, st, v):
    try:
        return R.form(st, num(v))
    except Unknown:
        return -INF, INF


def distance(cr, rep, p, ib, pol, R):
    """a copy is complete only with a distance that is not 0"""
    S0 = (ROOT, c20.fld('cc', 'distance'))
    n = 0
    for kind, bi, st, last in pol.segs:
        if kind == 'ret' and failed(st):
            continue
        t = st.mem.get((ROOT, (('f', 'state'), ('#',))))
        if t != ('var', 'FullyDecoded') or S0 not in st.mem:
            continue
        v = st.mem[S0]
        n += 1
        r = safe(R, st, v)
        ok = r is None or r[0] >= 1
        if not ok:
            ok = any(op == 'eq0' and not t and (e == num(v) or mulk(e, -1) == num(v)) for op, e, t in R.conds(st))
        a = atom(num(v)) or v
        if not ok and a[0] == '.' and a[1][0] in ('op', 'call') and a[1][1].split('::')[-1] == 'get_distance_from_mnemonic_code' and a[2] == (('f', '0'),):
            ok = any(x == ('.', a[1], (('f', '1'),)) and yes(f) for x, f in facts(st))
        rep.check('distance', '%s:%s' % (p, 'complete'), ok, where(cr, p),
                  'a copy can be complete with the distance %s, which may be 0' % sym.show(v, ib)[:120])
    rep.count('ways a copy is completed', n)


def mnemonic(cr, inf, rep):
    for p in sorted(cr.fns):
        if not p.endswith('::get_distance_from_mnemonic_code'):
            continue
        rep.fns.add(p)
        ib, S, segs = c16.plain(cr, inf, p, 400)
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            d = st.mem.get((('l', 0), (('f', '0'),)))
            ok = st.mem.get((('l', 0), (('f', '1'),)))
            if d is None or ok is None:
                continue
            ok, d = num(ok), num(d)
            R = Ranges(cr, ib, [])
            if ok == K(0):
                good = True
            elif ok == K(1):
                a = atom(d)
                r = safe(R, st, d)
                good = a is not None and a[0] == 'm' and a[1] == ROOT or r is None or r[0] >= 1
            else:
                a = atom(ok)
                x = d
                while atom(x) is not None and atom(x)[0] == 'op' and re.match(r'^tr\d+$', atom(x)[1]):
                    x = num(atom(x)[2])
                # a signed sum is good if it is greater than 0, or (of unsigned numbers) not 0
                good = a is not None and a[0] == 'op' and a[1] == 'lt0' and is_const(add(num(a[2]), x)) and add(num(a[2]), x)[1] >= 0
            rep.check('distance', p + ':good', good, where(cr, p), 'a recent distance with something added can be called good although it is 0 or less: %s when %s' % (
                sym.show(d, ib)[:100], sym.show(ok, ib)[:100]))
        rep.count('places of recent distances')


def transform(cr, rep, p, ib, pol, R):
    for n, args, st, w, mem in pol.uses:
        if n != 'TransformDictionaryWord' or len(args) < 4:
            continue
        r = safe(R, st, args[3])
        rep.check('word', p + ':transform', r is None or r[1] <= 120, w, 'a dictionary word is transformed in a way %s that was not found to be one of the 121 there are' % sym.show(args[3], ib)[:80])
        r = safe(R, st, args[2])
        rep.check('word', p + ':size', r is None or r[1] <= 24, w, 'a dictionary word of %s bytes is used, which was not found to be at most 24' % sym.show(args[2], ib)[:80])
        rep.count('dictionary words transformed')


def words(cr, inf, rep):
    """the word list has only so many words of each length"""
    n = 0
    for p in sorted(cr.fns):
        b = cr.fns[p]
        if p.startswith('codec::') or not any((callee_decl(t) or '').split('::')[-1] == 'TransformDictionaryWord' for _, t in b.calls()):
            continue
        k = [i for i in range(1, b.argc + 1) if 'DictCommand' in b.locals[i]]
        if not k:
            continue
        n += 1
        rep.fns.add(p)
        me = ('h', ('m', ('l', k[0]), ()))
        try:
            ib, S, pol = follow(cr, inf, p, 800, lambda c, t, cands, stack: None)
        except sym.TooMany:
            rep.notes.append('not decided (too many paths): ' + p)
            continue
        R = Ranges(cr, ib, pol.segs)
        for (m, w, bb), obs in sorted(pol.asserts.items()):
            for d, st in obs:
                a = d[2][0][0] if len(d[2]) == 1 and d[2][0][1] > 0 else None
                if m == 'bounds' and a is not None and a[0] == 'm' and a[1] == me:
                    r = safe(R, st, d)
                    rep.check('word', p + ':table', r is None or r[1] < 0, w, 'the length of a dictionary word is used as an index although it was not found to be one of those there are')
        for u, args, st, w, mem in pol.uses:
            if u != 'TransformDictionaryWord':
                continue
            r = safe(R, st, args[2])
            rep.check('word', p + ':size', r is None or r[1] <= 24, w, 'a dictionary word of a length is used that was not found to be at most 24')
            ok = False
            for op, e, t in R.conds(st):
                s = repr(e)
                if "'word_id'" not in s or 'SizeBitsByLength' not in s or not t and op == 'eq0':
                    continue
                ops = [x[1] for x in walk(e) if isinstance(x, tuple) and x and x[0] == 'op']
                if op == 'eq0' and 'Shr' in ops and e[1] == 0 and len(e[2]) == 1:
                    ok = True
                if op == 'lt0' and 'Shl' in ops:
                    # word_id - (1 << bits) < 0, or not ((1 << bits) - 1 - word_id < 0)
                    c = [cf for a, cf in e[2] if a[0] == 'm' and a[2] and a[2][-1] == ('f', 'word_id')]
                    if c and (t and c[0] > 0 and e[1] >= 0 or not t and c[0] < 0 and e[1] <= -1):
                        ok = True
                if op == 'lt0' and 'Shr' in ops and t and len(e[2]) == 1 and e[1] >= -1 and e[2][0][1] > 0:
                    ok = True
            rep.check('word', p + ':id', ok, w, 'a dictionary word is looked up although there may be no word of that number and length')
            rep.count('dictionary words looked up')
    rep.anchor('a function that writes a dictionary word to the ring buffer', n > 0)


def commands(cr, inf, rep):
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('::update_command_state_from_nibble'):
            continue
        n += 1
        rep.fns.add(p)
        ib, S, segs = c16.plain(cr, inf, p, 2000)
        code = num(('m', ('l', 2), ()))
        got = set()
        for kind, bi, st, last in segs:
            if kind != 'ret' or result(st) != 'Success':
                continue
            R = Ranges(cr, ib, segs)
            r = safe(R, st, code)
            if r is None:
                continue
            one = r[0] == r[1]
            rep.check('command', p + ':known', one and (1 <= r[0] <= 7 or r[0] == 15), where(cr, p),
                      'a command code is accepted that has no meaning: %s' % ('%d' % r[0] if one else 'any that is not listed'))
            got.add(r[0])
        rep.count('command codes with a meaning', len(got))
    rep.anchor('the function that starts a command from its code', n > 0)


def modes(cr, inf, rep):
    n = 0
    for p in sorted(cr.fns):
        b = cr.fns[p]
        if not p.endswith('::obs_pred_mode'):
            continue
        n += 1
        rep.fns.add(p)
        ib, S, segs = c16.plain(cr, inf, p, 400)
        for kind, bi, st, last in segs:
            if kind != 'ret' or result(st) != 'Success':
                continue
            R = Ranges(cr, ib, segs)
            r = safe(R, st, num(('m', ('l', 2), (('f', '0'),))))
            rep.check('mode', p + ':known', r is None or r[0] >= 0 and r[1] <= 3 or r[0] == r[1] and 0 <= r[0] <= 3 or r[0] == -INF and r[1] <= 3, where(cr, p),
                      'a literal prediction mode is accepted that is none of the four')
            rep.count('modes accepted')
    rep.anchor('the function that takes note of a literal prediction mode', n > 0)


def headers(cr, inf, rep):
    n = 0
    for p in sorted(cr.fns):
        b = cr.fns[p]
        if not p.endswith('HeaderParser::parse_header'):
            continue
        n += 1
        rep.fns.add(p)
        ib, S, segs = c16.plain(cr, inf, p, 400)
        for kind, bi, st, last in segs:
            if kind != 'ret' or result(st) != 'Ok':
                continue
            R = Ranges(cr, ib, segs)
            v = st.read((('l', 0), (('d', 'Ok'), ('f', '0'))))
            r = safe(R, st, v)
            rep.check('header', p + ':window', r is None or r[0] >= 10 and r[1] <= 24, where(cr, p), 'a window size outside 10..24 is accepted')
            for i in range(4):
                h = ('m', ROOT, (('f', 'header'), ('i', K(i))))
                ok = False
                for op, e, t in R.conds(st):
                    if op == 'eq0' and t and e[1] == 0 and any(a == h for a, c in e[2]) and len(e[2]) == 2 and any(
                            a[0] == '.' and a[1][0] == 'const' and 'MAGIC_NUMBER' in a[1][1] and a[2] == (('i', K(i)),) for a, c in e[2]):
                        ok = True
                whole = any(x[0] == 'call' and 'header' in repr(x[2]) and 'MAGIC' in repr(x[2]) for x in st.prev + st.ev)
                rep.check('header', '%s:magic%d' % (p, i), ok or whole, where(cr, p), 'byte %d of the header is not compared with the magic number' % i)
            rep.count('headers accepted')
    rep.anchor('the function that reads the header', n > 0)


def speeds(cr, rep, p, ib, pol, R):
    """adaptation speeds are looked at, both halves of every one, before they are set"""
    use = [u for u in pol.uses if u[0] in ('set_stride_context_speed', 'set_context_map_speed')]
    if not use:
        return
    loops, short = {}, set()
    for kind, bi, st, last in pol.segs:
        if kind == 'enter':
            # what the loop is over: the whole of the array, not a part of it
            it = [e for e in st.prev + st.ev if e[0] == 'call' and e[1].endswith('IntoIterator::into_iter')]
            if it and it[-1][2] and it[-1][2][0][0] == 'iter':
                x = it[-1][2][0][-1]
                if x[0] == 'slice' and x[1][0][0] == 'l' and not x[1][1]:
                    m = re.match(r'^\[.*; (\d+)(_usize)?\]$', str(ib.locals[x[1][0][1]]))
                    if m and (num(x[2]), num(x[3])) != (K(0), K(int(m.group(1)))):
                        short.add(bi)
            continue
        if kind != 'back':
            continue
        top = {}
        for op, e, t in R.conds(st):
            if op != 'lt0' or len(e[2]) != 1:
                continue
            a, c = e[2][0]
            if a[0] not in ('m', '.') or not a[2] or a[2][-1] not in (('f', '0'), ('f', '1')):
                continue
            r = safe(R, st, ('L', 0, ((a, 1),)))
            if r is not None and r[1] < INF:
                f = a[2][-1]
                top[f] = min(top.get(f, INF), r[1])
        loops.setdefault(bi, []).append(top)
    good = set(h for h, ts in loops.items() if h not in short and all(all(t.get(('f', x), INF) <= LIMIT for x in '01') for t in ts))
    for n, args, st, w, mem in use:
        rep.check('speed', '%s:%s' % (p, n), bool(good), w, 'adaptation speeds are set although no loop before has found both halves of each to be at most %d' % LIMIT)
        rep.count('settings of speeds')


LIMIT = 0x78


def check(ctx, rep):
    cr = ctx.lib
    inf = c02.Info(cr)
    for rid, text in (('range', 'shifts by, and indices with, values from the stream are in range'),
                      ('distance', 'a copy is complete only with a distance that is not 0'),
                      ('word', 'a dictionary word or transform is used only if there is one'),
                      ('speed', 'adaptation speeds over the maximum are refused'),
                      ('command', 'a command code without a meaning is refused'),
                      ('mode', 'a literal prediction mode without a meaning is refused'),
                      ('header', 'a header that is not of this format is refused')):
        rep.rule(rid, text)
    for p in sorted(inf.resumable):
        b = cr.fns[p]
        if 'codec' not in p or not any((callee_decl(t) or '').endswith(c02.CODE) for _, t in b.calls()):
            continue
        try:
            ib, S, pol, R = used(cr, inf, rep, p)
        except sym.TooMany:
            rep.notes.append('not decided (too many paths): ' + p)
            continue
        rep.count('coding functions')
        if adt(cr, p).endswith('CopyState'):
            distance(cr, rep, p, ib, pol, R)
        transform(cr, rep, p, ib, pol, R)
        speeds(cr, rep, p, ib, pol, R)
    mnemonic(cr, inf, rep)
    words(cr, inf, rep)
    commands(cr, inf, rep)
    modes(cr, inf, rep)
    headers(cr, inf, rep)
    rep.floor('coding functions', 4)
    rep.floor('shifts and indices in range', 12)
    rep.floor('ways a copy is completed', 3)
    rep.floor('places of recent distances', 1)
    rep.floor('dictionary words transformed', 1)
    rep.floor('dictionary words looked up', 1)
    rep.floor('command codes with a meaning', 7)
    rep.floor('modes accepted', 1)
    rep.floor('headers accepted', 1)
    rep.floor('settings of speeds', 2)
