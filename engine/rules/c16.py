"""C16: the value the encoder codes with a nibble is the value read back from it."""
import re
from .. import flow, sym
from ..mir import callee_decl, ty_head
from ..sym import K, add, sub, num, is_const, atom, mulk
from . import c02, c02v
from .c02v import walk, payload, stored, subst

EXPLAIN = ("Encoder and decoder are the same generic functions, so what must agree is, at every coding step, the value given to the coder and "
           "the use made of the value that comes back. Every coding function is followed symbolically along every path of every state "
           "(engine/sym.py): a coding step receives the term In computed from the command, and returns a fresh unknown N, which is In when "
           "encoding and the value read when decoding. On every path, each field of the command being read that is written from N must equal, "
           "as a term and under the path conditions, the same field of the command being coded once N is replaced by In; a path whose "
           "conditions contradict N = In is never taken by the encoder and owes nothing. Numbers coded as length and digits, in two halves, by "
           "place among recent values, or with an escape for large values have their own rules. The code for each kind of command must start "
           "the reading of the same kind, and what has been read must be handed on as that kind.")
ASSUME = ['the entropy coder gives back the nibble that was coded (the coder itself is outside this property)',
          'accessors of the brotli crate (block_type, stride, context maps, speeds) are pure',
          'the literal bytes themselves and the literal-probability path (feature external-literal-probability, off by default) are not followed',
          'in the prediction mode the mixing value and the flag beside it share a nibble in a way that is not exact; only that it is kept is checked']


class Pol(sym.Policy):
    def __init__(self, cr, inf):
        self.cr, self.inf, self.segs = cr, inf, []
        self.last = {}

    def segment(self, S, st, kind, bi):
        if kind == 'enter':
            self.last = dict(self.last)
            self.last[bi] = dict(st.mem)
        self.segs.append((kind, bi, st, self.last))

    def contract(self, S, st, bi, t, args):
        d = callee_decl(t) or ''
        n = d.split('::')[-1]
        if d.endswith(c02.CODE):
            r = args[1]
            v = st.read(r[1]) if r[0] == 'ref' else None
            st.n += 1
            N = num(('nib', (t['sp'][1], bi), st.n))
            S.opaque(st, t, bi, args, S.place(st, t['d']), d)
            if r[0] == 'ref':
                st.mem[r[1]] = N
            st.ev += (('nib', v, N, '%s:%s' % (t['sp'][0], t['sp'][1])),)
            return True
        if n == 'code_nibble':
            st.n += 1
            N = num(('nib', (t['sp'][1], bi), st.n))
            S.opaque(st, t, bi, args, S.place(st, t['d']), d)
            dd = S.place(st, t['d'])
            st.write(dd, ('tup',))
            st.mem[(dd[0], dd[1] + (('f', '0'),))] = N
            st.ev += (('nib', num(args[1]), N, '%s:%s' % (t['sp'][0], t['sp'][1])),)
            return True
        if n == 'leading_zeros':
            st.write(S.place(st, t['d']), num(('op', 'lz', num(args[0]))))
            return True
        if n == 'size_of_val' and len(t['a']) == 1:
            m = re.match(r'^&(?:.* )?[ui](8|16|32|64)$', S.op_ty(t['a'][0]))
            if m:
                st.write(S.place(st, t['d']), K(int(m.group(1)) // 8))
                return True
        if d.startswith('brotli') and len(args) == 1 and 'mut' not in S.op_ty(t['a'][0]) and S.pl_ty(t['d']) in ('u8', 'u32', 'usize', 'bool'):
            o = t['a'][0]
            a = args[0]
            if 'pl' in o and a[0] not in ('ref', 'L'):
                a = src(S, st, o)
            elif a[0] == 'ref':
                a = ('m',) + a[1]
            st.write(S.place(st, t['d']), num(('op', 'acc ' + n, a)))
            return True
        if n in ('round_up_mod_4', 'get_distance_from_mnemonic_code', 'distance_mnemonic_code'):
            vs = []
            for a in args:
                vs.append(a if a[0] in ('ref', 'slice') else num(a))
            v = ('op', n) + tuple(vs)
            d = S.place(st, t['d'])
            st.write(d, num(v) if n != 'get_distance_from_mnemonic_code' else v)
            return True
        if n == 'max' and len(args) == 1 and args[0][0] == 'iter' and args[0][2][0] == 'slice':
            sl = args[0][2]
            st.write(S.place(st, t['d']), ('op', 'max of', sl, st.read(sl[1])))
            return True
        if n == 'unwrap' and len(args) == 1 and args[0][0] == 'op':
            st.write(S.place(st, t['d']), ('op', 'unwrap', args[0]))
            return True
        cands = self.cr.resolve(t)
        if len(cands) == 1 and args and args[0][0] in ('ref', 'm') and t.get('d'):
            fs = self.frame(cands[0])
            if fs is not None:
                base = args[0][1] if args[0][0] == 'ref' else (('h', args[0]), ())
                for f in sorted(fs):
                    st.havoc((base[0], base[1] + (('f', f),)))
                st.n += 1
                for a, o in zip(args[1:], t['a'][1:]):
                    if S.op_ty(o).startswith('&') and 'mut ' in S.op_ty(o)[:24]:
                        if a[0] == 'slice':
                            S.clobber_slice(st, a)
                        else:
                            st.havoc(a[1] if a[0] == 'ref' else (('h', a), ()))
                v = ('call', d, '%s:%s' % tuple(t['sp'][:2]), st.n)
                st.ev += (('call', d, tuple(args), v, t['sp']),)
                st.write(S.place(st, t['d']), v)
                return True
        return None

    def frame(self, b):
        """the fields of the struct behind the first parameter that the function can change, if that is not all of it"""
        if b.path in self._frames:
            return self._frames[b.path]
        r = None
        if b.argc and re.match(r"^&('[a-z_0-9{}]+ )?mut ", b.locals[1]):
            r = set()
            for pl in changing(b):
                if pl['l'] != 1:
                    continue
                if len(pl['p']) >= 2 and pl['p'][0][0] == '*' and pl['p'][1][0] == 'f':
                    r.add(pl['p'][1][1])
                else:
                    r = None
                    break
        self._frames[b.path] = r
        return r

    _frames = {}


def src(S, st, o):
    """a by-value aggregate, as a term"""
    p = S.place(st, o['pl'])
    v = st.read(p)
    kids = sorted((q[1][len(p[1]):], w) for q, w in st.mem.items() if q[0] == p[0] and len(q[1]) > len(p[1]) and q[1][:len(p[1])] == p[1])
    return ('agg',) + tuple(kids) if kids else v


def changing(b):
    """the places of a body that are assigned, borrowed to be changed, or handed on whole"""
    for blk in b.blocks:
        for x in blk['s']:
            if x['k'] in ('=', 'setdisc'):
                if x['d']['p']:
                    yield x['d']
            if x['k'] == '=':
                r = x['r']
                if r['k'] in ('ref', 'rawptr'):
                    if r.get('mut', True):
                        yield r['pl']
                else:
                    for o in flow.rv_operands(r):
                        if 'pl' in o and not o['pl']['p']:
                            yield o['pl']
        t = blk['t']
        if t['k'] == 'call':
            if t.get('d') and t['d']['p']:
                yield t['d']
            for o in t['a']:
                if 'pl' in o and not o['pl']['p']:
                    yield o['pl']


def small(cr, inf, c, t, cands, stack):
    if len(cands) != 1 or len(stack) > 4:
        return None
    n = cands[0].path.split('::')[-1]
    if (callee_decl(t) or '').endswith(c02.CODE):
        return None
    if n in ('round_up_mod_4', 'get_distance_from_mnemonic_code', 'distance_mnemonic_code', 'code_nibble'):
        return None
    b = cands[0]
    if len(b.blocks) <= 6 and b.path not in inf.drains and b.path not in inf.codes and n not in ('get', 'blend'):
        return b
    return c02v.small(cr, inf, c, t, cands, stack)


def explore(cr, inf, p, cap):
    ib = flow.IBody(cr, cr.fns[p], lambda c, t, cands, stack: small(cr, inf, c, t, cands, stack))
    pol = Pol(cr, inf)
    S = sym.Sym(ib, pol, cap)
    try:
        S.run()
    except sym.TooMany:
        # whatever is computed before the coding loop is taken as unknown
        ib = flow.IBody(cr, cr.fns[p], lambda c, t, cands, stack: None)
        pol = Pol(cr, inf)
        S = sym.Sym(ib, pol, cap * 10)
        st = sym.State()
        st.start = ({}, 'entry')
        S.go(st, max(S.loops, key=lambda h: len(S.loops[h])), ())
    return ib, S, pol.segs


# ------------------------------------------------------------ obligations
CMDS = ('CopyCommand', 'DictCommand', 'LiteralCommand', 'PredictionModeContextMap', 'BlockSwitch', 'LiteralBlockSwitch')
WIDTH = 32


class Case:
    """one way through a coding step: what was coded, what was read (N), what was done with it"""

    def __init__(self, fn, seg):
        self.kind, self.bi, self.st, self.last = seg
        self.nibs = [e for e in self.st.ev if e[0] == 'nib']
        self.variant = self.source(fn)

    def source(self, fn):
        for v, f in self.st.facts.items():
            if v[0] == 'L' and f[0] == '=':
                a = atom(v)
                if a is not None and a[0] == 'disc' and fn.stateplace(a) is not None:
                    return fn.vars.get(f[1])
        return None


class Fn:
    def __init__(self, cr, inf, p, cap):
        self.cr, self.p = cr, p
        self.short = '::'.join(p.split('::')[-2:])
        self.w = '%s:%s' % c02.b_file(cr, p)
        self.ib, self.S, segs = explore(cr, inf, p, cap)
        b = cr.fns[p]
        # the coded command, and the command being read
        self.arg = None
        for k in range(1, b.argc + 1):
            h = ty_head(re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', b.locals[k])).split('::')[-1]
            if h in CMDS:
                self.arg, self.cmd, self.byref = k, h, b.locals[k].startswith('&')
        self.adt = ty_head(re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', b.locals[1]))
        self.field = None
        self.vars = {}
        a = cr.adts.get(self.adt)
        if a and len(a['vars']) > 1:
            self.vars = cr.variants(self.adt)
            self.stfield = ()
        elif a:
            for f, ty in a['vars'][0]['fields']:
                if ty_head(ty).split('::')[-1] == getattr(self, 'cmd', ''):
                    self.field = f
                if len(cr.variants(ty_head(ty)) or ()) > 1 and c02.STATE.search(ty_head(ty)):
                    self.vars = cr.variants(ty_head(ty))
                    self.stfield = (('f', f),)
        self.root = ('h', ('m', ('l', 1), ()))
        self.segs = [Case(self, s) for s in segs]

    def stateplace(self, a):
        x = a[1]
        # ('disc', value): the value is (a phi of / the initial) state of self
        while isinstance(x, tuple):
            if x[0] in ('m', 'phi', 'hv'):
                pl = x[1:] if x[0] == 'm' else x[2]
                if pl[0] == self.root and pl[1] in (self.stfield, self.stfield + (('#',),)):
                    return pl
                return None
            return None
        return None

    def inval(self, *f):
        if self.byref:
            return num(('m', ('h', ('m', ('l', self.arg), ())), tuple(('f', x) for x in f)))
        return num(('m', ('l', self.arg), tuple(('f', x) for x in f)))


def zero(S, st, d):
    return S.zero(st, num(d))


def contradictory(S, st):
    return S.zero(st, num(('?', 'x')))


def resolve(fn, c, e):
    """(kind, value): what the encoder codes at this event on this path; kind 'is', 'ge' (only known to be at least), or None when
    the encoder never takes this path"""
    st, N = c.st, e[2]
    v = e[1]
    if v is None:
        return ('is', num(('?', 'unknown')))
    v = num(v)
    f = st.facts.get(N)
    for _ in range(6):
        a = atom(v)
        if a is not None and a[0] == 'phi' and a[1] in c.last and c.last[a[1]].get(a[2]) is not None and not isinstance(a[2][0][1], tuple):
            v = num(c.last[a[1]][a[2]])
            continue
        if a is not None and a[0] == 'min':
            k = [x for x in a[1:] if is_const(num(x))]
            o = [x for x in a[1:] if not is_const(num(x))]
            if len(k) == 1 and f is not None:
                K0 = num(k[0])[1]
                if f[0] == '=':
                    if f[1] > K0:
                        return None
                    if f[1] == K0:
                        return ('ge', num(o[0]), K0)
                    v = num(o[0])
                    continue
                if K0 in f[1]:
                    v = num(o[0])
                    continue
            if len(k) == 1 and less(st, N, num(k[0])[1]):
                v = num(o[0])
                continue
        break
    if is_const(v) and f is not None:
        if f[0] == '=' and f[1] != v[1] or f[0] == '!' and v[1] in f[1]:
            return None
    if f is not None and f[0] == '=' and not is_const(v) and all(k > 0 and t[0] in ('m', 'op') for t, k in v[2]) and v[1] > f[1]:
        return None     # quantities here are not negative
    na = atom(N)
    for x, g in st.facts.items():
        if na in list(walk(x)):
            y = subst(x, {na: v})
            a = atom(num(y))
            if a is not None and a[0] == 'op' and a[1] in ('eq0', 'lt0') and is_const(num(a[2])) and g[0] == '=':
                d = num(a[2])[1]
                if int(d == 0 if a[1] == 'eq0' else d < 0) != g[1]:
                    return None
    return ('is', v)


def less(st, N, k):
    """a path condition says N < k"""
    for x, g in st.facts.items():
        a = atom(x)
        if a is None or a[0] != 'op' or a[1] != 'lt0' or g[0] != '=':
            continue
        d = num(a[2])
        if g[1] == 1 and len(d[2]) == 1 and d[2][0] == (atom(N), 1) and -d[1] <= k:
            return True
        if g[1] == 0 and len(d[2]) == 1 and d[2][0] == (atom(N), -1) and d[1] < k:
            return True
    return False


def most(st, N):
    """the largest value the path conditions allow for N, or None"""
    f = st.facts.get(N)
    if f is not None and f[0] == '=':
        return f[1]
    for k in (1, 2, 3):
        if less(st, N, k):
            return k - 1
    return None


def lzform(v):
    """(X, c) when v = c - leading_zeros(X)"""
    v = num(v)
    if len(v[2]) == 1 and v[2][0][1] == -1 and v[2][0][0][:2] == ('op', 'lz'):
        return num(v[2][0][0][2]), v[1]
    return None


def flat(v):
    """the parts a number is put together from, by | or by +"""
    v = num(v)
    if len(v[2]) > 1 and v[1] == 0 and all(k > 0 for _, k in v[2]):
        return [y for t, k in v[2] for y in (flat(num(t)) if k == 1 else [mulk(num(t), k)])]
    a = atom(v)
    if a is not None and a[0] == 'op' and a[1] == 'BitOr':
        return flat(a[2]) + flat(a[3])
    return [v]


def put(V, N, s, P):
    """V less (P with the digit N put at s), when it is that up to a constant; P None: any number being put together"""
    V = num(V)
    off = K(V[1]) if len(V[2]) > 1 or V[1] else K(0)
    parts = flat(sub(V, off))
    mine = [x for x in parts if shl(x)[0] == N]
    rest = [x for x in parts if shl(x)[0] != N]
    if len(mine) != 1 or len(rest) != 1 or shl(mine[0])[1] != s:
        return None
    if P is None:
        a = atom(rest[0])
        return off if a is not None and a[0] == 'phi' else None
    return off if rest[0] == P else None


def shl(v):
    """(x, s) when v = x << s"""
    a = atom(num(v))
    if a is not None and a[0] == 'op' and a[1] == 'Shl':
        return num(a[2]), num(a[3])
    if v[0] == 'L' and v[1] == 0 and len(v[2]) == 1:
        k = v[2][0][1]
        if k > 1 and k & (k - 1) == 0:
            return num(v[2][0][0]), K(k.bit_length() - 1)
    return num(v), K(0)


def piece(v):
    """('hi', T, k) or ('lo', T, k): which part of T is coded"""
    a = atom(num(v))
    if a is None or a[0] != 'op':
        return None
    if a[1] == 'tr8':
        return piece(num(a[2]))
    if a[1] == 'Shr' and is_const(num(a[3])):
        return 'hi', num(a[2]), num(a[3])[1]
    if a[1] == 'BitAnd':
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if is_const(num(y)):
                m = num(y)[1] + 1
                if m & (m - 1) == 0:
                    return 'lo', num(x), m.bit_length() - 1
    return None


def digits(v):
    """(X, P, s) when v = the low digit of (X ^ P) >> s; P None: of X >> s"""
    a = atom(num(v))
    masked = False
    for _ in range(4):
        if a is None or a[0] != 'op':
            return None
        if a[1] == 'tr8':
            a = atom(num(a[2]))
        elif a[1] == 'BitAnd' and K(15) in (num(a[2]), num(a[3])):
            masked = True
            a = atom(num(a[3] if num(a[2]) == K(15) else a[2]))
        else:
            break
    if a is None or a[0] != 'op' or a[1] != 'Shr':
        return None
    s = num(a[3])
    c = atom(num(a[2]))
    if c is not None and c[0] == 'op' and c[1] == 'BitXor':
        return num(c[2]), num(c[3]), s
    if masked and not is_const(s):
        return num(a[2]), None, s
    return None


def both(d):
    return ((d[0], d[1]), (d[1], d[0])) if d[1] is not None else ((d[0], None),)


def which(c, V):
    """the coding step whose result is used in V"""
    w = list(walk(V))
    for e in reversed(c.nibs):
        if atom(e[2]) in w:
            return e
    return None


class Proof:
    def __init__(self, fn, rep):
        self.fn, self.rep = fn, rep
        self.S = fn.S
        self.partial = {}
        self.writes = []    # (case, place, target or None, V)
        self.base = {}      # variant -> X of the digits coded there
        self.inits = {}     # variant -> [X whose length leads there]
        self.escapes = []
        self.entryin = {}   # variant -> [what is coded first there]
        self.done = {}

    def targets(self, c):
        fn, st = self.fn, c.st
        out = []
        for q, v in st.mem.items():
            if q[0] != fn.root or c.st.start[0].get(q) == v or v[0] in ('tup', 'var'):
                continue
            if fn.field and q[1][:1] == (('f', fn.field),) and len(q[1]) >= 2:
                g = q[1][1][1]
                if fn.cmd == 'LiteralCommand' and g == 'data':
                    if q[1][2:] == (('f', '1'),):
                        out.append((q, 'data length', num(('len', self.inplace('data'))), v))
                    continue
                if len(q[1]) == 2:
                    if g not in fn.reads:
                        continue
                    out.append((q, g, fn.inval(g), v))
            elif fn.cmd in ('BlockSwitch', 'LiteralBlockSwitch') and q[1][:1] == (('d', 'FullyDecoded'),):
                if fn.cmd == 'BlockSwitch' and q[1][1:] == (('f', '0'),):
                    out.append((q, 'block_type', self.blocktype(), v))
        if fn.cmd == 'LiteralCommand':
            for e in st.ev:
                if e[0] == 'call' and e[1].split('::')[-1] == 'alloc_cell':
                    out.append((None, 'data length', num(('len', self.inplace('data'))), num(e[2][1])))
        return out

    def inplace(self, f):
        return (('h', ('m', ('l', self.fn.arg), ())), (('f', f),))

    def blocktype(self):
        return num(('op', 'acc block_type', ('m', ('l', self.fn.arg), ())))

    def payloads(self, c):
        fn = self.fn
        new = c.st.mem.get((fn.root, fn.stfield + (('#',),)))
        if new is None or new[0] != 'var' or c.st.start[0].get((fn.root, fn.stfield + (('#',),))) == new and False:
            return None, {}
        pay = payload(c.st, (fn.root, fn.stfield), new[1])
        return new[1], dict((k, v) for k, v in pay.items() if v[0] not in ('tup', 'var'))

    def run(self):
        fn, rep = self.fn, self.rep
        cases = [c for c in fn.segs if c.nibs]
        # what is coded in each state
        for c in cases:
            if c.variant:
                r = resolve(fn, c, c.nibs[0])
                v = num(c.nibs[0][1]) if c.nibs[0][1] is not None else None
                if v is not None:
                    self.entryin.setdefault(c.variant, set()).add((self.whole(c, c.nibs[0])))
            for e in c.nibs:
                v = self.whole(c, e)
                d = digits(v) if v is not None else None
                if d is not None and c.variant:
                    for x, p in both(d):
                        if self.is_in(x):
                            self.base.setdefault(c.variant, set()).add(x)
        # the parts put aside
        for c in cases:
            for q, v in list(c.st.mem.items()):
                if q[0][0] != 'h' or v[0] in ('tup', 'var', 'ref', 'slice') or c.st.start[0].get(q) == v:
                    continue
                e = which(c, v)
                if e is None:
                    continue
                w = self.whole(c, e)
                pc = piece(w) if w is not None else None
                if pc is None:
                    continue
                x, s = shl(num(v))
                if x == e[2] and is_const(s):
                    self.partial.setdefault(q, set()).add((pc[0], pc[1], pc[2], s[1]))
        self.completed = set()
        for c in cases:
            self.case(c)
        for c in fn.segs:
            if not c.nibs:
                self.silent(c)
        # the digits that follow a length are those of the number whose length it was
        for v, xs in sorted(self.inits.items()):
            rep.check('length', '%s:%s:number' % (fn.p, v), self.base.get(v) == xs and len(xs) == 1, fn.w,
                      '%s: the digits coded in %s are not those of the number whose length was coded before' % (fn.short, v))
        for c, e, r, var in self.escapes:
            self.escape(c, e, r, var)
        for q, ps in self.partial.items():
            for p in ps:
                if (q, p) not in self.completed:
                    rep.bad('pieces', '%s:%s' % (fn.p, sym.show(('m',) + q, fn.ib)[:-1]), fn.w,
                            '%s: a part of a number is put into %s and never joined with the other part' % (fn.short, sym.show(('m',) + q, fn.ib)[:-1]))

    def is_in(self, x):
        t = repr(x)
        return "('l', %d)" % self.fn.arg in t

    def whole(self, c, e):
        """what is coded, before path conditions on N are used"""
        v = e[1]
        if v is None:
            return None
        v = num(v)
        a = atom(v)
        if a is not None and a[0] == 'phi' and a[1] in c.last and not isinstance(a[2][0][1], tuple):
            x = c.last[a[1]].get(a[2])
            if x is not None:
                v = num(x)
        return v

    # -------------------------------------------------------- one case
    def case(self, c):
        fn, rep, S = self.fn, self.rep, self.S
        e = c.nibs[-1]
        N = e[2]
        var, pay = self.payloads(c)
        tg = self.targets(c)
        src = c.variant or '?'
        rep.count('coding steps followed')
        r = resolve(fn, c, e)
        if r is None:
            rep.ok('value', '%s:%s:infeasible' % (fn.p, src))
            return
        if r[0] == 'is':
            eq = sub(N, r[1])
            st2 = c.st.copy()
            st2.eqs += (eq,)
            if contradictory(S, st2):
                rep.ok('value', '%s:%s:infeasible' % (fn.p, src))
                return
        used = False
        if fn.cmd == 'LiteralBlockSwitch' and var == 'FullyDecoded':
            v0, v1 = pay.get(0), pay.get(1)
            ok = v1 is not None and num(v1) == N and v0 is not None and payphi(fn, 0)(num(v0))
            rep.check('value', '%s:%s:stride' % (fn.p, src), ok, fn.w, '%s: the pair read is not (the block type read before, the stride coded): %s' % (
                fn.short, ', '.join(sym.show(num(x), fn.ib)[:40] for x in (v0, v1) if x is not None)))
        for q, g, T, V in tg:
            k = '%s:%s:%s' % (fn.p, src, g)
            if V[0] != 'L':
                V = num(V)
            res, rule, why = self.equal(c, r, e, T, V, q)
            used = used or which(c, V) is not None
            rep.check(rule, k, res, fn.w, '%s: in state %s the %s read back is not the one that was coded: %s' % (fn.short, src, g, why))
        for i, v in sorted(pay.items()):
            if which(c, v) is not None:
                used = True
        if pay and not tg:
            self.pay(c, r, e, var, pay, src)
        f = c.st.facts.get(N)
        if not used and not (f is not None and f[0] == '='):
            if var is None and not tg or c.kind == 'ret' and var is None:
                return      # refused
            if any(q[0][0] == 'h' and c.st.start[0].get(q) != v and which(c, v) is not None for q, v in c.st.mem.items() if v[0] not in ('tup', 'var')):
                return
            if any(any(which(c, y) is not None for y in x[2]) for x in c.st.ev if x[0] == 'call' and x[1].split('::')[-1] not in ('blend', 'get_or_put_nibble')):
                return
            rep.bad('kept', '%s:%s' % (fn.p, src), e[3], '%s: the value read in state %s is not kept' % (fn.short, src))
        elif used or f is not None:
            rep.ok('kept', '%s:%s' % (fn.p, src))
        if r[0] == 'ge':
            self.escapes.append((c, e, r, var))

    def equal(self, c, r, e, T, V, q):
        """(holds, rule, why not)"""
        S, N = self.S, e[2]
        st2 = c.st.copy()
        v = r[1]
        show = lambda x: sym.show(x, self.fn.ib)[:110]
        why = 'reads %s where the coder was given %s' % (show(V), show(v if r[0] == 'is' else e[1]))
        f = st2.facts.get(T)
        if V == K(1) and f is not None and f[0] == '!' and 0 in f[1]:
            return True, 'value', why       # a flag
        if r[0] == 'is':
            V2 = subst(V, {atom(N): v})
            if V2 == T or zero(S, st2, sub(V2, T)):
                return True, 'value', why
            st2.eqs += (sub(N, v),)
            if zero(S, st2, sub(V2, T)) or zero(S, st2, sub(V, T)):
                return True, 'value', why
            lz = lzform(v)
            m = most(c.st, N)
            f = c.st.facts.get(N)
            if lz is not None:
                X, k = lz
                if f is not None and f[0] == '=':
                    bits = WIDTH - k + f[1]
                    if bits in (0, 1):
                        st2.eqs += (sub(X, K(bits)),)
                        if zero(S, st2, sub(V, T)):
                            return True, 'value', why
                elif m is not None and WIDTH - k + m <= 1:
                    # a number of at most one bit is its own length
                    V3 = subst(V, {atom(N): add(X, K(k - WIDTH))})
                    if zero(S, st2, sub(V3, T)):
                        return True, 'value', why
            # a table: the code of a value, and the value of a code
            a, b = atom(v), None
            if a is not None and a[0] == 'op' and a[1] == 'distance_mnemonic_code':
                b = [x for x in walk(V) if isinstance(x, tuple) and x[:2] == ('op', 'get_distance_from_mnemonic_code')]
                if b:
                    b = b[0]
                    ok = num(b[3]) == N and b[4] == a[4] and num(a[3]) == T and b[2][0] == 'ref' and a[2][0] == 'ref' and \
                        b[2][1] == (a[2][1][0], a[2][1][1] + (('f', 'distance_lru'),)) and V == num(('.', b, (('f', '0'),)))
                    return ok, 'mnemonic', 'the code of a recent distance is looked up with other arguments than it is read with (%s, %s)' % (show(v), show(V))
            d = digits(v)
            if d is not None:
                return self.dig(c, e, d, T, V, final=True) + (why,) if False else self.digfinal(c, e, d, T, V, why)
            p = piece(v)
            if p is not None:
                return self.join(c, e, p, T, V, q, why)
        else:
            if zero(S, st2, sub(V, T)):
                return True, 'value', why
        return False, 'value', why

    def digfinal(self, c, e, d, T, V, why):
        S, N = self.S, e[2]
        for X, P in both(d):
            off = put(V, N, d[2], P)
            if off is not None:
                if not zero(S, c.st, d[2]):
                    return False, 'digits', 'the number is taken as complete while digits are still to come'
                ok = zero(S, c.st, sub(add(X, off), T))
                return ok, 'digits', 'the digits are those of %s, the result is %s' % (sym.show(X, self.fn.ib)[:60], sym.show(V, self.fn.ib)[:80])
        return False, 'digits', why

    def join(self, c, e, p, T, V, q, why):
        kind, X, k = p
        N = e[2]
        if X != T:
            return False, 'pieces', why
        parts = flat(V)
        if len(parts) == 1:
            x, s = shl(parts[0])
            want = k if kind == 'hi' else 0
            ok = x == N and is_const(s) and (s[1] == want)
            return ok, 'pieces', why
        mine = [x for x in parts if shl(x)[0] == N]
        rest = [x for x in parts if shl(x)[0] != N]
        if len(mine) != 1 or len(rest) != 1:
            return False, 'pieces', why
        s = shl(mine[0])[1]
        if not is_const(s) or s[1] != (k if kind == 'hi' else 0):
            return False, 'pieces', 'a part is put in the wrong place (%s)' % why
        o, os = shl(rest[0])
        a = atom(o)
        pl = None
        if a is not None and a[0] == 'phi':
            pl = a[2]
        elif a is not None and a[0] == 'm':
            pl = a[1:]
        got = self.partial.get(pl)
        if not got:
            return False, 'pieces', 'the other part was never put aside (%s)' % why
        ok = True
        for g in got:
            okind, OX, ok_, oshift = g
            if okind == kind or ok_ != k or OX != T or oshift + os[1] != (k if okind == 'hi' else 0):
                ok = False
            else:
                self.completed.add((pl, g))
        return ok, 'pieces', 'the two parts do not make up the number (%s)' % why

    def pay(self, c, r, e, var, pay, src):
        fn, rep, S, N = self.fn, self.rep, self.S, e[2]
        last = max(pay)
        V = num(pay[last])
        k = '%s:%s' % (fn.p, src)
        x, s = shl(V)
        if x == K(1) and not is_const(V):
            lz = lzform(r[1]) if r[0] == 'is' else None
            E = s
            ok = False
            if lz is not None:
                E2 = subst(E, {atom(N): r[1]})
                ok = E2 == num(('L', WIDTH - 1, ((('op', 'lz', lz[0]), -1),))) or zero(S, c.st, sub(E2, sub(K(WIDTH - 1), num(('op', 'lz', lz[0])))))
                self.inits.setdefault(var, set()).add(lz[0])
            rep.check('length', k, ok, fn.w, '%s: in state %s the leading digit is placed at %s where the length coded is %s' % (fn.short, src, sym.show(E, fn.ib)[:60], sym.show(r[1], fn.ib)[:80]))
            prev = pay.get(last - 1)
            rep.check('length', k + ':count', prev is not None and num(prev) == num(('op', 'round_up_mod_4', E)), fn.w,
                      '%s: in state %s the number of digits to come (%s) does not go with the leading digit' % (fn.short, src, sym.show(prev, fn.ib)[:60] if prev is not None else '-'))
            rep.count('lengths')
            return
        if which(c, V) is None:
            return
        d = digits(r[1]) if r[0] == 'is' else None
        if d is not None:
            ok = False
            for X, P in both(d):
                if put(V, N, d[2], P) == K(0) and self.is_in(X):
                    ok = True
            rep.check('digits', k, ok, fn.w, '%s: in state %s a digit is not put where it was taken from (%s read, %s coded)' % (fn.short, src, sym.show(V, fn.ib)[:80], sym.show(r[1], fn.ib)[:80]))
            rep.count('digit steps')

    def silent(self, c):
        """fields written in a stretch that codes nothing: from digits gathered in a loop"""
        fn, rep, S = self.fn, self.rep, self.S
        for q, g, T, V in self.targets(c):
            a = atom(num(V))
            if a is None or a[0] != 'phi' or isinstance(a[2][0][1], tuple):
                continue
            k = '%s:loop:%s' % (fn.p, g)
            backs = [x for x in fn.segs if x.nibs and x.st.start[1] == a[1] and x.kind == 'back' and x.bi == a[1]]
            ok = bool(backs)
            for b in backs:
                e = b.nibs[-1]
                d = digits(num(e[1]))
                v = b.st.mem.get(a[2])
                good = False
                if d is not None and v is not None:
                    for X, P in both(d):
                        if put(v, e[2], d[2], P) == K(0) and X == T:
                            good = True
                ok = ok and good
            rep.check('digits', k, ok, fn.w, '%s: the %s gathered in the loop is not made of the digits that were coded' % (fn.short, g))

    def escape(self, c, e, r, var):
        fn, rep, S = self.fn, self.rep, self.S
        _, other, k0 = r
        k = '%s:%s' % (fn.p, c.variant)
        nxt = self.entryin.get(var)
        if not nxt:
            rep.bad('escape', k, fn.w, '%s: after the value that says "larger" in state %s nothing more is read' % (fn.short, c.variant))
            return
        rep.count('escapes')
        for v in nxt:
            a = atom(num(v))
            inner = num(v)
            if a is not None and a[0] == 'min':
                inner = [num(x) for x in a[1:] if not is_const(num(x))][0]
            if set(t for t, _ in inner[2]) == set(t for t, _ in num(other)[2]):
                ok = sub(inner, other) == K(-k0)
                why = 'continues at %s where %s was reached' % (sym.show(inner, fn.ib)[:60], sym.show(add(other, K(-k0)), fn.ib)[:60])
            else:
                lz = lzform(inner)
                ok, why = False, 'codes %s next' % sym.show(v, fn.ib)[:60]
                if lz is not None:
                    off = sub(lz[0], other)
                    if is_const(off):
                        x0 = k0 + off[1]
                        ok = x0 >= 0 and x0.bit_length() - (WIDTH - lz[1]) >= 0
                        why = 'codes the length of a number that can be shorter than expected'
                elif is_const(num(v)):
                    ok = True
            rep.check('escape', k, ok, fn.w, '%s: the value that says "larger" in state %s %s' % (fn.short, c.variant, why))


# ------------------------------------------------- tables of the prediction mode
def elem(v):
    """(kind of table, index, trailing path) of an element read"""
    a = atom(num(v))
    if a is None or a[0] != 'm' and a[0] != '.' and a[0] != 'phi':
        return None
    path = a[2]
    pl = (a[1], a[2])
    if a[0] == 'phi':
        pl, path = a[2], a[2][1]
    for j, e in enumerate(path):
        if e[0] == 'i':
            return table((pl[0], path[:j])), num(e[1]), path[j + 1:]
    return None


def table(pl):
    r = repr(pl)
    for n in ('literal_context_map', 'distance_context_map', 'mixing_values', 'cmap_lru'):
        if n in r:
            return n
    if 'SliceWrapperMut::slice_mut' in r or 'slice_mut' in r:
        return 'literal_context_map'
    return None


def anyvar(v):
    """a term with the names of state variants left out"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'd':
            return ('d', '*')
        return tuple(anyvar(x) for x in v)
    return v


def payphi(fn, i):
    """is the term the payload number i of the state this stretch began in"""
    def ok(v):
        a = atom(num(v))
        pl = a[2] if a is not None and a[0] == 'phi' else a[1:] if a is not None and a[0] == 'm' else None
        return pl is not None and pl[0] == fn.root and len(pl[1]) == len(fn.stfield) + 2 and pl[1][-1] == ('f', str(i))
    return ok


def maps(fn, rep):
    S = fn.S
    first = payphi(fn, 0)
    seen = {'literal_context_map': set(), 'distance_context_map': set()}
    hi = {}
    for c in fn.segs:
        if not c.nibs:
            continue
        e = c.nibs[-1]
        N, V = e[2], num(e[1])
        rep.count('coding steps followed')
        puts = []
        for q, v in c.st.mem.items():
            if v[0] in ('tup', 'var', 'ref', 'slice') or not any(x[0] == 'i' for x in q[1]) or c.st.start[0].get(q) == v:
                continue
            j = [x[0] for x in q[1]].index('i')
            puts.append((q, table((q[0], q[1][:j])), num(q[1][j][1]), q[1][j + 1:], v))
        new = c.st.mem.get((fn.root, fn.stfield + (('#',),)))
        new = new[1] if new is not None and new[0] == 'var' else None
        pay = payload(c.st, (fn.root, fn.stfield), new) if new else {}
        src = c.variant or '?'
        el = None
        k = '%s:%s' % (fn.p, src)
        f = c.st.facts.get(N)
        p = piece(V)
        # speeds: two fields of four entries, in two parts each
        for q, tb, ix, rest, v in puts:
            if q[0] == fn.root and q[1][:len(fn.stfield)] == fn.stfield and p is not None and which(c, v) is not None:
                parts = [shl(x) for x in flat(num(v))]
                mine = [s for x, s in parts if x == N]
                old = [x for x, s in parts if x != N]
                want = p[2] if p[0] == 'hi' else 0
                x = piece(p[1])
                base = atom(x[1]) if x is not None and x[0] == 'lo' else None
                ok = len(mine) == 1 and mine[0] == K(want) and base is not None and base[0] == '.' and base[2][-1:] == rest[-1:]
                why = 'a part of it is put in another place'
                if ok:
                    for y in old:
                        a = atom(y)
                        ok = ok and a is not None and a[0] == 'phi' and anyvar(a[2][1]) == anyvar(q[1])
                    arg = [z for z in c.st.ev if z[0] == 'call' and z[3] == base[1]]
                    ok = ok and bool(arg) and arg[0][2][0][0] in ('ref', 'm', '.') and ix in [num(y[1]) for y in walk(arg[0][2][0]) if isinstance(y, tuple) and len(y) == 2 and y[0] == 'i']
                    why = 'it is taken from one entry and put into another'
                hi.setdefault(rest[-1:], set()).add((p[0], p[2]))
                rep.check('pieces', k + ':' + str(rest[-1:][0][1] if rest else ''), ok, fn.w, '%s: the speed read in state %s is not the one coded: %s' % (fn.short, src, why))
        if src.endswith('FirstNibble'):
            if is_const(V):
                continue
            ee = elem(p[1]) if p else None
            ok = p is not None and p[0] == 'hi' and ee is not None and first(ee[1]) and num(pay.get(2, K(-1))) == N and 0 in pay and first(num(pay[0]))
            if ok and ee[0] in seen:
                seen[ee[0]].add(('hi', p[2]))
            rep.check('pieces', k, ok, fn.w, '%s: the upper part of a context map entry is not kept as it was coded (%s)' % (fn.short, sym.show(V, fn.ib)[:80]))
            continue
        mine = [x for x in puts if x[1] in ('literal_context_map', 'distance_context_map', 'mixing_values')]
        for q, tb, ix, rest, v in mine:
            kk = k + ':' + tb
            if not first(ix):
                rep.bad('pieces', kk, fn.w, '%s: in state %s an entry is put at %s, not at the position it was coded for' % (fn.short, src, sym.show(ix, fn.ib)[:60]))
                continue
            if src == 'MixingValues':
                ee = elem(V)
                rep.check('value', kk, num(v) == N and (is_const(V) or ee is not None and first(ee[1]) and ee[0] == 'mixing_values'), fn.w,
                          '%s: the mixing value read is not the one coded' % fn.short)
                continue
            if p is not None and src.endswith('SecondNibble'):
                ee = elem(p[1])
                if ee is not None and ee[0] is None and "'const'" in repr(p[1]):
                    continue        # an empty table
                parts = [shl(x) for x in flat(num(v))]
                lo = [s for x, s in parts if x == N]
                up = [(x, s) for x, s in parts if x != N]
                ok = p[0] == 'lo' and ee is not None and first(ee[1]) and ee[0] == tb and lo == [K(0)] and len(up) == 1 and payphi(fn, 2)(up[0][0]) and up[0][1] == K(p[2])
                if ok and tb in seen:
                    seen[tb].add(('lo', p[2]))
                rep.check('pieces', kk, ok, fn.w, '%s: the context map entry read is not made of the parts that were coded (%s)' % (fn.short, sym.show(v, fn.ib)[:80]))
                continue
            if is_const(V) and src.endswith('SecondNibble'):
                continue
            # by its place among the recent values, or as the next new one
            if f is not None and f[0] == '=' and is_const(V):
                if V[1] != f[1]:
                    continue
                ok = False
                for x, g in c.st.facts.items():
                    a = atom(x)
                    if a is not None and a[0] == 'op' and a[1] == 'eq0' and g == ('=', 1):
                        ok = ok or same_new(v, a[2], tb, first)
                rep.check('mnemonic', kk + ':new', ok, fn.w, '%s: the entry read for code %d is not the value it stands for' % (fn.short, f[1]))
                continue
            if is_const(V):
                if f is not None and f[0] == '!' and V[1] in f[1]:
                    continue        # the encoder codes another value
                rep.bad('mnemonic', kk + ':fixed', fn.w, '%s: the encoder codes the place %d whatever is found there' % (fn.short, V[1]))
                continue
            a = atom(V)
            if a is not None and a[0] == 'phi' and f is not None and f[0] == '!':
                ok = elem(v) is not None and elem(v)[0] == 'cmap_lru' and elem(v)[1] == N or lruread(v, N)
                ok = ok and recent(fn, c, a)
                rep.check('mnemonic', kk + ':recent', ok, fn.w, '%s: an entry coded by its place among the recent values is read from another place' % fn.short)
    for tb in seen:
        if seen[tb]:
            ks = set(x[1] for x in seen[tb])
            rep.check('pieces', '%s:%s:both' % (fn.p, tb), set(x[0] for x in seen[tb]) == {'hi', 'lo'} and len(ks) == 1, fn.w, '%s: the two parts of an entry of the %s do not make up the entry' % (fn.short, tb))
    for r, s in hi.items():
        rep.check('pieces', '%s:speed:%s:both' % (fn.p, r[0][1] if r else ''), set(x[0] for x in s) == {'hi', 'lo'} and len(set(x[1] for x in s)) == 1, fn.w, '%s: the two parts of a speed do not make up the speed' % fn.short)
    rep.count('map steps', sum(1 for x in seen.values() if x))


def same_new(v, d, tb, first):
    """where d == 0, v is the entry being coded"""
    for x in (sub(num(v), num(d)), add(num(v), num(d))):
        e = elem(x)
        if e is not None and (e[0] == tb or e[0] is None and "'const'" in repr(x)) and first(e[1]):
            return True
    return False


def lruread(v, N):
    a = atom(num(v))
    return a is not None and 'cmap_lru' in repr(a) and any(x == ('i', N) for x in walk(a))


def recent(fn, c, a):
    """the code is set to an index only where the entry equals the value found at that index"""
    ok = False
    for x in fn.segs:
        if x.kind != 'back' or x.st.start[1] != a[1] or x.bi != a[1]:
            continue
        v = x.st.mem.get(a[2])
        if v is None or num(v) == num(a):
            continue
        j = atom(num(v))
        while j is not None and j[0] == 'op' and j[1] in ('tr8', 'tr32'):
            j = atom(num(j[2]))
        if j is None:
            return False
        if len(j) == 3 and j[0] == '.' and j[2][-2:] == (('f', '0'), ('f', '0')):
            mark = repr(j[1])                   # found by walking over the values with their places
        else:
            mark = repr(('i', num(j)))          # found by place
        eqs = [g for g, h in x.st.facts.items() if h == ('=', 1) and atom(g) is not None and atom(g)[:2] == ('op', 'eq0') and mark in repr(g)]
        if not eqs:
            return False
        ok = True
    return ok


class Again(Pol):
    """calls of the function by itself: what it left before the call is remembered"""

    def __init__(self, cr, inf, p):
        Pol.__init__(self, cr, inf)
        self.p = p

    def contract(self, S, st, bi, t, args):
        if (callee_decl(t) or '').split('::')[-1] == self.p.split('::')[-1]:
            st.ev += (('again', dict(st.mem)),)
        return Pol.contract(self, S, st, bi, t, args)


def plain(cr, inf, p, cap):
    """every way through a function, nothing inlined"""
    ib = flow.IBody(cr, cr.fns[p], lambda c, t, cands, stack: None)
    pol = Again(cr, inf, p)
    S = sym.Sym(ib, pol, cap)
    S.run()
    return ib, S, pol.segs


def facts(st):
    """(atom, fact) of every path condition that is about one thing"""
    for v, f in st.facts.items():
        a = atom(num(v))
        if a is not None:
            yield a, f


def yes(f):
    return f == ('=', 1) or f[0] == '!' and 0 in f[1]


def recents(cr, inf, rep):
    """the code of a recent distance is one that is read back as that distance"""
    for p in sorted(cr.fns):
        if not p.endswith('::distance_mnemonic_code'):
            continue
        try:
            ib, S, segs = plain(cr, inf, p, 400)
        except sym.TooMany:
            rep.notes.append('%s: too many paths' % p)
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        rep.fns.add(p)
        got = 0
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            R = num(st.read((('l', 0), ())))
            f = st.facts.get(R)
            if f is not None and f[0] == '=':
                R = K(f[1])
            if is_const(R):
                rep.check('mnemonic', p + ':none', R[1] == 15, w, 'without a match the code is %d, which is not the one that says so (15)' % R[1])
                continue
            same = good = False
            for a, f in facts(st):
                if a[:2] == ('op', 'eq0') and yes(f):
                    for b in walk(a[2]):
                        if isinstance(b, tuple) and b[:2] == ('op', 'get_distance_from_mnemonic_code') and num(b[3]) == R and num(b[4]) == num(('m', ('l', 3), ())):
                            d = num(a[2])
                            it, dd = num(('.', b, (('f', '0'),))), num(('m', ('l', 2), ()))
                            same = same or d in (sub(it, dd), sub(dd, it))
                if a[0] == '.' and a[1][:2] == ('op', 'get_distance_from_mnemonic_code') and a[2] == (('f', '1'),) and num(a[1][3]) == R:
                    good = good or yes(f)
            got += 1
            rep.check('mnemonic', p + ':match', same and good, w, 'a code is given for a distance that is not known to be the one the code is read back as')
        rep.count('code searches', got)


def retconst(cr, inf, p):
    ib, S, segs = plain(cr, inf, p, 400)
    return ib, S, [(st, st.read((('l', 0), ()))) for kind, bi, st, last in segs if kind == 'ret']


def kinds(cr, inf, rep):
    """the code written for a kind of command starts the reading of a command of that kind"""
    code = {}
    for p in sorted(cr.fns):
        if p.endswith('::command_type_to_nibble'):
            vs = None
            m = re.search(r'brotli::interface::Command\b', cr.fns[p].locals[1])
            vs = cr.variants('brotli::interface::Command') if m else None
            if not vs:
                continue
            rep.fns.add(p)
            ib, S, rets = retconst(cr, inf, p)
            for st, R in rets:
                R = num(R)
                kind = None
                for a, f in facts(st):
                    if a[0] == 'disc' and f[0] == '=':
                        kind = vs.get(f[1])
                if not is_const(R):
                    rep.bad('kind', p + ':?', '%s:%s' % c02.b_file(cr, p), 'the code for a %s is not a fixed number' % kind)
                    continue
                code.setdefault(kind, set()).add(R[1])
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('::update_command_state_from_nibble'):
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        rep.fns.add(p)
        ib, S, rets = retconst(cr, inf, p)
        for st, R in rets:
            f = st.facts.get(num(('m', ('l', 2), ())))
            if f is None or f[0] != '=':
                continue
            new = [v[1] for q, v in st.mem.items() if q[0] == ('h', ('m', ('l', 1), ())) and q[1] == (('f', 'state'), ('#',)) and v[0] == 'var']
            if not new:
                continue
            back = [k for k, c in code.items() if f[1] in c]
            n += 1
            if back == [None]:
                rep.check('kind', p + ':end', new[0] in ('DivansSuccess', 'WriteChecksum'), w, 'the code that says "no more commands" starts the state %s' % new[0])
            else:
                rep.check('kind', p + ':' + new[0], back == [new[0]], w, 'code %d, written for %s, is read as the start of a %s' % (f[1], ' and '.join(str(b) for b in sorted(back, key=str)) or 'nothing', new[0]))
    rep.count('command kinds', n)


def handed(cr, inf, rep):
    """a command that has been read is handed on, as the kind it is"""
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('::encode_or_decode_one_command'):
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        adt = ty_head(re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', cr.fns[p].locals[1]))
        fs = dict(tuple(x) for x in cr.adts[adt]['vars'][0]['fields'])
        vs = cr.variants(ty_head(fs['state']))
        cmds = set((cr.variants('brotli::interface::Command') or {}).values())
        try:
            ib, S, segs = plain(cr, inf, p, 5000)
        except sym.TooMany:
            rep.notes.append('%s: too many paths' % p)
            continue
        rep.fns.add(p)
        root = ('h', ('m', ('l', 1), ()))
        for kind, bi, st, last in segs:
            src = None
            for a, f in facts(st):
                if a[0] == 'disc' and f[0] == '=' and isinstance(a[1], tuple) and a[1][0] in ('phi', 'm') and a[1][-1][-1:] == (('#',),) and a[1][-1][:1] == (('f', 'state'),) or \
                        a[0] == 'disc' and f[0] == '=' and a[1][0] == 'phi' and a[1][2] == (root, (('f', 'state'), ('#',))):
                    src = vs.get(f[1])
            if src not in cmds:
                continue
            done = [e for e in st.ev if e[0] == 'call' and e[1].split('::')[-1] == 'encode_or_decode']
            ok = False
            for a, f in facts(st):
                if done and a[0] == 'disc' and done[0][3] in list(walk(a)) and f == ('=', 1):
                    ok = True
            if not done or not ok:
                continue
            if any(q[0] == ('l', 0) and v == ('var', 'Failure') for q, v in st.mem.items()):
                continue        # refused
            n += 1
            k = '%s:%s' % (p, src)
            calls = dict((e[1].split('::')[-1], e) for e in st.ev if e[0] == 'call')
            pop = st.mem.get((root, (('f', 'state_populate_ring_buffer'), ('#',))))
            pop = pop[1] if pop is not None and pop[0] == 'var' else None
            if pop is not None:
                rep.check('handed', k + ':kind', pop == src, w, 'a %s that has been read is handed on as a %s' % (src, pop))
            obs = dict((x, e) for x, e in calls.items() if x.startswith('obs_btype'))
            if src.startswith('BlockSwitch'):
                rep.check('handed', k + ':seen', len(obs) == 1, w, 'a block switch that has been read (%s) is not taken note of on some path' % src)
                if src == 'BlockSwitchLiteral':
                    rep.check('handed', k + ':literals', pop is not None or 'obs_literal_block_switch' in calls, w, 'a switch of the literal block type takes no effect on the literals on some path')
                # the place whose recent values were used to read it is the place where it is noted
                ks = [num(x) for x in done[0][2] if x[0] == 'L' and is_const(num(x))]
                for x, e in obs.items():
                    idx = noted(cr, inf, x)
                    if idx is not None and ks:
                        rep.check('handed', k + ':place', ks[0] == idx, w, 'a %s is read with the recent block types of one kind (%s) and noted as one of another (%s)' % (src, ks[0][1], idx[1]))
            elif src == 'PredictionMode':
                rep.check('handed', k + ':seen', pop is not None or 'obs_prediction_mode_context_map' in calls, w, 'a prediction mode that has been read takes no effect on some path')
            else:
                rep.check('handed', k + ':seen', pop is not None, w, 'a %s that has been read is not handed on for output on some path' % src)
                if src == 'Copy':
                    rep.check('handed', k + ':distance', 'obs_distance' in calls, w, 'the distance of a copy that has been read is not noted among the recent distances on some path')
    rep.count('commands handed on', n)


def value(v, env):
    """the number a term stands for, given the numbers its unknowns stand for; None: unknown"""
    v = num(v)
    t = v[1]
    for a, k in v[2]:
        x = env(a)
        if x is None and a[0] == 'op':
            xs = [value(y, env) for y in a[2:]]
            if None in xs:
                return None
            f = {'Shr': lambda p, q: p >> q, 'Shl': lambda p, q: p << q, 'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q,
                 'BitXor': lambda p, q: p ^ q, 'tr8': lambda p: p & 255, 'Mul': lambda p, q: p * q, 'Rem': lambda p, q: p % q if q else None,
                 'Div': lambda p, q: p // q if q else None, 'eq0': lambda p: int(p == 0), 'lt0': lambda p: int(p < 0), 'not': lambda p: 1 - p,
                 'min': lambda *p: min(p)}.get(a[1])
            x = f(*xs) if f else None
        if x is None:
            return None
        t += k * x
    return t


def inbyte(a):
    """the offset, from where the call reads next, of a byte of the input; None: not one"""
    if a[0] == 'm' and a[1][:2] == ('h', ('m', ('l', 2), ())) and a[2] and a[2][-1][0] == 'i':
        x = num(a[2][-1][1])
        return x[1]
    return None


def kept_in(fld, i, v):
    """the term is payload i of what the field held before"""
    a = atom(num(v))
    if a is None or a[0] not in ('phi', 'm', '.') or repr(('f', fld)) not in repr(a):
        return False
    path = a[2][1] if a[0] == 'phi' else a[2]
    return path[-1:] == (('f', str(i)),)


def frame(cr, inf, rep):
    """the length a chunk is announced with is the length that is read"""
    enc = [p for p in sorted(cr.fns) if p.endswith('mux::get_code')]
    dec = [p for p in sorted(cr.fns) if p.endswith('Mux::deserialize')]
    if len(enc) != 1 or len(dec) != 1:
        rep.notes.append('the framing of chunks was not found')
        return
    p = dec[0]
    w = '%s:%s' % c02.b_file(cr, p)
    rep.fns.update([enc[0], p])
    ib, S, segs = plain(cr, inf, p, 4000)
    root = ('h', ('m', ('l', 1), ()))
    fld = [x for x, ty in cr.adts[ty_head(re.sub(r"^&('[a-z_0-9{}]+ )?(mut )?", '', cr.fns[p].locals[1]))]['vars'][0]['fields'] if 'BytesToDeserialize' in ty]
    if not fld:
        return
    vs = cr.variants('mux::BytesToDeserialize')
    whole, n = [], 0
    for kind, bi, st, last in segs:
        src = None
        for a, f in facts(st):
            if a[0] == 'disc' and f[0] == '=' and repr(fld[0]) in repr(a):
                src = vs.get(f[1])
        # changes made by this stretch itself
        again = [e[1] for e in st.ev if e[0] == 'again']
        if again:
            st = st.copy()
            st.mem = again[0]
        new = st.mem.get((root, (('f', fld[0]), ('#',))))
        if new is None or new[0] != 'var' or st.start[0].get((root, (('f', fld[0]), ('#',)))) == new:
            new = None
        pay = payload(st, (root, (('f', fld[0]),)), new[1]) if new else {}
        pre = lambda i: (lambda v: kept_in(fld[0], i, v))
        whole.append((kind, st, src, new, pay, pre))
    # announced lengths
    ib2, S2, rets = retconst(cr, inf, enc[0])
    cases = []
    for st, R in rets:
        hd = [(q, v) for q, v in st.mem.items() if q[0] == ('l', 0)]
        var = [v[1] for q, v in hd if v[0] == 'var']
        ln = [num(v) for q, v in hd if q[1] == (('f', '1'),)]
        bs = dict((q[1][-1][1][1], num(v)) for q, v in hd if q[1] and q[1][-1][0] == 'i' and is_const(num(q[1][-1][1])))
        if not var or not ln:
            continue
        cases.append((var[0], bs, ln[0]))
    m = num(('m', ('l', 1), ()))
    for var, bs, ln in cases:
        if len(bs) == 1:
            for sid in (0, 1):
                b = value(bs[0], lambda a: sid if num(a) == m else None)
                if b is None or not is_const(ln):
                    rep.bad('frame', enc[0] + ':fixed', w, 'a chunk is announced with one byte (%s) that does not tell its length' % sym.show(bs[0], ib2))
                    continue
                env = lambda a: b if inbyte(a) == 0 else None
                hit = 0
                for kind, st, src, new, pay, pre in whole:
                    if new is None or new[1] != 'Some' or src in ('Header0', 'Header1', 'Some') or len(pay) < 2:
                        continue
                    if any(value(num(a), env) not in (None, f[1]) if f[0] == '=' else value(num(a), env) in f[1] for a, f in facts(st) if value(num(a), env) is not None):
                        continue
                    hit += 1
                    got, gid = value(pay[1], env), value(pay[0], env)
                    rep.check('frame', '%s:%d' % (p, b), got == ln[1] and gid == sid, w, 'a chunk of %d bytes of stream %d, announced as %d, is read as %s bytes of stream %s' % (ln[1], sid, b, got, gid))
                    n += 1
                rep.check('frame', '%s:%d:known' % (p, b), hit > 0, w, 'a chunk announced with the byte %d is not read as a chunk' % b)
        elif len(bs) == 3:
            n1 = sub(ln, K(1))
            lo = strip8(bs[1])
            hi = strip8(bs[2])
            ok = num(bs[0]) == m and lo == n1 and hi == num(('op', 'Shr', n1, K(8)))
            rep.check('frame', enc[0] + ':counted', ok, w, 'a chunk of %s bytes is not announced as the stream and the length less one, low byte first' % sym.show(ln, ib2))
    # three byte announcements
    for kind, st, src, new, pay, pre in whole:
        if new is None:
            continue
        if src == 'Header0' and new[1] == 'Header1':
            ok = pre(0)(pay.get(0, K(0))) and atom(num(pay.get(1, K(0)))) is not None and inbyte(atom(num(pay[1]))) == 0
            rep.check('frame', p + ':Header0', ok, w, 'the low byte of a length that comes in pieces is not kept')
            n += 1
        elif src == 'Header1' and new[1] == 'Some':
            parts = flat(sub(pay[1], K(1))) if len(pay) > 1 else []
            got = sorted((s[1] if is_const(s) else -1, pre(1)(x), inbyte(atom(x)) if atom(x) else None) for x, s in map(shl, parts))
            ok = pre(0)(pay.get(0, K(0))) and got == [(0, True, got[0][2]), (8, False, 0)] if len(got) == 2 else False
            rep.check('frame', p + ':Header1', ok, w, 'a length that comes in pieces is put together wrongly (%s)' % (sym.show(pay[1], ib)[:80] if len(pay) > 1 else '-'))
            n += 1
        elif new[1] == 'Header0' and src not in ('Header0', 'Header1', 'Some'):
            ok = value(pay.get(0, K(9)), lambda a: 1 if inbyte(a) == 0 else None) == 1 and value(pay.get(0, K(9)), lambda a: 0 if inbyte(a) == 0 else None) == 0
            rep.check('frame', p + ':begin', ok, w, 'the stream of a chunk whose length comes in pieces is not kept')
            n += 1
        elif new[1] == 'Some' and src not in ('Header0', 'Header1', 'Some') and len(pay) > 1 and '+ 1]' in sym.show(num(pay[1]), ib):
            got = sorted((s[1] if is_const(s) else -1, inbyte(atom(x)) if atom(x) else None) for x, s in map(shl, flat(sub(pay[1], K(1)))))
            rep.check('frame', p + ':counted', got == [(0, 1), (8, 2)], w, 'a length of two bytes is put together wrongly (%s)' % sym.show(pay[1], ib)[:80])
            n += 1
    rep.count('chunk announcements', n)


def strip8(v):
    a = atom(num(v))
    while a is not None and a[0] == 'op' and (a[1] == 'tr8' or a[1] == 'BitAnd' and K(255) in (num(a[2]), num(a[3]))):
        v = num(a[2]) if a[1] == 'tr8' or num(a[3]) == K(255) else num(a[3])
        a = atom(v)
    return num(v)


def noted(cr, inf, name):
    """the place in the table of block types that the function notes a block type in"""
    for p in sorted(cr.fns):
        if p.endswith('::' + name) and 'CrossCommandBookKeeping' in p:
            ib, S, segs = plain(cr, inf, p, 100)
            for kind, bi, st, last in segs:
                for e in st.ev:
                    if e[0] == 'call' and e[1].split('::')[-1] == '_obs_btype_helper':
                        return num(e[2][1])
    return None


def reads(cr, p, k):
    """fields of parameter k that the function reads"""
    out = set()

    def w(x):
        if isinstance(x, dict):
            if 'l' in x and 'p' in x and isinstance(x['p'], list):
                if x['l'] == k:
                    for e in x['p']:
                        if e[0] == 'f':
                            out.add(e[1])
                            break
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for blk in cr.fns[p].blocks:
        w(blk)
    return out


def check(ctx, rep):
    cr = ctx.lib
    inf = c02.Info(cr)
    for rid, text in (('value', 'a value read back is the one coded'), ('length', 'the length coded for a number goes with its leading digit and the number of digits'),
                      ('digits', 'the digits of a number are put where they were taken from'), ('pieces', 'a number coded in parts is put together from the same parts'),
                      ('mnemonic', 'a recent value coded by its place is read from that place'), ('escape', 'a value too large for the short form is continued in the long form'),
                      ('kept', 'nothing that is read is thrown away'), ('kind', 'the code of a kind of command is read as that kind'),
                      ('frame', 'the length a chunk is announced with is the length that is read'),
                      ('handed', 'a command that has been read is handed on as the kind it is')):
        rep.rule(rid, text)
    n = 0
    for p in sorted(inf.resumable):
        b = cr.fns[p]
        if 'codec' not in p or not any((callee_decl(t) or '').endswith(c02.CODE) for _, t in b.calls()):
            continue
        try:
            fn = Fn(cr, inf, p, 800)
        except sym.TooMany:
            rep.notes.append('%s: too many paths, not followed' % p)
            continue
        if fn.arg is None:
            continue
        fn.reads = reads(cr, p, fn.arg)
        n += 1
        rep.fns.add(p)
        if fn.cmd == 'PredictionModeContextMap':
            maps(fn, rep)
        else:
            Proof(fn, rep).run()
    rep.count('coding functions', n)
    recents(cr, inf, rep)
    kinds(cr, inf, rep)
    handed(cr, inf, rep)
    frame(cr, inf, rep)
    rep.floor('coding functions', 4)
    rep.floor('coding steps followed', 100)
    rep.floor('digit steps', 3)
    rep.floor('lengths', 3)
    rep.floor('command kinds', 7)
    rep.floor('commands handed on', 6)
