"""Symbolic value flow: a path-sensitive value numbering of integers, references and
slices over an (inlined) body. Nothing is executed and nothing is handed to a solver:
every place holds a normal form (a linear combination of opaque atoms, a reference, or a
slice = (buffer, offset, length)); branches record facts; loops are cut at their heads,
where whatever the loop changes becomes a fresh atom. What is reported to the monitor are
segments: entry or loop head -> next loop head or return, with the copies, element
accesses and calls made on the way and the values at both ends."""
import re
from .mir import callee, callee_decl, canon, ty_head
from . import flow

INT = re.compile(r'^(u|i)(8|16|32|64|128|size)$')
SLICE = re.compile(r"^&('[a-z_0-9{}]+ )?(mut )?\[[^;]*\]$")
BITS = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}


class TooMany(Exception):
    pass


# ------------------------------------------------------------------ terms
def K(n):
    return ('L', n, ())


def num(v):
    if v[0] == 'L':
        return v
    return ('L', 0, ((v, 1),))


def lin(c, d):
    return ('L', c, tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)))


def add(a, b, s=1):
    a, b = num(a), num(b)
    if not b[2]:
        return ('L', a[1] + s * b[1], a[2])
    d = dict(a[2])
    for t, k in b[2]:
        d[t] = d.get(t, 0) + s * k
    return lin(a[1] + s * b[1], d)


def sub(a, b):
    return add(a, b, -1)


def mulk(a, k):
    a = num(a)
    return lin(a[1] * k, {t: c * k for t, c in a[2]})


def is_const(v):
    return v[0] == 'L' and not v[2]


def atom(v):
    """the single atom of a value, or None"""
    if v[0] != 'L':
        return v
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    return None


def show(v, ib=None, d=0):
    def pl(p):
        r, el = p
        if r[0] == 'l':
            s = (ib.name(r[1]) if ib is not None else '_%d' % r[1])
        elif r[0] == 'h':
            s = '*' + show(r[1], ib, d + 1)
        else:
            s = str(r[0])
        for e in el:
            if e[0] == 'f':
                s += '.' + e[1]
            elif e[0] == 'i':
                s += '[' + show(e[1], ib, d + 1) + ']'
            elif e[0] == 'd':
                s += '<' + e[1] + '>'
            else:
                s += '#'
        return s
    if d > 6:
        return '..'
    k = v[0]
    if k == 'L':
        out = []
        for t, c in v[2]:
            x = show(t, ib, d + 1)
            out.append(x if c == 1 else '-' + x if c == -1 else '%d*%s' % (c, x))
        if v[1] or not out:
            out.append(str(v[1]))
        return ' + '.join(out).replace('+ -', '- ')
    if k == 'm':
        return pl((v[1], v[2])) + '0'
    if k == 'ref':
        return '&' + pl(v[1])
    if k == 'slice':
        return '%s[%s;+%s]' % (pl(v[1]), show(v[2], ib, d + 1), show(v[3], ib, d + 1))
    if k == 'phi':
        return 'phi%s(%s)' % (v[1], pl(v[2]))
    if k == 'min':
        return 'min(%s)' % ', '.join(show(x, ib, d + 1) for x in v[1:])
    if k == 'len':
        return 'len(%s)' % pl(v[1])
    if k == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(x, ib, d + 1) for x in v[2:]))
    if k == 'call':
        return '%s@%s' % (v[1].split('::')[-1], v[2])
    if k == '.':
        return show(v[1], ib, d + 1) + pl((('', 0), v[2]))
    return str(v)[:60]


# -------------------------------------------------------------- the state
class State(object):
    __slots__ = ('mem', 'facts', 'eqs', 'ev', 'start', 'heads', 'n', 'visits', 'seen', 'prev', 'starts')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.eqs = ()
        self.ev = ()
        self.start = None
        self.prev = ()
        self.starts = ()
        self.heads = ()
        self.n = 0
        self.visits = {}
        self.seen = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.eqs = self.eqs
        s.ev = self.ev
        s.start = self.start
        s.prev = self.prev
        s.starts = self.starts
        s.heads = self.heads
        s.n = self.n
        s.visits = self.visits
        s.seen = self.seen
        return s

    # --------------------------------------------------------- memory
    def read(self, p):
        v = self.mem.get(p)
        if v is not None:
            return v
        root, el = p
        for i in range(len(el) - 1, -1, -1):
            v = self.mem.get((root, el[:i]))
            if v is not None:
                return ('.', v, el[i:])
        return ('m', root, el)

    def kids(self, p):
        n = len(p[1])
        return [(k, v) for k, v in self.mem.items() if k[0] == p[0] and len(k[1]) > n and k[1][:n] == p[1]]

    def write(self, p, v):
        root, el = p
        n = len(el)
        bad = []
        for k in self.mem:
            if k[0] != root:
                continue
            e = k[1]
            if len(e) >= n and e[:n] == el:
                bad.append(k)
            elif may_alias(e, el):
                bad.append(k)
        for k in bad:
            del self.mem[k]
        self.mem[p] = v
        for k in bad:
            # a different element that may be the same one: value unknown from now on
            if not (len(k[1]) >= n and k[1][:n] == el):
                self.n += 1
                self.mem[k] = ('hv', self.n, k)

    def copy_place(self, dst, src):
        v = self.read(src)
        ks = self.kids(src)
        n = len(src[1])
        has = src in self.mem
        self.write(dst, v)
        for k, w in ks:
            self.mem[(dst[0], dst[1] + k[1][n:])] = w

    def havoc(self, p):
        self.n += 1
        self.write(p, ('hv', self.n, p))


def may_alias(a, b):
    """paths under one root that are not prefix-related but may denote overlapping storage"""
    diff = False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == 'i' and y[0] == 'i':
            d = sub(x[1], y[1])
            if is_const(d):
                return False
            diff = True
            continue
        return False
    return diff


class Policy(object):
    """Override: contract(sym, st, t, args) -> None or True when handled (must write the result)."""
    inline_depth = 6
    unroll = 0          # counting loops with constant bounds of at most this many rounds are run round by round

    def contract(self, S, st, bi, t, args):
        return None

    def segment(self, S, st, kind, bi):
        pass

    def asserted(self, S, st, t, bb):
        pass

    def evkey(self, ev):
        return ev


class Sym(object):
    def __init__(self, ib, pol, cap=4000, types=None):
        self.ib = ib
        self.pol = pol
        self.cap = cap
        self.paths = 0
        self.steps = 0
        self.loops = flow.natural_loops(ib)
        self.live = ib.liveness()
        self.merge = False
        self.tag = 0
        self.seen = {}

    # ------------------------------------------------------------ types
    def op_ty(self, o):
        if 'pl' in o:
            return self.pl_ty(o['pl'])
        return o.get('ty', '')

    def pl_ty(self, pl):
        t = self.ib.locals[pl['l']]
        for e in pl['p']:
            if e[0] == 'f':
                t = e[3] if len(e) > 3 else ''
            elif e[0] == '*':
                m = re.match(r"^(&('[a-z_0-9{}]+ )?(mut )?|\*(const|mut) )", t)
                t = t[m.end():] if m else ''
            elif e[0] in ('i', 'c'):
                m = re.match(r'^\[(.*)(; [^;\]]*)\]$', t) or re.match(r'^\[(.*)\]$', t)
                t = m.group(1) if m else ''
            elif e[0] == 'd':
                pass
            else:
                t = ''
        return t

    # ----------------------------------------------------------- places
    def deref(self, st, v):
        if v[0] == 'ref':
            return v[1]
        if v[0] == 'slice':
            return ('S',) + v[1:]
        return (('h', v), ())

    def place(self, st, pl):
        """place of a MIR place expression; ('S', base, off, len) for the unsized target of a slice"""
        p = (('l', pl['l']), ())
        for e in pl['p']:
            k = e[0]
            if p[0] == 'S':
                if k == 'i':
                    i = num(st.read((('l', e[1]), ())))
                    b = p[1]
                    p = (b[0], b[1] + (('i', add(p[2], i)),))
                    continue
                if k == 'c':
                    i = add(p[3], K(-e[1])) if e[3] else K(e[1])
                    b = p[1]
                    p = (b[0], b[1] + (('i', add(p[2], i)),))
                    continue
                if k == 's':
                    b = p[1]
                    if e[3]:
                        p = ('S', b, add(p[2], K(e[1])), sub(p[3], K(e[1] + e[2])))
                    else:
                        p = ('S', b, add(p[2], K(e[1])), K(e[2] - e[1]))
                    continue
                b = p[1]
                p = (b[0], b[1] + (('o', k),))
                continue
            if k == '*':
                p = self.deref(st, self.load(st, p))
            elif k == 'f':
                p = (p[0], p[1] + (('f', e[1]),))
            elif k == 'd':
                p = (p[0], p[1] + (('d', e[1]),))
            elif k == 'i':
                i = num(st.read((('l', e[1]), ())))
                p = (p[0], p[1] + (('i', i),))
            elif k == 'c':
                p = (p[0], p[1] + (('i', K(-e[1] if e[3] else e[1])),))
            else:
                p = (p[0], p[1] + (('o', k),))
        return p

    def load(self, st, p):
        return st.read(p)

    def as_slice(self, v, st=None):
        if v[0] == 'slice':
            return v
        if v[0] == 'ref':
            return ('slice', v[1], K(0), num(('len', v[1])))
        a = atom(v) or v
        return ('slice', (('h', a), ()), K(0), num(('len', (('h', a), ()))))

    def arr_len(self, ty):
        m = re.match(r"^(&('[a-z_0-9{}]+ )?(mut )?)*\[.*; (\d+)(_usize)?\]$", ty)
        return int(m.group(4)) if m else None

    # --------------------------------------------------------- operands
    def val(self, st, o):
        if 'pl' in o:
            p = self.place(st, o['pl'])
            if p[0] == 'S':
                return ('slice',) + p[1:]
            if p[1] and p[1][-1][0] == 'i':
                st.ev += (('get', p, o, None),)
            v = st.read(p)
            return v
        if 'v' in o:
            ty = o.get('ty', '')
            try:
                n = int(o['v'])
            except (ValueError, TypeError):
                if o['v'] in ('true', 'True', True):
                    return K(1)
                if o['v'] in ('false', 'False', False):
                    return K(0)
                return ('const', str(o['v']))
            return K(n)
        if 'fn' in o:
            return ('fn', canon(o['fn'].get('resolved', o['fn']['path'])))
        return ('const', canon(str(o.get('def') or o.get('s') or '?')) + (('#%s' % o['promoted']) if 'promoted' in o else ''))

    def assign(self, st, dst, o):
        """place := operand (structure preserved)"""
        if 'pl' in o:
            p = self.place(st, o['pl'])
            if p[0] == 'S':
                st.write(dst, ('slice',) + p[1:])
                return
            if p[1] and p[1][-1][0] == 'i':
                st.ev += (('get', p, o, None),)
            st.copy_place(dst, p)
            return
        st.write(dst, self.val(st, o))

    def narrow(self, v, frm, to, st=None):
        f, t = INT.match(frm or ''), INT.match(to or '')
        if frm == 'bool':
            return v
        if not t:
            return v
        tb = BITS[t.group(2)]
        fb = BITS[f.group(2)] if f else 64
        v = num(v)
        if is_const(v):
            m = v[1] & ((1 << tb) - 1)
            if t.group(1) == 'i' and m >= 1 << (tb - 1):
                m -= 1 << tb
            return K(m)
        if tb >= 32 or tb >= fb:
            return v
        u = self.upper(v, st)
        if u is not None and u < 1 << tb:
            return v
        return num(('op', 'tr%d' % tb, v))

    def upper(self, v, st=None):
        """an upper bound of a non-negative quantity, or None"""
        v = num(v)
        if st is not None:
            for f, val in st.facts.items():
                a = atom(f)
                if a is None or a[0] != 'op' or a[1] != 'lt0':
                    continue
                w = None
                if val == ('=', 1):
                    w = sub(v, a[2])
                elif val == ('=', 0):
                    w = add(v, a[2])
                if w is not None and len(w[2]) < len(v[2]) + 1 and len(w[2]) <= 3:
                    u = self.upper(w)
                    if u is not None:
                        return u
        u = v[1]
        for t, c in v[2]:
            if c < 0:
                continue
            x = None
            if t[0] == 'min':
                xs = [y for y in (self.upper(y) for y in t[1:]) if y is not None]
                x = min(xs) if xs else None
            if x is None:
                return None
            u += c * x
        return u

    def binop(self, op, a, b, ty=''):
        a, b = num(a), num(b)
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mul':
            if is_const(a):
                return mulk(b, a[1])
            if is_const(b):
                return mulk(a, b[1])
            return num(('op', 'Mul') + tuple(sorted((a, b), key=repr)))
        if is_const(a) and is_const(b):
            x, y = a[1], b[1]
            f = {'Div': lambda: x // y if y else None, 'Rem': lambda: x % y if y else None, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y if 0 <= y < 128 else None, 'Shr': lambda: x >> y if 0 <= y < 128 else None,
                 'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y), 'Lt': lambda: int(x < y), 'Le': lambda: int(x <= y),
                 'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y)}.get(op)
            if f is not None and f() is not None:
                return K(f())
        if ty[:1] == 'u' and op in ('Div', 'Rem') and is_const(b) and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            # division of an unsigned number by a power of two
            op, b = ('Shr', K(b[1].bit_length() - 1)) if op == 'Div' else ('BitAnd', K(b[1] - 1))
        if op == 'Shl' and is_const(b) and 0 <= b[1] < 64:
            return num(('op', 'Shl', a, b)) if ty in ('u8', 'u16') else mulk(a, 1 << b[1])
        if op in ('Shr', 'Div') and is_const(b):
            k = (1 << b[1]) if op == 'Shr' else b[1]
            if k and a[1] % k == 0 and all(c % k == 0 for _, c in a[2]):
                return lin(a[1] // k, {t: c // k for t, c in a[2]})
            if k == 1:
                return a
        if op == 'BitAnd' and is_const(b) and b[1] == 0:
            return K(0)
        if op in ('BitOr', 'BitXor') and is_const(b) and b[1] == 0:
            return a
        if op in ('BitOr', 'BitXor') and is_const(a) and a[1] == 0:
            return b
        if op == 'Eq':
            return self.cmp('eq0', sub(a, b))
        if op == 'Ne':
            return self.neg(self.cmp('eq0', sub(a, b)))
        if op == 'Lt':
            return self.cmp('lt0', sub(a, b))
        if op == 'Gt':
            return self.cmp('lt0', sub(b, a))
        if op == 'Ge':
            return self.neg(self.cmp('lt0', sub(a, b)))
        if op == 'Le':
            return self.neg(self.cmp('lt0', sub(b, a)))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = sorted((a, b), key=repr)
        return num(('op', op, a, b))

    def cmp(self, k, d):
        if is_const(d):
            return K(int(d[1] == 0 if k == 'eq0' else d[1] < 0))
        if k == 'eq0' and d[2][0][1] < 0:
            d = mulk(d, -1)
        return num(('op', k, d))

    def neg(self, v):
        if is_const(v):
            return K(1 - v[1])
        a = atom(v)
        if a is not None and a[0] == 'op' and a[1] == 'not':
            return a[2]
        return num(('op', 'not', v))

    # -------------------------------------------------------- statements
    def stmt(self, st, s, bi):
        k = s['k']
        if k == 'setdisc':
            p = self.place(st, s['d'])
            st.write((p[0], p[1] + (('#',),)), ('var', s['var']))
            return
        if k != '=':
            return
        r = s['r']
        rk = r['k']
        d = self.place(st, s['d'])
        if d[0] == 'S':
            return
        if d[1] and d[1][-1][0] == 'i':
            st.ev += (('put', d, None, s['sp']),)
            mark = len(st.ev) - 1
        else:
            mark = None
        if rk == 'use':
            self.assign(st, d, r['o'])
        elif rk in ('ref', 'rawptr'):
            p = self.place(st, r['pl'])
            st.write(d, ('slice',) + p[1:] if p[0] == 'S' else ('ref', p))
        elif rk == 'bin':
            a, b = self.val(st, r['a']), self.val(st, r['b'])
            ty = self.op_ty(r['a'])
            v = self.binop(r['op'], a, b, ty)
            if r['op'].endswith('WithOverflow'):
                st.write(d, ('tup',))
                st.mem[(d[0], d[1] + (('f', '0'),))] = v
                st.mem[(d[0], d[1] + (('f', '1'),))] = K(0)
            else:
                st.write(d, v)
        elif rk == 'un':
            v = self.val(st, r['o'])
            op = r['op']
            if 'PtrMetadata' in op:
                st.write(d, self.as_slice(v)[3])
            elif op == 'Not' and self.op_ty(r['o']) == 'bool':
                st.write(d, self.neg(num(v)))
            elif op == 'Neg':
                st.write(d, mulk(v, -1))
            else:
                st.write(d, num(('op', op, num(v))))
        elif rk == 'cast':
            o = r['o']
            frm, to = self.op_ty(o), r['ty']
            v = self.val(st, o)
            n = self.arr_len(frm)
            if n is not None and re.match(r"^(&('[a-z_0-9{}]+ )?(mut )?|\*(const|mut) )\[[^;]*\]$", to):
                if v[0] == 'ref':
                    st.write(d, ('slice', v[1], K(0), K(n)))
                else:
                    st.write(d, ('slice', (('h', v), ()), K(0), K(n)))
            elif INT.match(to):
                st.write(d, self.narrow(v, frm, to, st) if v[0] not in ('ref', 'slice') else ('op', 'addr', v))
            else:
                self.assign(st, d, o)
        elif rk == 'disc':
            p = self.place(st, r['pl'])
            v = st.read((p[0], p[1] + (('#',),))) if p[0] != 'S' else ('hv', -1, d)
            if v[0] == 'var':
                vs = self.variants(r)
                n = next((i for i, x in (vs or {}).items() if x == v[1]), None)
                st.write(d, K(n) if n is not None else ('disc', v))
            else:
                st.write(d, ('disc', v))
        elif rk == 'agg':
            vals = [(o, self.val(st, o) if 'pl' not in o else None) for o in r['o']]
            tmp = State()
            kids = []
            for i, (o, v) in enumerate(vals):
                if r['a'] == 'array':
                    e = ('i', K(i))
                elif r['a'] == 'adt':
                    e = ('f', r['fn'][i] if i < len(r['fn']) else str(i))
                else:
                    e = ('f', str(i))
                pre = ()
                if r['a'] == 'adt' and self.is_enum(r['adt']):
                    pre = (('d', r['var']),)
                sub_ = pre + (e,)
                if v is None:
                    p = self.place(st, o['pl'])
                    if p[0] == 'S':
                        kids.append((sub_, ('slice',) + p[1:]))
                    else:
                        if p[1] and p[1][-1][0] == 'i':
                            st.ev += (('get', p, o, None),)
                        kids.append((sub_, st.read(p)))
                        n = len(p[1])
                        for kk, w in st.kids(p):
                            kids.append((sub_ + kk[1][n:], w))
                else:
                    kids.append((sub_, v))
            st.write(d, ('tup',))
            if r['a'] == 'adt' and r['adt'].endswith('InputReference'):
                st.ev += (('agg', canon(r['adt']), tuple(v for _, v in kids), s['sp']),)
            if r['a'] == 'adt':
                st.mem[(d[0], d[1] + (('#',),))] = ('var', r['var'])
            for e, v in kids:
                st.mem[(d[0], d[1] + e)] = v
        elif rk == 'repeat':
            v = self.val(st, r['o'])
            st.write(d, ('rep', v))
        else:
            st.havoc(d)
        if mark is not None:
            st.ev = st.ev[:mark] + (('put', d, st.read(d), s['sp']),) + st.ev[mark + 1:]

    def variants(self, r):
        if 'adt' in r:
            v = self.ib.crate.variants(canon(r['adt']))
            if v:
                return v
        if 'vars' in r:
            return {int(a): b for a, b in r['vars']}
        return None

    def is_enum(self, adt):
        a = canon(adt)
        x = self.ib.crate.adts.get(a)
        if x is not None:
            return x.get('kind') == 'Enum'
        if a in self.ib.crate.ext:
            return True
        return a in ('core::option::Option', 'core::result::Result')

    # ------------------------------------------------------------- calls
    def call(self, st, t, bi):
        """returns list of (state) after the call, result written"""
        d = self.place(st, t['d']) if t.get('d') else None
        decl = callee_decl(t) or ''
        name = decl.split('::')[-1]
        args = [self.val(st, a) for a in t['a']]
        r = self.pol.contract(self, st, bi, t, args)
        if r is not None:
            return
        ext = (callee(t) or '') not in self.ib.crate.fns

        def ret(v):
            st.write(d, v)
        slicey = '::slice' in decl or 'SliceWrapper' in decl
        if name in ('split_at', 'split_at_mut') and len(args) == 2:
            s = self.as_slice(args[0])
            k = num(args[1])
            st.write(d, ('tup',))
            st.mem[(d[0], d[1] + (('f', '0'),))] = ('slice', s[1], s[2], k)
            st.mem[(d[0], d[1] + (('f', '1'),))] = ('slice', s[1], add(s[2], k), sub(s[3], k))
            return
        if name == 'len' and len(args) == 1 and ('slice' in decl or 'array' in decl):
            n = self.arr_len(self.op_ty(t['a'][0]))
            return ret(K(n) if n is not None and args[0][0] != 'slice' else self.as_slice(args[0])[3])
        if name == 'len' and len(args) == 1 and ('SliceWrapper' in decl):
            return ret(num(('len', self.as_slice(args[0])[1])))
        if name == 'is_empty' and len(args) == 1 and 'slice' in decl:
            return ret(self.binop('Eq', self.as_slice(args[0])[3], K(0)))
        if name in ('slice', 'slice_mut') and len(args) == 1 and ext:
            v = args[0]
            if v[0] == 'slice':
                return ret(v)
            b = v[1] if v[0] == 'ref' else (('h', v), ())
            return ret(('slice', b, K(0), num(('len', b))))
        if name in ('clone_from_slice', 'copy_from_slice') and len(args) == 2:
            a, b = self.as_slice(args[0]), self.as_slice(args[1])
            st.ev += (('copy', a, b, t['sp']),)
            self.clobber_slice(st, a)
            return ret(('tup',))
        if name in ('index', 'index_mut') and len(args) == 2 and ext:
            rt = self.op_ty(t['a'][1])
            h = ty_head(rt).split('::')[-1]
            # a Vec or array indexed by a range
            rp = self.place(st, t['a'][1]['pl']) if 'pl' in t['a'][1] else None
            v = args[0]
            n = self.arr_len(self.op_ty(t['a'][0]))
            s = self.as_slice(v)
            if n is not None and v[0] != 'slice':
                s = (s[0], s[1], s[2], K(n))

            def rf(f):
                return num(st.read((rp[0], rp[1] + (('f', f),))))
            if rp is not None and rp[0] != 'S':
                if h == 'Range':
                    a, b = rf('start'), rf('end')
                    return ret(('slice', s[1], add(s[2], a), sub(b, a)))
                if h == 'RangeFrom':
                    a = rf('start')
                    return ret(('slice', s[1], add(s[2], a), sub(s[3], a)))
                if h == 'RangeTo':
                    b = rf('end')
                    return ret(('slice', s[1], s[2], b))
            if h == 'RangeFull':
                return ret(s)
            if INT.match(rt):
                i = num(args[1])
                return ret(('ref', (s[1][0], s[1][1] + (('i', add(s[2], i)),))))
        if name in ('min', 'max') and len(args) == 2 and 'cmp' in decl:
            a, b = num(args[0]), num(args[1])
            if a == b:
                return ret(a)
            if is_const(a) and is_const(b):
                return ret(K(min(a[1], b[1]) if name == 'min' else max(a[1], b[1])))
            a, b = sorted((a, b), key=repr)
            return ret(num((name, a, b)))
        if name in ('from', 'into') and len(args) == 1 and INT.match(self.op_ty(t['a'][0])) and INT.match(self.pl_ty(t['d'])):
            return ret(num(args[0]))
        if name in ('wrapping_add', 'wrapping_sub') and len(args) == 2:
            return ret(add(args[0], args[1], 1 if name == 'wrapping_add' else -1))
        if name in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'clone') and len(args) == 1 and name == 'clone' and args[0][0] == 'ref':
            st.copy_place(d, args[0][1])
            return
        if name == 'replace' and 'mem' in decl and len(args) == 2 and args[0][0] == 'ref':
            p = args[0][1]
            st.copy_place(d, p)
            if 'pl' in t['a'][1]:
                q = self.place(st, t['a'][1]['pl'])
                if q[0] != 'S':
                    st.copy_place(p, q)
                    return
            st.write(p, args[1])
            return
        if name == 'take' and 'mem' in decl and len(args) == 1 and args[0][0] == 'ref':
            st.copy_place(d, args[0][1])
            st.havoc(args[0][1])
            return
        if name == 'swap' and 'mem' in decl and len(args) == 2 and args[0][0] == 'ref' and args[1][0] == 'ref':
            st.n += 1
            tmp = (('t', st.n), ())
            st.copy_place(tmp, args[0][1])
            st.copy_place(args[0][1], args[1][1])
            st.copy_place(args[1][1], tmp)
            st.write(d, ('tup',))
            return
        if name == 'swap' and 'mem' not in decl and len(args) == 3 and args[0][0] == 'slice' and is_const(num(args[1])) and is_const(num(args[2])):
            b, off = args[0][1], num(args[0][2])
            p, q = [(b[0], b[1] + (('i', add(off, num(x))),)) for x in args[1:]]
            st.n += 1
            tmp = (('t', st.n), ())
            st.copy_place(tmp, p)
            st.copy_place(p, q)
            st.copy_place(q, tmp)
            st.write(d, ('tup',))
            return
        if name == 'into_iter' and len(args) == 1 and 'pl' in t['a'][0] and self.op_ty(t['a'][0]).startswith('core::ops::Range'):
            st.copy_place(d, self.place(st, t['a'][0]['pl']))
            return
        if name == 'next' and len(args) == 1 and args[0][0] == 'ref' and 'core::ops::Range<' in self.op_ty(t['a'][0]).replace('std::', 'core::') + '<' \
                and 'core::ops::Range' in ty_head(self.op_ty(t['a'][0])):
            # a counting loop: some(start) while start < end, then none
            p = args[0][1]
            fs, fe = (p[0], p[1] + (('f', 'start'),)), (p[0], p[1] + (('f', 'end'),))
            a, b = num(st.read(fs)), num(st.read(fe))
            some = st.copy()
            out = []
            if self.decide(some, self.cmp('lt0', sub(a, b)), 1):
                some.write(fs, add(a, K(1)))
                some.write(d, ('tup',))
                some.mem[(d[0], d[1] + (('#',),))] = ('var', 'Some')
                some.mem[(d[0], d[1] + (('d', 'Some'), ('f', '0')))] = a
                out.append(some)
            if self.decide(st, self.cmp('lt0', sub(a, b)), 0):
                st.eqs += (sub(a, b),)
                st.write(d, ('tup',))
                st.mem[(d[0], d[1] + (('#',),))] = ('var', 'None')
                out.append(st)
            return out
        if name in ('iter', 'iter_mut') and len(args) == 1 and 'slice' in decl:
            s = self.as_slice(args[0])
            if name == 'iter':
                st.ev += (('read', s, t['sp']),)
                st.seen += (s,)
            st.write(d, ('iter', name, s))
            return
        if name == 'zip' and len(args) == 2 and args[0][0] == 'iter' and args[0][1] == 'iter_mut' and args[1][0] == 'iter':
            a, b = args[0][2], args[1][2]
            st.ev += (('copy', ('slice', a[1], a[2], b[3]), b, t['sp']),)
            self.clobber_slice(st, a)
            st.n += 1
            return ret(('call', decl, '%s:%s' % tuple(t['sp'][:2]), st.n))
        self.opaque(st, t, bi, args, d, decl)

    def clobber_slice(self, st, a):
        base = a[1]
        for k in [k for k in st.mem if k[0] == base[0] and len(k[1]) > len(base[1]) and k[1][:len(base[1])] == base[1] and k[1][len(base[1])][0] == 'i']:
            del st.mem[k]
            st.n += 1
        st.n += 1
        # cells of the buffer are unknown from here on
        cell = (base[0], base[1] + (('cells',),))
        st.mem[cell] = ('hv', st.n, cell)

    def opaque(self, st, t, bi, args, d, decl):
        st.n += 1
        site = '%s:%s' % tuple(t['sp'][:2])
        v = ('call', decl, site, st.n)
        for a, o in zip(args, t['a']):
            ty = self.op_ty(o)
            if a[0] == 'ref' and 'mut' in ty.split('[')[0].split('<')[0][:24]:
                st.havoc(a[1])
                st.ev += (('havoc', a[1], st.n, t['sp']),)
            elif a[0] not in ('ref', 'slice', 'L') and ty.startswith('&') and 'mut ' in ty[:24]:
                st.havoc((('h', a), ()))
                st.ev += (('havoc', (('h', a), ()), st.n, t['sp']),)
            elif a[0] == 'slice' and 'mut ' in ty[:24]:
                self.clobber_slice(st, a)
        st.ev += (('call', decl, tuple(args), v, t['sp']),)
        if d is not None and d[0] != 'S':
            ty = self.pl_ty(t['d'])
            st.write(d, num(v) if INT.match(ty) or ty == 'bool' else v)

    # --------------------------------------------------------- branching
    def truth(self, st, v):
        """known integer value of v on this path, or None"""
        if is_const(v):
            return v[1]
        f = st.facts.get(v)
        if f is not None and f[0] == '=':
            return f[1]
        return None

    def decide(self, st, v, n):
        """assume v == n; False if contradictory"""
        v = num(v)
        while True:
            a = atom(v)
            if a is not None and a[0] == 'op' and a[1] == 'not' and n in (0, 1):
                v, n = num(a[2]), 1 - n
                continue
            break
        if is_const(v):
            return v[1] == n
        f = st.facts.get(v)
        if f is not None:
            if f[0] == '=':
                return f[1] == n
            if n in f[1]:
                return False
        st.facts[v] = ('=', n)
        a = atom(v)
        if a is not None and a[0] == 'op' and a[1] == 'eq0' and n == 1:
            st.eqs += (a[2],)
            # x - c == 0: x has a known value
            d = a[2]
            if len(d[2]) == 1 and d[2][0][1] == 1:
                x = ('L', 0, d[2])
                g = st.facts.get(x)
                if g is not None and ((g[0] == '=' and g[1] != -d[1]) or (g[0] == '!' and -d[1] in g[1])):
                    return False
                st.facts[x] = ('=', -d[1])
        elif a is not None and a[0] == 'op' and a[1] == 'eq0' and n == 0:
            d = a[2]
            self.other_min(st, d)
            if len(d[2]) == 1 and d[2][0][1] == 1:
                return self.exclude(st, ('L', 0, d[2]), frozenset([-d[1]]))
        elif a is not None and a[0] == 'op' and a[1] == 'lt0':
            # x < y and y < x cannot both hold; x < y excludes x == y
            d = a[2]
            o = num(('op', 'lt0', mulk(d, -1)))
            if n == 1:
                self.other_min(st, d)
                g = st.facts.get(o)
                if g is not None and g == ('=', 1):
                    return False
                e = self.cmp('eq0', d)
                g = st.facts.get(e)
                if g == ('=', 1):
                    return False
                st.facts[e] = ('=', 0)
            else:
                if st.facts.get(o) == ('=', 0):
                    st.eqs += (d,)
        elif a is not None and v[1] == 0:
            st.eqs += (sub(v, K(n)),)
            e = self.cmp('eq0', sub(v, K(n)))
            g = st.facts.get(e)
            if g is not None and g == ('=', 0):
                return False
        return True

    def other_min(self, st, d):
        """d != 0 where d = +-(min(a, b) - b): the minimum is a"""
        for t, c in d[2]:
            if t[0] in ('min', 'max') and c in (1, -1):
                m = num(t)
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if mulk(sub(m, x), c) == d:
                        st.eqs += (sub(m, y),)

    def exclude(self, st, v, ns):
        v = num(v)
        if is_const(v):
            return v[1] not in ns
        a = atom(v)
        if a is not None and a[0] == 'op' and a[1] in ('not', 'eq0', 'lt0') and ns == frozenset([0]):
            return self.decide(st, v, 1)
        f = st.facts.get(v)
        if f is not None:
            if f[0] == '=':
                return f[1] not in ns
            ns = ns | f[1]
        st.facts[v] = ('!', ns)
        return True

    # ------------------------------------------------------------ driver
    def zero(self, st, d):
        """is the linear form d zero under the equalities of this path?"""
        d = num(d)
        if is_const(d):
            return d[1] == 0
        es = [e for e in st.eqs if not is_const(e)]
        # Gaussian elimination over the path's equalities (exact, integer multiples only)
        rows = []
        for e in es:
            for p, pc in rows:
                e = elim(e, p, pc)
            if e[2]:
                a, c = e[2][0]
                rows.append((e, a))
            elif e[1]:
                return True  # the path's own conditions contradict each other
            if len(rows) > 40:
                break
        for p, pc in rows:
            d = elim(d, p, pc)
        return is_const(d) and d[1] == 0

    def run(self, init=None):
        st = State()
        for i in range(1, self.ib.argc + 1):
            if SLICE.match(self.ib.locals[i]):
                p = (('l', i), ())
                st.mem[p] = self.as_slice(('m',) + p)
        if init:
            init(self, st)
        st.start = self.snapshot(st)
        self.go(st, 0, ())
        return self

    def snapshot(self, st):
        return (dict(st.mem), 'entry')

    def go(self, st, bb, open_heads, inside=None, backs=None, exits=None):
        """explore from bb. open_heads: heads of loops we are inside of (a jump to one ends the path).
        inside: restrict to these blocks, collecting exits."""
        stack = [(st, bb)]
        while stack:
            st, bb = stack.pop()
            first = True
            while True:
                self.steps += 1
                if self.steps > 400000 or self.paths > self.cap:
                    raise TooMany()
                if not first or True:
                    if bb in open_heads:
                        if not (first and backs is None and False):
                            if backs is not None and bb == open_heads[-1]:
                                backs.append(st)
                            else:
                                self.pol.segment(self, st, 'back', bb)
                                self.paths += 1
                            break
                    if inside is not None and bb not in inside:
                        exits.append((st, bb))
                        break
                    if bb in self.loops and not self.counted(st, bb):
                        self.loop(st, bb, open_heads, inside, backs, exits)
                        break
                if self.merge and len(self.ib.pred[bb]) > 1 and not self.join(st, bb, open_heads):
                    break
                nxt = self.block(st, bb)
                first = False
                if nxt is None:
                    break
                if isinstance(nxt, int):
                    bb = nxt
                    continue
                for s2, b2 in nxt[1:]:
                    stack.append((s2, b2))
                if not nxt:
                    break
                st, bb = nxt[0]

    def join(self, st, bb, heads):
        """second stage, for bodies with too many paths: a path that reaches a block with the same
        live values and events as an earlier one goes on with the facts both share, or stops when
        it knows at least what the earlier one knew"""
        items = []
        used = set()
        for p, v in st.mem.items():
            if self.local_dead(p, bb):
                continue
            a = atom(v)
            if a is not None and a[0] in ('hv', 'call') or v[0] in ('tup', 'fn', 'const', 'disc'):
                continue
            items.append((p, v))
            if v[0] == 'L':
                used.update(t for t, _ in v[2])
            elif v[0] == 'slice':
                used.update(t for x in v[2:] for t, _ in x[2])
        eq = tuple(e for e in st.eqs if len(e[2]) > 1 or any(t in used for t, _ in e[2]))
        key = (bb, heads, self.tag, frozenset(items), self.pol.evkey(st.ev), st.seen, eq)
        old = self.seen.get(key)
        if old is not None:
            if all(st.facts.get(k) == v for k, v in old.items()):
                return False
            st.facts = {k: v for k, v in st.facts.items() if old.get(k) == v}
            keep = set(eq)
            st.eqs = tuple(e for e in st.eqs if e in keep)
        self.seen[key] = dict(st.facts)
        return True

    def body(self, st, bb, heads, inside, backs, exits):
        """first block of a loop body: run the head block itself, then go on"""
        nxt = self.block(st, bb)
        if nxt is None:
            return
        if isinstance(nxt, int):
            nxt = [(st, nxt)]
        for s2, b2 in nxt:
            self.go(s2, b2, heads, inside, backs, exits)

    def loop(self, st, h, open_heads, inside, backs, exits):
        blocks = self.loops[h]
        self.pol.segment(self, st, 'enter', h)
        hav = {}
        base = st
        quiet = self.pol.segment
        rounds = 0
        while True:
            s0 = base.copy()
            s0.ev = ()
            self.tag += 1
            for p in sorted(hav, key=lambda p: (len(p[1]), repr(p))):
                self.havoc_at(s0, p, h, hav[p])
            s0.start = (dict(s0.mem), h)
            mine, out = [], []
            snap = dict(s0.mem)
            self.pol.segment = lambda *a: None
            save = self.paths
            try:
                self.body(s0.copy(), h, open_heads + (h,), blocks, mine, out)
            finally:
                self.pol.segment = quiet
            self.paths = save
            ref = s0
            changed = False
            for b in mine:
                for p in set(b.mem) | set(snap):
                    if self.local_dead(p, h):
                        continue
                    v = b.mem.get(p)
                    if v is None:
                        v = b.read(p)
                    w = snap.get(p)
                    if w is None:
                        w = ref.read(p)
                    if v != w:
                        if p not in hav:
                            hav[p] = []
                            changed = True
                        if v not in hav[p]:
                            hav[p] = hav[p] + [v]
                            if len(hav[p]) < 12:
                                changed = changed or (v[0] == 'slice') != (w[0] == 'slice')
            rounds += 1
            if not changed or rounds > 12:
                break
        # places that move in lock step share one atom
        tie = self.ties(base, s0, hav, mine, h)
        # definitive pass: the real segments
        self.tag += 1
        s0 = base.copy()
        s0.prev = base.prev + base.ev
        s0.starts = base.starts + ((base.start,) if base.start else ())
        s0.ev = ()
        for p in sorted(hav, key=lambda p: (len(p[1]), repr(p))):
            self.havoc_at(s0, p, h, hav[p])
        for p, (q, d) in tie.items():
            self.setnum(s0, p, add(self.numat(s0, q), d))
        s0.start = (dict(s0.mem), h)
        mine, out = [], []
        self.body(s0, h, open_heads + (h,), blocks, mine, out)
        for b in mine:
            self.paths += 1
            self.pol.segment(self, b, 'back', h)
        for s2, b2 in out:
            self.go(s2, b2, open_heads, inside, backs, exits)

    def counted(self, st, bb):
        """is this the head of a loop over a range whose bounds are known and close together?"""
        if not self.pol.unroll:
            return False
        seen = set()
        while bb not in seen:
            seen.add(bb)
            t = self.ib.blocks[bb]['t']
            if t['k'] == 'call':
                if (callee_decl(t) or '').split('::')[-1] != 'next' or len(t['a']) != 1:
                    return False
                for s in self.ib.blocks[bb]['s']:
                    r = s.get('r') or {}
                    if r.get('k') == 'ref' and 'Range<' in self.pl_ty(r['pl']):
                        p = self.place(st, r['pl'])
                        a, b = num(st.read((p[0], p[1] + (('f', 'start'),)))), num(st.read((p[0], p[1] + (('f', 'end'),))))
                        return is_const(a) and is_const(b) and b[1] - a[1] <= self.pol.unroll
                return False
            if t['k'] != 'goto':
                return False
            bb = self.ib.succ[bb][0]
        return False

    def numat(self, st, p):
        v = st.read(p)
        return v[2] if v[0] == 'slice' else num(v)

    def setnum(self, st, p, n):
        v = st.read(p)
        if v[0] == 'slice':
            ln = v[3]
            if v[2] in [num(a) for a, _ in ln[2]] or any(num(a) == v[2] for a, _ in ln[2]):
                ln = add(add(ln, v[2]), n, -1)
            st.write(p, ('slice', v[1], n, ln))
        else:
            st.write(p, n)

    def ties(self, base, s0, hav, backs, h):
        ps = [p for p in sorted(hav, key=lambda p: (len(p[1]), repr(p))) if s0.read(p)[0] in ('L', 'slice') and base.read(p)[0] == s0.read(p)[0]]
        out = {}
        for i, p in enumerate(ps):
            if s0.read(p)[0] == 'slice' and self.numat(s0, p) == self.numat(base, p):
                continue
            for q in ps[:i]:
                if q in out or (s0.read(q)[0] == 'slice' and self.numat(s0, q) == self.numat(base, q)):
                    continue
                d0 = sub(self.numat(base, p), self.numat(base, q))
                d1 = sub(self.numat(s0, p), self.numat(s0, q))
                if backs and all(self.zero(b, sub(sub(self.numat(b, p), self.numat(b, q)), d1)) for b in backs if b.read(p)[0] in ('L', 'slice')):
                    out[p] = (q, d0)
                    break
        return out

    def local_dead(self, p, h):
        r = p[0]
        return r[0] == 't' or (r[0] == 'l' and r[1] not in self.live[h] and r[1] not in self.ib._esc)

    def havoc_at(self, s, p, h, vals):
        old = s.read(p)
        if old[0] == 'slice' and vals and all(v[0] == 'slice' and v[1] == old[1] for v in vals):
            off = num(('phi', h, (p[0], p[1] + (('off',),))))
            if all(self.zero(s, sub(add(v[2], v[3]), add(old[2], old[3]))) for v in vals):
                ln = sub(add(old[2], old[3]), off)
            elif all(v[3] == old[3] for v in vals):
                ln = old[3]
            else:
                ln = num(('phi', h, (p[0], p[1] + (('len',),))))
            s.write(p, ('slice', old[1], off, ln))
            return
        v = ('phi', h, p)
        s.write(p, num(v) if old[0] == 'L' or any(x[0] == 'L' for x in vals) else v)

    def block(self, st, bb):
        """execute a block; returns next block, list of (state, block), or None at an end"""
        b = self.ib.blocks[bb]
        for s in b['s']:
            self.stmt(st, s, bb)
        t = b['t']
        k = t['k']
        if k == 'goto':
            return t['t']
        if k == 'drop':
            return t['t']
        if k == 'assert':
            v = self.val(st, t['o'])
            self.pol.asserted(self, st, t, bb)
            if not self.decide(st, v, 1 if t['exp'] in (True, 'True', 1) else 0):
                return None
            return t['t']
        if k == 'call':
            if t['t'] is None:
                return None
            forks = self.call(st, t, bb)
            if forks is not None:
                return [(x, t['t']) for x in forks]
            return t['t']
        if k == 'return':
            self.paths += 1
            self.pol.segment(self, st, 'ret', bb)
            return None
        if k == 'switch':
            v = num(self.val(st, t['o']))
            kn = self.truth(st, v)
            out = []
            if kn is not None:
                for n, x in t['v']:
                    if int(n) == kn:
                        return x
                return t['ow']
            for n, x in t['v']:
                s2 = st.copy()
                if self.decide(s2, v, int(n)):
                    out.append((s2, x))
            if self.ib.blocks[t['ow']]['t']['k'] != 'unreachable':
                s2 = st.copy()
                if self.exclude(s2, v, frozenset(int(n) for n, _ in t['v'])):
                    out.append((s2, t['ow']))
            return out if out else None
        return None


def elim(d, p, a):
    """d with atom a eliminated using p == 0 (when the coefficient divides)"""
    pc = next((c for t, c in p[2] if t == a), 0)
    dc = next((c for t, c in d[2] if t == a), 0)
    if not dc or not pc or dc % pc:
        return d
    return add(d, mulk(p, -(dc // pc)))
