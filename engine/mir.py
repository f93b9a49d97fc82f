"""Model of the dumped MIR: canonical names, bodies, CFG utilities, call graph."""
import re
from collections import defaultdict, deque


def strip_generics(s):
    """Drop generic argument lists: a::B::<C<D>>::e -> a::B::e ; keeps the
    `<X as Y>::z` qualified-self form (with X and Y stripped)."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            # qualified self at start or after non-identifier
            prev = s[i - 1] if i else ''
            j = _match(s, i)
            inner = s[i + 1:j]
            k = _find_as(inner)
            if (i == 0 or prev in ' (&[<,*') and s[j + 1:j + 3] == '::':
                if k is not None:
                    a, b = inner[:k], inner[k + 4:]
                    out.append('<' + strip_generics(a) + ' as ' + strip_generics(b) + '>')
                else:
                    out.append('<' + strip_generics(inner) + '>')
            else:
                if ''.join(out[-2:]) == '::':
                    out = out[:-2]
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def _match(s, i):
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
            if d == 0:
                return i
        i += 1
    return n - 1


def _find_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([':
            d += 1
        elif c in '>)]' and s[i - 1] != '-':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
    return None


_canon_cache = {}


def canon(p):
    r = _canon_cache.get(p)
    if r is None:
        r = strip_generics(p)
        r = re.sub(r'\bdivans::', '', r)
        _canon_cache[p] = r
    return r


def ty_head(t):
    """Outermost type constructor path of a type string."""
    t = t.strip()
    while True:
        m = re.match(r"&('[a-z_0-9]+ )?(mut )?", t)
        if m and m.group(0):
            t = t[m.end():]
            continue
        break
    return canon(t)


class Body(object):
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.raw = j['path']
        self.path = canon(j['path'])
        self.kind = j['kind']
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.names = {int(k): v for k, v in j['names'].items()}
        self.argc = j['argc']
        self.file = j['span'][0]
        self.line = j['span'][1]
        self._succ = None
        self._pred = None
        self._defs = None

    def name(self, l):
        return self.names.get(l, '_%d' % l)

    @property
    def succ(self):
        if self._succ is None:
            self._succ = [term_succ(b['t']) for b in self.blocks]
        return self._succ

    @property
    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ):
                if self.blocks[i]['c']:
                    continue
                for s in ss:
                    if i not in p[s]:
                        p[s].append(i)
            self._pred = p
        return self._pred

    def reachable(self, start=0, avoid=()):
        seen = set()
        q = [start]
        while q:
            x = q.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            q.extend(self.succ[x])
        return seen

    @property
    def defs(self):
        """local -> list of (block, stmt index or 't', kind, payload) whole-local definitions"""
        if self._defs is None:
            d = defaultdict(list)
            for bi, b in enumerate(self.blocks):
                for si, s in enumerate(b['s']):
                    if s['k'] == '=' and not s['d']['p']:
                        d[s['d']['l']].append((bi, si, 'rv', s['r']))
                t = b['t']
                if t['k'] == 'call' and not t['d']['p']:
                    d[t['d']['l']].append((bi, 't', 'call', t))
            self._defs = d
        return self._defs

    def calls(self):
        for bi, b in enumerate(self.blocks):
            if b['c']:
                continue
            if b['t']['k'] in ('call', 'tailcall'):
                yield bi, b['t']

    def where(self, sp):
        return '%s:%s' % (sp[0], sp[1])


def term_succ(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        r = []
        for _, b in t['v']:
            if b not in r:
                r.append(b)
        if t['ow'] not in r:
            r.append(t['ow'])
        return r
    if k in ('drop', 'assert'):
        return [t['t']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


def callee(t):
    """(path, resolved-or-path, trait) canonical names of a call terminator; None for
    an indirect call."""
    f = t['f']
    if f['k'] != 'const' or 'fn' not in f:
        return None
    fn = f['fn']
    return canon(fn.get('resolved', fn['path']))


def callee_decl(t):
    f = t['f']
    if f['k'] != 'const' or 'fn' not in f:
        return None
    return canon(f['fn']['path'])


class Crate(object):
    def __init__(self, j):
        self.j = j
        self.name = j['crate']
        self.bodies = {}
        self.dup = []
        for b in j['bodies']:
            bd = Body(b, self)
            if bd.path in self.bodies:
                self.dup.append(bd.path)
                # several impls can share a canonical name (different generic args)
                k = 2
                while '%s#%d' % (bd.path, k) in self.bodies:
                    k += 1
                bd.path = '%s#%d' % (bd.path, k)
            self.bodies[bd.path] = bd
        self.adts = {canon(a['path']): a for a in j['adts']}
        self.consts = {canon(c['path']): c['v'] for c in j['consts']}
        self.impls = j['impls']
        # trait item -> list of local impl bodies
        self.trait_impls = defaultdict(list)
        for b in self.bodies.values():
            ti = b.j.get('trait_item')
            if ti:
                self.trait_impls[canon(ti)].append(b)
        self.ext = {}
        for b in self.bodies.values():
            for blk in b.blocks:
                for s in blk['s']:
                    if s['k'] == '=' and s['r']['k'] == 'disc' and 'vars' in s['r']:
                        self.ext[canon(s['r']['adt'])] = {int(d): n for d, n in s['r']['vars']}
        self.fns = {p: b for p, b in self.bodies.items() if b.kind in ('fn', 'closure')}

    def variants(self, adt):
        a = self.adts.get(adt)
        if a is None:
            return self.ext.get(adt)
        return {int(v['d']): v['name'] for v in a['vars'] if 'd' in v}

    def resolve(self, t, fuzzy=True):
        """Local bodies a call terminator may enter."""
        c = callee(t)
        if c is None:
            return []
        if c in self.fns:
            r = [self.fns[c]]
            k = 2
            while '%s#%d' % (c, k) in self.fns:
                r.append(self.fns['%s#%d' % (c, k)])
                k += 1
            if len(r) > 1:
                # prefer the exact raw path
                raw = t['f']['fn'].get('resolved', t['f']['fn']['path'])
                ex = [b for b in r if b.raw == raw]
                if ex:
                    return ex
            d = callee_decl(t)
            if fuzzy and d in self.trait_impls and c == d:
                return r + self.trait_impls[d]
            return r
        if fuzzy:
            d = callee_decl(t)
            if d in self.trait_impls:
                return list(self.trait_impls[d])
        return []

    def fn(self, suffix):
        """unique function whose canonical path ends with suffix (at a :: boundary)"""
        r = [b for p, b in self.fns.items() if p == suffix or p.endswith('::' + suffix)]
        return r

    def callgraph(self):
        if getattr(self, '_cg', None) is None:
            cg = {}
            for p, b in self.fns.items():
                s = set()
                for _, t in b.calls():
                    for x in self.resolve(t):
                        s.add(x.path)
                # closures constructed here
                for blk in b.blocks:
                    for st in blk['s']:
                        if st['k'] == '=' and st['r']['k'] == 'agg' and st['r']['a'] == 'closure':
                            c = canon(st['r']['def'])
                            if c in self.fns:
                                s.add(c)
                    # fn items passed as values
                    if blk['t']['k'] == 'call':
                        for a in blk['t']['a']:
                            if a['k'] == 'const' and 'fn' in a:
                                c = canon(a['fn'].get('resolved', a['fn']['path']))
                                if c in self.fns:
                                    s.add(c)
                cg[p] = s
            self._cg = cg
        return self._cg

    def reach(self, roots):
        cg = self.callgraph()
        seen = set()
        par = {}
        q = deque()
        for r in roots:
            if r not in seen:
                seen.add(r)
                q.append(r)
        while q:
            x = q.popleft()
            for y in cg.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    par[y] = x
                    q.append(y)
        return seen, par


# ---------------------------------------------------------------- printing
def fmt_place(pl):
    s = '_%d' % pl['l']
    for e in pl['p']:
        if e[0] == '*':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.' + e[1]
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        elif e[0] == 'c':
            s += '[%s%d]' % ('-' if e[3] else '', e[1])
        elif e[0] == 'd':
            s = '(%s as %s)' % (s, e[1])
        else:
            s += '[..]'
    return s


def fmt_op(o):
    if o['k'] in ('copy', 'move'):
        return ('' if o['k'] == 'copy' else 'move ') + fmt_place(o['pl'])
    if o['k'] == 'const':
        if 'fn' in o:
            return canon(o['fn'].get('resolved', o['fn']['path']))
        if 'v' in o:
            return '%s:%s' % (o['v'], o['ty'])
        return canon(o.get('def', o.get('s', '?')))
    return '?'


def fmt_rv(r):
    k = r['k']
    if k == 'use':
        return fmt_op(r['o'])
    if k == 'ref':
        return '&' + ('mut ' if r['mut'] else '') + fmt_place(r['pl'])
    if k == 'bin':
        return '%s(%s, %s)' % (r['op'], fmt_op(r['a']), fmt_op(r['b']))
    if k == 'un':
        return '%s(%s)' % (r['op'], fmt_op(r['o']))
    if k == 'cast':
        return '%s as %s' % (fmt_op(r['o']), canon(r['ty']))
    if k == 'disc':
        return 'disc(%s)' % fmt_place(r['pl'])
    if k == 'agg':
        h = {'adt': lambda: canon(r['adt']) + '::' + r['var'], 'closure': lambda: canon(r['def'])}.get(r['a'], lambda: r['a'])()
        return '%s{%s}' % (h, ', '.join(fmt_op(o) for o in r['o']))
    if k == 'rawptr':
        return '&raw ' + fmt_place(r['pl'])
    return k


def fmt_term(t):
    k = t['k']
    if k == 'call':
        return '%s = %s(%s) -> %s' % (fmt_place(t['d']), fmt_op(t['f']), ', '.join(fmt_op(a) for a in t['a']), t['t'])
    if k == 'switch':
        return 'switch %s %s else %s' % (fmt_op(t['o']), t['v'], t['ow'])
    if k == 'assert':
        return 'assert %s==%s [%s] -> %s' % (fmt_op(t['o']), t['exp'], t['m'], t['t'])
    if k == 'drop':
        return 'drop %s -> %s' % (fmt_place(t['pl']), t['t'])
    if k == 'goto':
        return 'goto %s' % t['t']
    return k


def show(b, cleanup=False):
    out = ['fn %s (%s:%s)' % (b.path, b.file, b.line)]
    for i, t in enumerate(b.locals):
        out.append('  let _%d: %s %s' % (i, canon(t), b.names.get(i, '')))
    for i, blk in enumerate(b.blocks):
        if blk['c'] and not cleanup:
            continue
        out.append(' bb%d:' % i)
        for s in blk['s']:
            if s['k'] == '=':
                out.append('    %s = %s   // %s' % (fmt_place(s['d']), fmt_rv(s['r']), s['sp'][1]))
            elif s['k'] == 'setdisc':
                out.append('    disc(%s) = %s' % (fmt_place(s['d']), s['var']))
        out.append('    %s   // %s' % (fmt_term(blk['t']), blk['t']['sp'][1]))
    return '\n'.join(out)
