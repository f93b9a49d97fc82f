"""C12: the C interface checks its pointers and reports what the codec reported."""
import os
import re
from .. import flow
from ..mir import canon, callee, callee_decl

EXPLAIN = ('Path-sensitive typestate over every exported function with the helpers of the C interface inlined: on each path the '
           'status returned is the code of the result the codec returned on that path, and a failure code when the codec was not '
           'called; a raw pointer is dereferenced, turned into a slice or written through only where it was found not NULL on that '
           'path; a slice takes the length that belongs to its pointer. Constants and prototypes of the C header are compared with '
           'the exported symbols and constants.')
ASSUME = ['a non-NULL pointer a C program passes is valid for the size it passes with it',
          'divans_*_malloc_* / divans_*_free_* / divans_free_* require a live state (no way to report)']
CODES = {'Success': 0, 'NeedsMoreInput': 1, 'NeedsMoreOutput': 2, 'Failure': 3}
RES = ('DivansResult', 'DivansOutputResult', 'DivansInputResult')
CTY = {'u8': 'uint8_t', 'u32': 'uint32_t', 'usize': 'size_t', '()': 'void'}


class Mon(flow.Monitor):
    """mon = (codec outcome or None, frozenset of roots known not NULL, asked options)"""
    init = ((), frozenset())

    def __init__(self, cr, ib, exports):
        self.cr = cr
        self.ib = ib
        self.exports = exports
        self.bad = {}
        self.n = {}
        self.setopt = any('DivansOptionSelect' in ib.locals[i] for i in range(1, ib.argc + 1))

    def flag(self, sim, rule, key, sp, msg):
        if (rule, key) not in self.bad:
            self.bad[(rule, key)] = (msg, sim.trace(), '%s:%s' % tuple(sp[:2]))

    def hit(self, k, w):
        self.n.setdefault(k, set()).add(w)

    def root(self, o, d=0):
        """where a pointer or length operand comes from: ('arg', i) / ('call', block) / None"""
        if 'pl' not in o:
            return ('const', o.get('v', o.get('s')))
        pl = o['pl']
        if pl['p']:
            if pl['p'][0][0] == '*' or True:
                return ('mem', self.ib.norm(pl))
        return self.rootl(pl['l'], d)

    def rootl(self, l, d=0):
        if 1 <= l <= self.ib.argc:
            return ('arg', l)
        ds = self.ib.defs.get(l, ())
        if d > 30 or len(ds) != 1:
            return ('loc', l)
        if ds[0][0] == 'call':
            t = ds[0][1]
            dd = callee_decl(t) or ''
            if 'transmute' in dd or dd.endswith('::cast') or dd.endswith('as_mut_ptr') or dd.endswith('as_ptr'):
                return self.root(t['a'][0], d + 1)
            return ('call', ds[0][2])
        r = ds[0][1]
        if r['k'] in ('use', 'cast'):
            return self.root(r['o'], d + 1)
        if r['k'] in ('rawptr', 'ref'):
            return ('mem', self.ib.norm(r['pl'])) if r['pl']['p'] else ('local', r['pl']['l'])
        return ('loc', l)

    def need(self, sim, mon, o, what, sp):
        r = self.root(o) if isinstance(o, dict) else self.rootl(o)
        if r[0] == 'mem' or r[0] == 'local':
            return
        self.hit('pointer uses', (self.ib.path, sim.cur[0], what))
        if r not in mon[1]:
            self.flag(sim, 'null', '%s:%s' % (self.name(r), what), sp, '`%s` is %s on a path on which it may be NULL' % (self.name(r), what))

    def params(self, o):
        """pointer parameters of the exported function an operand comes from"""
        out = set()
        seen = set()
        work = [o['pl']['l']] if 'pl' in o else []
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            if 1 <= l <= self.ib.argc:
                if self.ib.locals[l].startswith('*'):
                    out.add(l)
                continue
            for d in self.ib.defs.get(l, ()):
                if d[0] == 'rv':
                    work += flow.rv_locals(d[1])
                else:
                    dd = (callee_decl(d[1]) or '').split('::')[-1]
                    args = d[1]['a'][:1] if dd.startswith('from_raw_parts') else d[1]['a']
                    for a in args:
                        work += flow.op_locals(a)
        return out

    def name(self, r):
        if r[0] == 'arg':
            return self.ib.name(r[1])
        if r[0] == 'call':
            return 'the memory just allocated'
        return 'a pointer'

    def derefs(self, sim, mon, pls, sp):
        for pl in pls:
            if pl['p'] and pl['p'][0][0] == '*' and self.ib.locals[pl['l']].startswith('*'):
                ds = self.ib.defs.get(pl['l'], ())
                if len(ds) == 1 and ds[0][0] == 'rv' and ds[0][1]['k'] == 'cast' and 'Transmute' in ds[0][1]['ck']:
                    continue
                self.need(sim, mon, pl['l'], 'dereferenced', sp)

    def stmt(self, sim, f, bi, s, mon):
        if s['k'] == '=':
            r = s['r']
            pls = [s['d']] + [o['pl'] for o in flow.rv_operands(r) if 'pl' in o]
            if 'pl' in r:
                pls.append(r['pl'])
            self.derefs(sim, mon, pls, s['sp'])
        return mon

    def call(self, sim, f, bi, t, mon):
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        self.derefs(sim, mon, [a['pl'] for a in t['a'] if 'pl' in a], t['sp'])
        if d.startswith('core::ptr::') and last == 'is_null':
            r = self.root(t['a'][0])
            sim.forks = [((mon[0], mon[1]), {(): ('int', frozenset([1]))}),
                         ((mon[0], mon[1] | frozenset([r])), {(): ('int', frozenset([0]))})]
            if r in mon[1]:
                sim.forks = sim.forks[1:]
            return mon
        if d.startswith('core::ptr::') and last in ('as_mut', 'as_ref'):
            r = self.root(t['a'][0])
            self.hit('pointer tests', (self.ib.path, bi))
            sim.forks = [(mon, frozenset(['None'])), ((mon[0], mon[1] | frozenset([r])), frozenset(['Some']))]
            return mon
        if last in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in d:
            self.need(sim, mon, t['a'][0], 'turned into a slice', t['sp'])
            p, n = self.root(t['a'][0]), self.root(t['a'][1])
            self.hit('slices', (self.ib.path, bi))
            if p[0] == 'arg' and n != ('arg', p[1] + 1) and n != ('const', 0):
                self.flag(sim, 'length', self.name(p), t['sp'], 'the slice of `%s` does not have the length passed with it' % self.name(p))
            return mon
        if d in ('core::ptr::write', 'core::ptr::read', 'core::ptr::copy', 'core::ptr::copy_nonoverlapping', 'core::ptr::write_bytes') \
                or (d.startswith('core::ptr::mut_ptr') and last in ('write', 'read', 'add', 'offset')):
            self.need(sim, mon, t['a'][0], 'written through' if 'write' in last else 'read through', t['sp'])
            return mon
        ty = canon(t.get('dty', '')).split('::')[-1]
        if ty in RES and self.cr.resolve(t):
            self.hit('codec calls', (self.ib.path, bi))
            seq = [self.params(a) for a in t['a']]
            seq = [x for x in seq if x]
            ok = all(len(x) == 1 for x in seq)
            flat = [y for x in seq for y in x]
            have = [i for i in range(1, self.ib.argc + 1) if self.ib.locals[i].startswith('*')]
            if ok and flat != have:
                self.flag(sim, 'order', d.split('::')[-1], t['sp'], 'the codec is called with the parameters %s instead of %s' % ([self.ib.name(x) for x in flat], [self.ib.name(x) for x in have]))
            names = list(CODES)
            if ty == 'DivansOutputResult':
                names.remove('NeedsMoreInput')
            if ty == 'DivansInputResult':
                names.remove('NeedsMoreOutput')
            sim.forks = [(((n,), mon[1]), frozenset([n])) for n in names]
            return mon
        return mon

    def ret(self, sim, f, bi, mon):
        if self.ib.locals[0] != 'u8':
            return
        v = f.get((0, ()))
        vals = v[1] if v is not None and v[0] == 'int' else None
        self.hit('status returns', (self.ib.path, mon[0]))
        sp = self.ib.blocks[bi]['t']['sp']
        if mon[0]:
            want = CODES[mon[0][0]]
            if vals != frozenset([want]):
                self.flag(sim, 'status', mon[0][0], sp, 'when the codec returns %s the status is %s instead of %d' % (mon[0][0], sorted(vals) if vals else 'unknown', want))
        elif not self.isopt():
            if vals != frozenset([3]):
                self.flag(sim, 'status', 'no codec call', sp, 'a path that never calls the codec returns %s instead of the failure code' % (sorted(vals) if vals else 'an unknown status'))
        elif not self.sawstate(mon):
            if vals != frozenset([3]):
                self.flag(sim, 'status', 'no state', sp, 'a path without a state returns %s instead of the failure code' % (sorted(vals) if vals else 'an unknown status'))

    def sawstate(self, mon):
        return ('arg', 1) in mon[1]

    def isopt(self):
        return not any('*' in self.ib.locals[i] and 'State' not in self.ib.locals[i] for i in range(1, self.ib.argc + 1))


def keep(k, v):
    return v[0] in ('var', 'disc', 'cmp') or (v[0] == 'int' and len(v[1]) <= 4)


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('status', 'the status returned is the code of what the codec reported, and failure when it was not called')
    rep.rule('null', 'a raw pointer is used only where it was found not NULL')
    rep.rule('length', 'a slice has the length that belongs to its pointer')
    rep.rule('order', 'each buffer and offset reaches the codec in its own place')
    rep.rule('header', 'the C header and the exported symbols and constants agree')
    ex = {canon(e['path']): e for e in cr.j['externs']}

    def want(caller, t, cands, stack):
        if len(cands) != 1 or len(stack) > 5:
            return None
        p = cands[0].path
        ty = canon(t.get('dty', '')).split('::')[-1]
        if ty in RES:
            return None
        if p.lstrip('<').startswith('ffi::') and len(cands[0].blocks) < 250 and 'alloc_util' not in cands[0].file:
            return cands[0]
        return None
    tot = {}
    for p, e in sorted(ex.items()):
        b = cr.fns.get(p)
        if b is None:
            continue
        codec = e['ret'] == 'u8'
        ctor = e['ret'].startswith('*') and 'State' in e['ret']
        if not (codec or ctor):
            continue
        ib = flow.IBody(cr, b, want)
        m = Mon(cr, ib, ex)
        s = flow.Sim(ib, m, cap=400, keep=keep).run()
        rep.fns.add(p)
        for k, v in m.n.items():
            tot.setdefault(k, set()).update(v)
        rep.count('abstract states', s.steps)
        for (rule, key), (msg, tr, wh) in m.bad.items():
            rep.bad(rule, '%s:%s' % (e['name'], key), wh, '%s: %s' % (e['name'], msg), tr)
        hit = set(k[0] for k in m.bad)
        for rule in (('status',) if codec else ()) + ('null', 'length', 'order'):
            if rule not in hit:
                rep.ok(rule, e['name'])
    for k, v in sorted(tot.items()):
        rep.count(k, len(v))
    rep.floor('codec calls', 3)
    rep.floor('status returns', 12)
    rep.floor('slices', 2)
    rep.floor('pointer tests', 4)
    header(ctx, rep, ex)
    sizes(cr, rep, ex)


PRIM = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8,
        'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}
BIG = 1000003


def tsize(t, want):
    """a stand-in for the size of type t when memory for type `want` is wanted; None: not known"""
    t, want = canon(t), canon(want)
    if t in PRIM:
        return PRIM[t]
    if t == want or want in t:
        return BIG
    if t.startswith(('*', '&')):
        return 8
    if re.match(r'[A-Z]\w*$', t) or re.match(r'[A-Z]\w*$', want):
        return None
    return 16


def value(ib, o, want, n, d=0):
    """the number an operand stands for when every usize parameter is n; None: not known"""
    if 'pl' not in o:
        return o.get('v') if isinstance(o.get('v'), int) else None
    pl = o['pl']
    l = pl['l']
    if d > 40 or pl['p'] and not (len(pl['p']) == 1 and pl['p'][0][:2] == ['f', '0']):
        return None
    if 1 <= l <= ib.argc:
        return n if ib.locals[l] == 'usize' and not pl['p'] else None
    ds = ib.defs.get(l, ())
    if len(ds) != 1:
        return None
    if ds[0][0] == 'call':
        t = ds[0][1]
        c = (callee_decl(t) or '').split('::')[-1]
        g = t['f'].get('fn', {}).get('gargs') or ['']
        if c in ('size_of', 'size_of_val'):
            return tsize(g[0], want)
        if c in ('wrapping_mul', 'saturating_mul', 'wrapping_add', 'saturating_add', 'wrapping_sub', 'saturating_sub', 'max', 'min') and len(t['a']) == 2:
            x, y = value(ib, t['a'][0], want, n, d + 1), value(ib, t['a'][1], want, n, d + 1)
            if x is None or y is None:
                return None
            k = c.split('_')[-1]
            return {'mul': x * y, 'add': x + y, 'sub': max(x - y, 0), 'max': max(x, y), 'min': min(x, y)}[k]
        return None
    r = ds[0][1]
    if r['k'] in ('use', 'cast'):
        return value(ib, r['o'], want, n, d + 1)
    if r['k'] == 'bin':
        x, y = value(ib, r['a'], want, n, d + 1), value(ib, r['b'], want, n, d + 1)
        if x is None or y is None:
            return None
        op = r['op'].replace('WithOverflow', '').replace('Unchecked', '')
        f = {'Mul': lambda: x * y, 'Add': lambda: x + y, 'Sub': lambda: max(x - y, 0), 'Div': lambda: x // y if y else None,
             'Rem': lambda: x % y if y else None, 'Shl': lambda: x << y if y < 64 else None, 'Shr': lambda: x >> y if y < 64 else None,
             'BitAnd': lambda: x & y, 'BitOr': lambda: x | y}.get(op)
        return f() if f else None
    return None


def sizes(cr, rep, ex):
    """memory asked of the caller's allocation function is as large as what goes into it"""
    rep.rule('size', "the memory asked of the caller's allocation function holds what is put into it")

    def want(caller, t, cands, stack):
        if len(cands) == 1 and len(stack) <= 5 and cands[0].path.lstrip('<').startswith('ffi::') and len(cands[0].blocks) < 60 \
                and not cands[0].path.startswith('<ffi::alloc_util'):
            return cands[0]
        return None
    done = open_ = handed = 0
    for p, b in sorted(cr.fns.items()):
        e = ex.get(p)
        if e is None and not (p.startswith('<ffi::') and 'Allocator as ' in p):
            continue
        ib = flow.IBody(cr, b, want)
        for bi in ib.live_blocks:
            t = ib.blocks[bi]['t']
            if t['k'] != 'call' or 'fn' in t['f'] or len(t['a']) != 2:
                continue
            nm = e['name'] if e else p
            freed = not t.get('dty', '').startswith('*mut')
            o = origin(ib, t['a'][0])
            handed += 1
            rep.check('order', '%s:opaque of %s' % (nm, 'free' if freed else 'alloc'), o is None or o[0] == 'field' and o[1] == 'opaque', '%s:%s' % tuple(t['sp'][:2]),
                      "%s: the caller's %s function is not given the caller's own `opaque`" % (nm, 'free' if freed else 'allocation'))
            if freed:
                o = origin(ib, t['a'][1])
                w = max([i for i in range(1, ib.argc + 1) if ib.locals[i].startswith('*')] or [0])
                if e is not None and w:
                    rep.check('order', nm + ':freed', o is None or o == ('arg', w), '%s:%s' % tuple(t['sp'][:2]),
                              "%s: the caller's free function is not given `%s`" % (nm, ib.name(w)))
                continue
            for ty, num, what in uses(ib, t['d']['l'], e):
                if canon(ty).split('::')[-1] == 'c_void':
                    continue
                short = []
                unknown = False
                for n in (1, 3, 1000):
                    have = value(ib, t['a'][1], ty, n)
                    cnt = num if num is None or isinstance(num, int) else value(ib, num, ty, n)
                    if num is None:
                        cnt = n
                    sz = PRIM.get(canon(ty), BIG)
                    if have is None or cnt is None:
                        unknown = True
                    elif have < cnt * sz:
                        short.append(n)
                if unknown:
                    open_ += 1
                    continue
                done += 1
                rep.check('size', '%s:%s' % (nm, what), not short, '%s:%s' % tuple(t['sp'][:2]),
                          "%s: the memory asked of the caller's allocation function is smaller than the `%s` %s" % (nm, canon(ty).split('::')[-1], what))
    rep.count('allocations sized', done)
    rep.count('calls of the functions of the caller', handed)
    rep.count('allocations whose size was not followed', open_)


def origin(ib, o, d=0):
    """('field', name) / ('arg', i) / ('const',): where an operand comes from; None: not known"""
    if 'pl' not in o:
        return ('const',)
    pl = o['pl']
    fs = [x[1] for x in pl['p'] if x[0] == 'f']
    if fs:
        return ('field', fs[-1])
    l = pl['l']
    if pl['p'] or d > 30:
        return None
    if 1 <= l <= ib.argc:
        return ('arg', l)
    ds = ib.defs.get(l, ())
    if len(ds) != 1:
        return None
    if ds[0][0] == 'call':
        t = ds[0][1]
        c = (callee_decl(t) or '').split('::')[-1]
        if c in ('null', 'null_mut'):
            return ('const',)
        return origin(ib, t['a'][0], d + 1) if t['a'] and c in ('transmute', 'cast', 'clone') else None
    r = ds[0][1]
    return origin(ib, r['o'], d + 1) if r['k'] in ('use', 'cast') else None


def uses(ib, l, e):
    """(element type, count operand / 1 / None = the parameter, what happens) of the memory in local l"""
    seen = set([l])
    out = []
    while True:
        n = len(seen)
        for bi in ib.live_blocks:
            b = ib.blocks[bi]
            for s in b['s']:
                if s['k'] == '=' and not s['d']['p'] and s['r']['k'] in ('use', 'cast') and s['r']['o'].get('pl', {}).get('l') in seen \
                        and not s['r']['o']['pl']['p'] and ib.locals[s['d']['l']].startswith('*'):
                    seen.add(s['d']['l'])
            t = b['t']
            if t['k'] == 'call' and t['a'] and 'pl' in t['a'][0] and t['a'][0]['pl']['l'] in seen and not t['a'][0]['pl']['p'] \
                    and t.get('dty', '').startswith('*') and (callee_decl(t) or '').split('::')[-1] in ('cast', 'transmute'):
                seen.add(t['d']['l'])
        if len(seen) == n:
            break
    for bi in sorted(ib.live_blocks):
        t = ib.blocks[bi]['t']
        if t['k'] != 'call' or not t['a'] or 'pl' not in t['a'][0] or t['a'][0]['pl']['l'] not in seen or t['a'][0]['pl']['p']:
            continue
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        g = t['f'].get('fn', {}).get('gargs') or ['']
        if last == 'write' and 'ptr' in d:
            out.append((g[0], 1, 'written to it'))
        elif last in ('from_raw_parts', 'from_raw_parts_mut') and 'slice' in d:
            out.append((g[0], t['a'][1], 'slice made of it'))
    if e is not None and 0 in seen:
        us = [i for i in range(1, ib.argc + 1) if ib.locals[i] == 'usize']
        if len(us) < 2:
            out.append((ib.locals[0].split(' ', 1)[1], None if us else 1, 'memory returned'))
    return out


def header(ctx, rep, ex):
    cr = ctx.lib
    path = os.path.join(ctx.repo, 'c', 'divans', 'ffi.h')
    if not rep.anchor('c/divans/ffi.h', os.path.exists(path)):
        return
    src = open(path).read()
    src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
    src = re.sub(r'//[^\n]*', ' ', src)
    rust = {k.split('::')[-1]: v for k, v in cr.consts.items() if k.startswith('ffi::') and k.split('::')[-1].startswith('DIVANS_')}
    defs = dict(re.findall(r'#define\s+(DIVANS_\w+)\s+(.+)', src))
    n = 0
    for k in sorted(set(rust) | set(defs)):
        hv = re.findall(r'(?<![A-Za-z_])\d+', re.sub(r'\(\s*u?int\d+_t\s*\)', '', defs.get(k, '')))
        hv = int(hv[0]) if hv else None
        n += 1
        rep.check('header', k, k in rust and hv == rust[k], 'c/divans/ffi.h', '%s is %s in the C header and %s in the library' % (k, hv, rust.get(k)))
    rep.count('constants shared with C', n)
    for k, v in sorted(rust.items()):
        if not k.startswith('DIVANS_OPTION_'):
            w = {'DIVANS_' + re.sub(r'(?<!^)([A-Z])', r'_\1', x).upper(): c for x, c in CODES.items()}.get(k)
            rep.check('header', k + ':code', w == v, 'src/ffi/interface.rs', '%s has the value %s, documented as %s' % (k, v, w))
    vals = [v for k, v in rust.items() if k.startswith('DIVANS_OPTION_')]
    rep.check('header', 'options distinct', len(vals) == len(set(vals)), 'src/ffi/interface.rs', 'two options share one selector value')
    src2 = re.sub(r'#[^\n]*', '', src)
    byname = {e['name']: e for e in ex.values()}
    m = 0
    for ret, name, args in re.findall(r'([A-Za-z_][\w \t\*]*?[\s\*])(divans_\w+)\s*\(([^()]*)\)\s*;', src2):
        m += 1
        e = byname.get(name)
        if not rep.check('header', name, e is not None, 'c/divans/ffi.h', 'the header declares %s, which the library does not export' % name):
            continue
        want = [ctype(x) for x in args.split(',') if x.strip() and x.strip() != 'void']
        have = [rtype(x) for x in e['in']]
        rep.check('header', name + ':parameters', want == have, 'c/divans/ffi.h', '%s takes %s in C and %s in Rust' % (name, want, have))
        rep.check('header', name + ':result', ctype(ret + ' x') == rtype(e['ret']), 'c/divans/ffi.h', '%s returns %s in C and %s in Rust' % (name, ctype(ret + ' x'), rtype(e['ret'])))
        rep.check('header', name + ':abi', 'C' in (byname[name]['abi']), 'src/ffi', '%s is not exported with the C calling convention' % name)
    rep.count('prototypes', m)
    rep.floor('prototypes', 9)
    rep.floor('constants shared with C', 24)
    # struct CAllocator
    a = cr.adts.get('ffi::interface::CAllocator')
    if rep.anchor('CAllocator', a is not None):
        sm = re.search(r'struct\s+CAllocator\s*\{(.*?)\}', src2, re.S)
        cf = []
        for fdecl in (sm.group(1).split(';') if sm else []):
            x = re.search(r'\(\s*\*\s*(\w+)\s*\)', fdecl) or re.search(r'(\w+)\s*$', fdecl.strip())
            if x:
                cf.append(x.group(1))
        rf = [f[0] for f in a['vars'][0]['fields']]
        rep.check('header', 'CAllocator', cf == rf and 'IS_C' in a['repr'] or cf == rf and '"C"' in a['repr'] or cf == rf and 'C' in a['repr'], 'c/divans/ffi.h',
                  'CAllocator has the fields %s in C and %s in Rust' % (cf, rf))


def ctype(x):
    x = x.strip()
    stars = x.count('*')
    x = x.replace('*', ' ').replace('const', ' ').replace('struct', ' ')
    w = [y for y in x.split() if y]
    t = w[0] if len(w) >= 1 else 'void'
    t = {'DivansResult': 'uint8_t', 'DivansOptionSelect': 'uint8_t'}.get(t, t)
    return t + '*' * stars


def rtype(t):
    st = 0
    while t.startswith('*'):
        t = t.split(' ', 1)[1]
        st += 1
    t = canon(t).split('::')[-1]
    return CTY.get(t, t) + '*' * st
