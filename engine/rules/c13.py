"""C13: raw memory is handled only by the C interface."""
from ..mir import canon, callee, callee_decl

EXPLAIN = ('Inventory over the type-checked program of everything that can break memory safety: unsafe blocks (compiler-generated '
           'ones excluded), unsafe functions, unsafe trait impls, mutable statics, statics with interior mutability that are not '
           'Sync by construction, dereferences of raw pointers, calls of raw-pointer intrinsics; each must lie in the module of '
           'the C interface. Exported functions that take a raw pointer must be declared unsafe.')
ASSUME = ['the dependencies (brotli, alloc-no-stdlib) and the standard library are sound',
          'default feature set; cargo feature `simd` adds intrinsics outside the C interface']
GEN = ('desugar:', 'Clone', 'Copy')
RAW = ('core::slice::from_raw_parts', 'core::ptr::read', 'core::ptr::write', 'core::mem::transmute', 'core::mem::zeroed',
       'core::mem::uninitialized', 'core::mem::MaybeUninit', 'core::slice::get_unchecked', 'core::hint::unreachable_unchecked',
       'core::ptr::copy', 'core::str::from_utf8_unchecked', 'core::intrinsics', 'core::ptr::const_ptr', 'core::ptr::mut_ptr',
       'std::boxed::Box::from_raw', 'alloc::boxed::Box::from_raw', 'core::ptr::drop_in_place')


def inside(path):
    p = path.lstrip('<&')
    return p.startswith('ffi::') or p.startswith('dyn ffi::')


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('block', 'no unsafe block outside the C interface')
    rep.rule('fn', 'no unsafe function outside the C interface')
    rep.rule('impl', 'no unsafe trait impl outside the C interface')
    rep.rule('static', 'no mutable static')
    rep.rule('raw', 'no raw-pointer operation outside the C interface')
    rep.rule('decl', 'functions a C program calls with raw pointers are declared unsafe')
    n = 0
    for u in cr.j['unsafe']:
        mac = u['span'][2]
        if mac.startswith('desugar:FormatLiteral'):
            continue
        p = canon(u['in'])
        n += 1
        rep.check('block', p, inside(p), '%s:%s' % (u['span'][0], u['span'][1]), '%s contains an unsafe block outside the C interface' % p)
    rep.count('unsafe blocks written in the source', n)
    for p, b in sorted(cr.fns.items()):
        rep.fns.add(p)
        if b.j.get('unsafe'):
            rep.check('fn', p, inside(p), '%s:%s' % (b.file, b.line), '%s is an unsafe function outside the C interface' % p)
        bad = None
        nr = 0
        for bi, blk in enumerate(b.blocks):
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] == '=' and s['r']['k'] == 'cast' and ('PointerWithExposedProvenance' in s['r']['ck'] or ('PtrToPtr' in s['r']['ck']) or 'Transmute' in s['r']['ck']):
                    if not (s['sp'][2] or '').startswith('desugar'):
                        nr += 1
                        if not box_internal(b, s):
                            bad = bad or ('cast', s['sp'])
                for pl in places(s):
                    if raw_deref(b, pl):
                        nr += 1
                        bad = bad or ('dereference', s['sp'])
            t = blk['t']
            if t['k'] == 'call':
                d = callee_decl(t) or ''
                if any(d == x or d.startswith(x) for x in RAW):
                    nr += 1
                    bad = bad or (d, t['sp'])
        if nr:
            rep.count('functions with raw-pointer operations')
        if inside(p):
            if nr:
                rep.ok('raw', p)
            continue
        rep.check('raw', p, bad is None, '%s:%s' % tuple(bad[1][:2]) if bad else '', '%s: raw-pointer operation (%s) outside the C interface' % (p, bad and bad[0]))
    for i in cr.impls:
        if not i.get('unsafe') or canon(i.get('trait', '')).endswith('TrivialClone'):
            continue
        a = canon(i.get('self_adt', i['self']))
        rep.check('impl', '%s for %s' % (canon(i['trait']), a), inside(a), '%s:%s' % tuple(i['span'][:2]),
                  'unsafe impl of %s for %s outside the C interface' % (canon(i['trait']), a))
    for s in cr.j['statics']:
        rep.check('static', canon(s['path']), not s['mut'], '%s:%s' % tuple(s['span'][:2]), 'mutable static %s' % canon(s['path']))
    rep.count('statics', len(cr.j['statics']))
    for e in cr.j['externs']:
        p = canon(e['path'])
        b = cr.fns.get(p)
        if b is None or not any('*' in x for x in e['in']):
            continue
        rep.count('exported functions with raw pointers')
        rep.check('decl', p, bool(b.j.get('unsafe')), '%s:%s' % (b.file, b.line), '%s takes a raw pointer but can be called from safe Rust' % p)
    rep.floor('exported functions with raw pointers', 8)
    rep.floor('unsafe blocks written in the source', 1)


def box_internal(b, s):
    """Box / NonNull / Unique plumbing that rustc generates for a dereferenced Box"""
    o = s['r']['o']
    if 'pl' not in o:
        return True
    for e in o['pl']['p']:
        if e[0] == 'f' and ('NonNull' in e[2] or 'Unique' in e[2] or 'Box' in e[2]):
            return True
    return False


def places(s):
    if s['k'] != '=':
        return []
    r = s['r']
    out = [s['d']]
    if 'pl' in r:
        out.append(r['pl'])
    for k in ('o', 'a', 'b'):
        o = r.get(k)
        if isinstance(o, dict) and 'pl' in o:
            out.append(o['pl'])
        elif isinstance(o, list):
            out += [x['pl'] for x in o if 'pl' in x]
    return out


def raw_deref(b, pl):
    ty = b.locals[pl['l']]
    for e in pl['p']:
        if e[0] == '*':
            if ty.startswith('*'):
                # a Box that rustc opened
                for bi, si, k, r in b.defs.get(pl['l'], ()):
                    if k == 'rv' and r['k'] == 'cast' and 'Transmute' in r['ck']:
                        return False
                return True
            ty = ''
        elif e[0] == 'f':
            ty = e[3]
        else:
            ty = ''
    return False
