"""C14: results depend only on the calls and their arguments."""
from ..mir import canon, callee, callee_decl

EXPLAIN = ('Effect analysis of every library function: no call that reads a clock, randomness, the environment, files, process or '
           'thread identity, or a hash seed; no value of a pointer used as a number; no mutable or interior-mutable static and no '
           'thread-local. The one clock value the library takes must be stored in a field nothing reads.')
ASSUME = ['the dependency brotli is deterministic', 'floating point log2 is a pure function on the platform']
DENY = ('std::time', 'core::time::Instant', 'std::env', 'std::fs', 'std::net', 'std::process', 'std::os', 'std::hash::RandomState', 'std::hash::random',
        'std::collections::hash', 'std::collections::HashMap', 'std::collections::HashSet', 'core::hash::sip', 'std::thread::current',
        'std::thread::Thread', 'std::thread::id', 'std::thread::sleep', 'std::thread::park', 'std::thread::available_parallelism', 'std::thread::local', 'std::thread::LocalKey',
        'std::sys', 'std::random', 'core::arch::x86_64::_rdtsc', 'core::arch::x86_64::_rdrand', 'core::arch', 'core::ptr::const_ptr::addr',
        'core::ptr::mut_ptr::addr', 'core::ptr::hash', 'core::ptr::const_ptr::expose', 'core::ptr::mut_ptr::expose', 'core::ptr::eq', 'core::ptr::addr_eq',
        'core::ptr::NonNull::addr', 'core::any::type_name', 'std::backtrace', 'std::io::stdin', 'std::alloc', 'std::is_x86_feature_detected',
        'std_detect', 'std::sync::mpsc::Receiver::try_recv', 'std::sync::Mutex::try_lock', 'std::sync::Arc::as_ptr', 'std::sync::Arc::ptr_eq',
        'std::sync::Arc::strong_count', 'std::sync::Condvar::wait_timeout', 'core::slice::as_ptr_range', 'core::mem::MaybeUninit', 'core::mem::uninitialized',
        'alloc::sync::Arc::as_ptr', 'alloc::sync::Arc::ptr_eq', 'alloc::sync::Arc::strong_count')


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('source', 'no call that reads a clock, randomness, the environment or an identity; its value may only rest in a field nothing reads')
    rep.rule('address', 'no pointer value is used as a number')
    rep.rule('static', 'no static can change')
    for s in cr.j['statics']:
        rep.check('static', canon(s['path']), not s['mut'] and s['freeze'], '%s:%s' % tuple(s['span'][:2]),
                  'static %s can change between calls' % canon(s['path']))
    rep.count('statics', len(cr.j['statics']))
    reads = None
    for p, b in sorted(cr.fns.items()):
        rep.fns.add(p)
        if p.startswith('<') and ' as core::fmt::' in p:
            continue
        rep.count('functions')
        ok = True
        for bi, blk in enumerate(b.blocks):
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                r = s['r']
                if r['k'] == 'tls':
                    rep.bad('static', p + ':thread-local', '%s:%s' % tuple(s['sp'][:2]), '%s reads a thread-local' % p)
                if r['k'] == 'cast' and ('PointerExposeProvenance' in r['ck'] or 'PointerExposeAddress' in r['ck']
                                         or ('Transmute' in r['ck'] and 'pl' in r['o'] and not r['o']['pl']['p']
                                             and b.locals[r['o']['pl']['l']].startswith(('*', '&')) and r['ty'] in ('usize', 'u64', 'isize', 'i64'))):
                    ok = False
                    rep.bad('address', p, '%s:%s' % tuple(s['sp'][:2]), '%s uses the address of something as a number' % p)
                if r['k'] == 'bin' and 'pl' in r['a'] and not r['a']['pl']['p'] and b.locals[r['a']['pl']['l']].startswith('*'):
                    ok = False
                    rep.bad('address', p + ':compare', '%s:%s' % tuple(s['sp'][:2]), '%s compares addresses' % p)
            t = blk['t']
            if t['k'] != 'call':
                continue
            rep.count('calls')
            d = callee_decl(t) or ''
            c = callee(t) or ''
            if not any(x.startswith(y) for x in (d, c) for y in DENY) and 'RandomState' not in t.get('dty', ''):
                continue
            if 'MaybeUninit' in d and False:
                continue
            if reads is None:
                reads = field_reads(cr)
            rep.count('clock or identity reads')
            w = rests(b, t, reads)
            if w is None:
                rep.ok('source', '%s:%s' % (p, d))
            else:
                ok = False
                rep.bad('source', '%s:%s' % (p, d), '%s:%s' % tuple(t['sp'][:2]), '%s calls %s, and the value %s' % (p, d, w))
        if ok:
            rep.ok('address', p)
    rep.floor('functions', 500)


def field_reads(cr):
    """(adt, field) pairs that are read anywhere (other than being built or dropped)"""
    out = set()

    def use(pl):
        for e in pl['p']:
            if e[0] == 'f':
                out.add((canon(e[2]), e[1]))
    for p, b in cr.fns.items():
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                r = s['r']
                for k in ('o', 'a', 'b'):
                    o = r.get(k)
                    if isinstance(o, dict) and 'pl' in o:
                        use(o['pl'])
                    elif isinstance(o, list):
                        for x in o:
                            if 'pl' in x:
                                use(x['pl'])
                if 'pl' in r:
                    use(r['pl'])
            t = blk['t']
            if t['k'] == 'call':
                for a in t['a']:
                    if 'pl' in a:
                        use(a['pl'])
            elif t['k'] == 'switch' and 'pl' in t['o']:
                use(t['o']['pl'])
    return out


def clones_whole(b):
    return ' as core::clone::Clone>' in b.path


def rests(b, t, reads):
    """None when the value of call t only rests in fields nothing reads"""
    work = [t['d']['l']]
    seen = set()
    if t['d']['p']:
        return 'is stored'
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                r = s['r']
                ops = []
                for k in ('o', 'a', 'b'):
                    o = r.get(k)
                    if isinstance(o, dict):
                        ops.append((None, o))
                    elif isinstance(o, list):
                        ops += list(enumerate(o))
                if 'pl' in r and r['pl']['l'] == l:
                    return 'is used'
                for i, o in ops:
                    if 'pl' in o and o['pl']['l'] == l:
                        if r['k'] == 'use' and not s['d']['p']:
                            work.append(s['d']['l'])
                        elif r['k'] == 'agg' and r['a'] == 'adt':
                            f = (canon(r['adt']), r['fn'][i])
                            if f in reads and not only_clone(b.crate, f):
                                return 'is stored in %s.%s, which is read' % f
                        else:
                            return 'is used'
            tt = blk['t']
            if tt['k'] == 'call':
                for a in tt['a']:
                    if 'pl' in a and a['pl']['l'] == l:
                        return 'is passed on'
            if tt['k'] == 'switch' and 'pl' in tt['o'] and tt['o']['pl']['l'] == l:
                return 'decides a branch'
    return None


def only_clone(cr, f):
    """the field is read only to copy the whole struct"""
    for p, b in cr.fns.items():
        if clones_whole(b) and canon(b.locals[0]) == f[0]:
            continue
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] == '=':
                    pls = []
                    r = s['r']
                    for k in ('o', 'a', 'b'):
                        o = r.get(k)
                        if isinstance(o, dict) and 'pl' in o:
                            pls.append(o['pl'])
                        elif isinstance(o, list):
                            pls += [x['pl'] for x in o if 'pl' in x]
                    if 'pl' in r:
                        pls.append(r['pl'])
                    for pl in pls:
                        if any(e[0] == 'f' and (canon(e[2]), e[1]) == f for e in pl['p']):
                            return False
    return True
