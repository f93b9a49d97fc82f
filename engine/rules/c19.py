"""C19: exit status of the divans command."""
from .. import fault, flow, iomon, mir
from ..mir import callee_decl
from .c06 import sweep

EXPLAIN = ('Path-sensitive typestate over the MIR of the command-line program: (1) a path on which a call failed ends in a '
           'failing return or a panic, and main, which returns nothing, must panic; (2) every path that wrote to the output '
           'flushes it before success; (3) a read that hits the end of the input while the decoder still wants more ends in '
           'an error; (4) an Interrupted read or write is retried; (5) no exit call with status 0.')
ASSUME = ['a panic in main is a nonzero exit status', 'reads and writes through std buffered helpers (read_line, write_all) retry Interrupted themselves']

EXEMPT = [
    (lambda fn, last, cal: fn.startswith('command_parse') and cal.endswith('str::parse'),
     'the speed lists of the text IR are optional: the first token that is not a number ends the list'),
]


def retry(cr, rep, reached):
    """every direct Read::read / Write::write call site; a helper that only forwards one is
    looked at inside its callers"""
    direct = set(p for p in reached if any(iomon.io_op(t) in ('read', 'write') for _, t in cr.fns[p].calls()))
    asks = set(p for p in direct if any((callee_decl(t) or '').endswith('Error::kind') for _, t in cr.fns[p].calls()))
    callers = {}
    for p in reached:
        for q in cr.callgraph().get(p, ()):
            callers.setdefault(q, set()).add(p)
    fwd = set(p for p in direct - asks if callers.get(p))
    roots = set(asks) | (direct - fwd)
    for h in fwd:
        roots |= callers[h]
    pol = fault.inline_policy(cr)

    def want(caller, t, cands, stack):
        if len(cands) == 1 and cands[0].path in fwd:
            return cands[0]
        return pol(caller, t, cands, stack)
    for p in sorted(roots - fwd):
        ib = flow.IBody(cr, cr.fns[p], want)
        m, s = iomon.run(cr, ib, iomon.Retry)
        rep.fns.add(p)
        for k in m.sites:
            rep.count('direct reads and writes')
            rep.check('retry', '%s:%s' % k, k not in m.bad, m.sites[k], m.bad[k][0] if k in m.bad else '', m.bad[k][1] if k in m.bad else None)


def check(ctx, rep):
    B = ctx.bin
    rep.rule('fail-edge', 'a path on which a call failed ends in a failing return or a panic')
    rep.rule('flush', 'output is flushed before success is returned')
    rep.rule('eof', 'end of input before the end of the stream is an error')
    rep.rule('retry', 'an Interrupted read or write is retried')
    rep.rule('exit', 'no call that ends the process with status 0')
    if not rep.anchor('main', 'main' in B.fns):
        return
    reached, _ = B.reach(['main'])
    sweep(B, rep, 'fail-edge', EXEMPT, fail_ints=frozenset(), cap=200, only=lambda b: b.path in reached)
    rep.floor('failing call sites', 40)
    for p in sorted(reached):
        for bi, t in B.fns[p].calls():
            d = callee_decl(t) or ''
            if d.endswith('process::exit'):
                a = t['a'][0]
                rep.check('exit', p, 'v' in a and a['v'] != 0, '%s:%s' % tuple(t['sp'][:2]), '%s ends the process with a status that is not a nonzero constant' % p)
    rep.ok('exit', 'main')
    # ---- retry: per function that reads or writes directly
    retry(B, rep, reached)
    rep.floor('direct reads and writes', 5)
    # ---- flush: per operation started by main
    writers = iomon.reaching(B, lambda t: iomon.io_op(t) in ('write', 'write_all', 'flush') and 'Stderr' not in (mir.callee(t) or ''))
    starters = sorted(set(x.path for _, t in B.fns['main'].calls() for x in B.resolve(t)) & writers)

    def want(caller, t, cands, stack):
        return cands[0] if len(cands) == 1 and cands[0].path in writers else None
    for p in starters:
        ib = flow.IBody(B, B.fns[p], want)
        m, s = iomon.run(B, ib, iomon.Flush)
        rep.fns.add(p)
        rep.count('operations that write', 1)
        for k in sorted(m.sites):
            key = '%s via %s:%s' % (p, k[0], k[1])
            rep.check('flush', key, k not in m.bad, m.sites[k], '%s: %s' % (p, m.bad[k][0]) if k in m.bad else '', m.bad[k][1] if k in m.bad else None)
    rep.floor('operations that write', 4)
    # ---- eof
    dec = iomon.reaching(B, lambda t: (callee_decl(t) or '').endswith('Decompressor::decode'))
    rd = iomon.reaching(B, lambda t: iomon.io_op(t) == 'read')

    def want2(caller, t, cands, stack):
        return cands[0] if len(cands) == 1 and cands[0].path in (dec | rd) else None
    n = 0
    for p in sorted(dec & rd & reached):
        # outermost loop function: one that itself or through helpers both reads and decodes
        if p == 'main' or not any(iomon.io_op(t) == 'read' or (callee_decl(t) or '').endswith('Decompressor::decode') for _, t in B.fns[p].calls()):
            continue
        ib = flow.IBody(B, B.fns[p], want2)
        ops = set()
        for bi in ib.live_blocks:
            t = ib.blocks[bi]['t']
            if t['k'] == 'call':
                if iomon.io_op(t) == 'read':
                    ops.add('read')
                if (callee_decl(t) or '').endswith('Decompressor::decode'):
                    ops.add('decode')
        if ops != {'read', 'decode'} or 'decode' not in [o for o in ops]:
            continue
        if not any((callee_decl(t) or '').endswith('Decompressor::decode') for _, t in B.fns[p].calls()):
            continue
        m, s = iomon.run(B, ib, iomon.Eof)
        rep.fns.add(p)
        n += 1
        for k in sorted(m.sites):
            if k[1] == 'read':
                rep.check('eof', '%s via %s' % (p, k[0]), k not in m.bad, m.sites[k], '%s: %s' % (p, m.bad[k][0]) if k in m.bad else '', m.bad[k][1] if k in m.bad else None)
    rep.count('decode loops over a reader', n)
    rep.floor('decode loops over a reader', 1)
