"""C06: on every path on which an internal call has returned a failure, the function
ends by reporting a failure: failing return value, error stored where the next call
or the other thread reads it, or abort."""
from .. import fault

EXPLAIN = ('Path-sensitive typestate over the MIR of every function of the library: each call whose result type '
           'can carry a failure (crate result enums, Result<_, E> with E != (), tuples and nested enums of those, the '
           'integer result of the brotli encoder, an error cell captured by a callback) forks a failing and a '
           'non-failing path; a failing path must end in a failing return value, in a hand-over of the error value '
           '(argument of a crate function, store into an error field) or in a panic.')
ASSUME = ['Result<_, ()> is a protocol answer (queue full, nothing stored), not an error',
          'std::io::ErrorKind::Interrupted is a retry request',
          'the callee that receives an error value by argument keeps it (C09/C10 check the stream error field)']

# (predicate on (function, callee-last, callee), reason); one named symbol each
EXEMPT = [
    (lambda fn, last, cal: 'threading::ThreadToMainDemuxer' in fn and 'ThreadToMain' in cal and last != 'pull_data',
     'ThreadToMainDemuxer methods without a result: the failure is sticky in the queue and the worker loop re-reads it before it acts'),
    (lambda fn, last, cal: last == 'finish_parsing_header_serial',
     'DivansDecompressor::decode: can fail only on a window size that the header parser has already rejected'),
    (lambda fn, last, cal: 'codec::literal::LiteralState' in fn and last == 'drain_or_fill_static_buffer',
     'the literal fast path: the refill status of the last byte is asked again before the next symbol is coded (C02)'),
]
# functions that must be among the analysed call sites (public entry points)
MUST = ['interface::Compressor>::encode', 'interface::Compressor>::flush', 'interface::Compressor>::encode_commands',
        'interface::Decompressor>::decode']


def sweep(crate, rep, rid, exempt=(), fail_ints=frozenset([3]), cap=300, only=None, sinks=()):
    used = set()
    for p, b in sorted(crate.fns.items()):
        if b.path.startswith('<') and ' as core::fmt::' in b.path:
            continue
        if only is not None and not only(b):
            continue

        def ex(site, t):
            for i, (f, why) in enumerate(exempt):
                if f(site[0], site[1], site[2]):
                    used.add(i)
                    return True
            return False
        m, s = fault.analyse(crate, b, fail_ints=fail_ints, exempt_calls=(ex,), cap=cap, sink_calls=sinks)
        if not m.sites:
            continue
        rep.fns.add(p)
        rep.count('failing call sites', len(m.sites))
        rep.count('error hand-overs', len(m.sunk))
        rep.count('abstract states', s.steps)
        seen = {}
        for site, tr in m.bad:
            seen.setdefault(site, tr)
        for site in sorted(m.sites):
            pass
        allsites = set(m.sites) | set(seen)
        for site in sorted(allsites):
            key = '%s<-%s' % (p, site[1])
            if site in seen:
                rep.bad(rid, key, m.sites.get(site, '%s:%s' % (b.file, b.line)),
                        '%s: a failure of `%s` can end in a return that does not report it' % (p, site[2]), seen[site])
            else:
                rep.ok(rid, key)
    return used


def check(ctx, rep):
    rep.rule('fail-edge', 'a path on which a call failed reports a failure')
    for f, why in EXEMPT:
        rep.notes.append(why)
    used = sweep(ctx.lib, rep, 'fail-edge', EXEMPT)
    rep.count('named exceptions in use', len(used))
    rep.floor('failing call sites', 90)
    for m in MUST:
        rep.anchor(m, any(m in p for p in rep.fns))
