"""C08: finishing a stream writes everything that is still inside the compressor, once and in order."""
import re
from .. import flow, sym
from ..mir import callee_decl
from ..sym import K, num, add, sub, is_const, atom
from . import c02, c20
from .c02v import walk
from .c16 import facts, yes
from .c20 import calls, disc, src_of, turn, held, ret, ROOT, P

EXPLAIN = ('The shutdown of the encoder is followed as a machine: every path through one turn of DivansCodec::internal_flush (engine/sym.py, counting loops run round by round) is one step '
           'from a state to a state, and what is known to have been done in each state is computed as the least that all ways to it have done (the least fixpoint over the steps). '
           'Each action then has to find its preconditions done: a coder is closed after the end marker was coded and its buffered bytes were handed on, once; the multiplexer is '
           'flushed after both coders were closed and drained again; the trailer follows after the multiplexer has written its end marker; success is reported only then; a step whose work did '
           'not succeed moves nowhere. Below it the end marker of the multiplexer and the closing of a coder, above it the flush of both compressors are '
           'checked path by path, and that nothing is coded once the shutdown has begun.')
ASSUME = ['the entropy coder writes out what it holds when it is flushed (value arithmetic)', 'what the trailer consists of is decided by C03',
          'Mux::flush_internal leaves room in the output only when its buffers are empty']
STATE = (ROOT, (('f', 'state'),))
NAMES = {0: 'command', 1: 'literal'}
INL = ('coder_mut', 'drain_or_fill_internal_buffer_lit', 'drain_or_fill_internal_buffer_cmd')


class Pol(c20.Pol):
    unroll = 8


def want(caller, t, cands, stack):
    n = (callee_decl(t) or '').split('::')[-1]
    return cands[0] if n in INL and len(cands) == 1 else None


def paths(cr, p, cap=4000):
    ib = flow.IBody(cr, cr.fns[p], want)
    pol = Pol(cr, None, p)
    S = sym.Sym(ib, pol, cap)
    S.run()
    return ib, S, pol.segs


def sym_at(st, p):
    """the value place p had when the path began"""
    s = sym.State()
    s.mem = st.start[0] if not st.starts else st.starts[0][0]
    return s.read(p)


def coder_of(a):
    """which coder a reference names: 0 the one of commands, 1 the one of literals"""
    if a[0] != 'ref':
        return None
    fs = [x[1] for w in walk(a) if isinstance(w, tuple) for x in [w] if len(x) == 2 and x[0] == 'f']
    if 'lit_coder' in fs:
        return 1
    if 'coder' in fs:
        return 0
    return None


class Step(object):
    pass


def value_at(e, av, n):
    """the linear form e where the atom av has the value n, None if it says anything else too"""
    e = num(e)
    c = e[1]
    for a, k in e[2]:
        if a != av:
            return None
        c += k * n
    return c


def feasible(st, av, n):
    for a, f in facts(st):
        if a == av:
            v = n
        elif a[0] == 'op' and a[1] in ('eq0', 'lt0'):
            x = value_at(a[2], av, n)
            if x is None:
                continue
            v = 1 if (x == 0 if a[1] == 'eq0' else x < 0) else 0
        else:
            continue
        if f[0] == '=' and f[1] != v or f[0] == '!' and v in f[1]:
            return False
    return True


def ok_of(st, v):
    """True when the path has found that the result v is a success, False when it has found that it is not"""
    d = disc(st, v)
    return None if d is None else d == 1


def actions(st):
    """what is done on the path, in order: (token, succeeded, event)"""
    out = []
    for e in st.prev + st.ev:
        if e[0] != 'call':
            continue
        n = e[1].split('::')[-1]
        if n == 'drain_or_fill_static_buffer':
            i = e[2][0]
            out.append((('drain', i[1] if is_const(num(i)) else None), ok_of(st, e[3]), e))
        elif n == 'encode_or_decode_one_command':
            inner = [f[1] for a, f in facts(st) if a[0] == 'disc' and f[0] == '=' and len(src_of(a[1])[1]) > 1 and src_of(a[1])[0] == e[3]]
            deep = sorted(((len(src_of(a[1])[1]), f) for a, f in facts(st) if a[0] == 'disc' and src_of(a[1])[0] == e[3]), key=lambda x: x[0])
            ok = len(deep) >= 3 and deep[-1][1] == ('=', 1)
            out.append((('end',), ok and num(e[2][-1]) == K(1), e))
        elif n == 'close':
            out.append((('close', coder_of(e[2][0])), ok_of(st, e[3]), e))
        elif n == 'flush' and 'uxer' in e[1]:
            out.append((('mux',), True, e))
        elif n == 'wrote_eof':
            f = st.facts.get(num(e[3]))
            f = f if f is not None else st.facts.get(e[3])
            out.append((('eof',), f is not None and yes(f), e))
        elif n == 'finish':
            out.append((('checksum',), True, e))
    return out


def machine(cr, rep, p):
    w = '%s:%s' % c02.b_file(cr, p)
    rep.fns.add(p)
    ib, S, segs = paths(cr, p)
    adt = None
    for a, vs in ((x, cr.variants(x)) for x in cr.adts if x.endswith('EncodeOrDecodeState')):
        if 'ShutdownCoder' in vs.values() and 'MuxDrain' in vs.values():
            adt, names = a, vs
    if not rep.anchor('EncodeOrDecodeState', adt is not None):
        return
    heads = c20.outer(S)
    steps = []
    for kind, bi, st, last in segs:
        if kind == 'enter':
            continue
        s = Step()
        s.st, s.kind, s.head = st, kind, bi
        mem = turn(S, st)
        v0 = held(st, mem, STATE)
        s.ins = set(names.values())
        for f in list(c20.discs(st, v0)) + [f for a, f in facts(st) if a[0] == 'disc' and a[1] in (v0, held(st, mem, (STATE[0], STATE[1] + (('#',),))))]:
            if f[0] == '=':
                s.ins &= {names.get(f[1])}
            else:
                s.ins -= set(names.get(x) for x in f[1])
        tag = mem.get((STATE[0], STATE[1] + (('#',),)))
        if tag is not None and tag[0] == 'var':
            s.ins &= {tag[1]}
        s.mem = mem
        s.inner = kind == 'back' and bi not in heads
        end = st.mem.get((STATE[0], STATE[1] + (('#',),)))
        begin = mem.get((STATE[0], STATE[1] + (('#',),)))
        s.out = end[1] if end is not None and end[0] == 'var' else None
        # state handed to a callee that may change it (encode_or_decode_one_command takes self) does not count as unchanged
        s.acts = actions(st)
        s.answer = None
        if kind == 'ret':
            s.answer = ret(st)
            v = st.mem.get((('l', 0), ()))
            if s.answer is None and v is not None:
                d = disc(st, v)
                s.answer = {0: 'Failure', 1: 'Success', 2: 'NeedsMoreOutput'}.get(d)
        steps.append(s)
    rep.count('steps of the shutdown', len(steps))
    rep.floor('steps of the shutdown', 15)

    def pay(s, name):
        """the number held in the state at the beginning of the step"""
        v = num(held(s.st, s.mem, (STATE[0], STATE[1] + (('d', name), ('f', '0')))))
        return atom(v), v

    def after(s, name, n):
        if s.out is None:
            return (name, n)
        v = num(s.st.read((STATE[0], STATE[1] + (('d', s.out), ('f', '0')))))
        if v[0] == 'L':
            av, v0 = pay(s, name)
            x = v[1] if is_const(v) else value_at(v, av, n) if n is not None and av is not None else None
            return (s.out, x)
        return (s.out, None)

    must, may = {('Begin', None): frozenset()}, {('Begin', None): frozenset()}
    work = [('Begin', None)]
    quiet = {}

    def run(s, node, check):
        done, poss = set(must[node]), set(may[node])
        k = '%s:%s' % (p, node[0])
        for tok, ok, e in s.acts:
            t = tok[0]
            if check:
                if t == 'close':
                    who = NAMES.get(tok[1], '?')
                    rep.check('order', k + ':close', ('end',) in done, w, 'the %s coder may be closed before the end marker was coded' % who)
                    rep.check('order', k + ':drained', ('drain', tok[1]) in done, w, 'the %s coder may be closed while it still holds bytes of before, and then has room for nothing more' % who)
                    rep.check('once', k + ':close', ('close', tok[1]) not in poss, w, 'the %s coder may be closed twice' % who)
                if t == 'mux':
                    for i in (0, 1):
                        rep.check('order', k + ':mux%d' % i, ('rest', i) in done, w, 'the multiplexer may be flushed although the %s coder has not handed on its last bytes' % NAMES[i])
                if t == 'checksum':
                    rep.check('order', k + ':checksum', ('eof',) in done, w, 'the checksum may be computed before the multiplexer has written its end marker')
                if t == 'end':
                    rep.check('once', k + ':end', ('end',) not in poss, w, 'the end marker may be coded twice')
            if ok:
                if t == 'drain':
                    if ('close', tok[1]) in done:
                        done.add(('rest', tok[1]))
                        poss.add(('rest', tok[1]))
                    if ('end',) in done:
                        done.add(tok)
                        poss.add(tok)
                else:
                    done.add(tok)
                    poss.add(tok)
        return done, poss

    def moves(node):
        for s in steps:
            if node[0] not in s.ins:
                continue
            if node[1] is not None:
                av, v = pay(s, node[0])
                if av is not None and not feasible(s.st, av, node[1]):
                    continue
            yield s

    n = 0
    while work and n < 400:
        n += 1
        node = work.pop()
        for s in moves(node):
            d, q = run(s, node, False)
            if s.answer == 'Failure':
                continue
            to = after(s, node[0], node[1])
            if to not in must:
                must[to], may[to] = frozenset(d), frozenset(q)
            else:
                m, y = must[to] & d, may[to] | q
                if m == must[to] and y == may[to]:
                    continue
                must[to], may[to] = frozenset(m), frozenset(y)
            work.append(to)
    finals = set()
    for node in sorted(must, key=repr):
        got = False
        for s in moves(node):
            got = True
            k = '%s:%s' % (p, node[0])
            d, q = run(s, node, True)
            for tok, ok, e in s.acts:
                if tok[0] == 'drain':
                    rep.check('paired', k, tok[1] is not None and coder_of(e[2][1]) == tok[1], w, 'the bytes of one coder are handed on as those of the other')
            bad = [tok for tok, ok, e in s.acts if not ok and tok[0] in ('drain', 'close', 'end')]
            to = after(s, node[0], node[1])
            if bad:
                rep.check('stays', k + ':state', s.out is None or to == node, w, 'the shutdown goes on although a part of it (%s) did not succeed' % bad[0][0])
                rep.check('stays', k + ':told', s.kind == 'ret' and s.answer != 'Success', w, 'a part of the shutdown (%s) did not succeed and the caller is not told' % bad[0][0])
            if s.answer == 'Success':
                rep.check('complete', k + ':success', ('eof',) in d and ('end',) in d and all((x, i) in d for x in ('close', 'rest') for i in (0, 1)), w,
                          'success may be reported although not everything was written (done by then: %s)' % ', '.join(sorted('%s %s' % (t[0], NAMES.get(t[1], '') if len(t) > 1 else '') for t in d)))
                finals.add(to)
        rep.check('machine', '%s:%s' % (p, node[0]), got, w, 'state %s is reached and never left or answered' % node[0])
    rep.count('states of the shutdown', len(must))
    rep.floor('states of the shutdown', 6)
    for node in finals:
        for s in moves(node):
            rep.check('closed', '%s:%s' % (p, 'again'), not s.acts and s.answer == 'Success' and (s.out is None or s.out == node[0]), w, 'a finished stream is written to again')
    rep.check('complete', p + ':ends', bool(finals), w, 'the shutdown never ends in success')
    # the trailer is written from where the step before left off
    for s in steps:
        if s.ins == {'WriteChecksum'} and s.answer != 'Failure' and s.kind in ('ret', 'back') and not s.inner:
            trailer(cr, rep, p, w, ib, s, pay(s, 'WriteChecksum')[1])
    # a flush in the middle of a command is refused and changes nothing
    for s in steps:
        for name in s.ins:
            if (name not in [x[0] for x in must]) and name is not None:
                rep.check('closed', '%s:partial' % p, s.answer == 'Failure' and not s.acts and s.out is None, w, 'a stream may be shut down in the middle of a command (%s)' % name)
    rep.notes.append('shutdown: %s' % '; '.join('%s%s: %s' % (nd[0], '' if nd[1] is None else '(%s)' % nd[1], ' '.join(sorted(t[0] + (str(t[1]) if len(t) > 1 else '') for t in must[nd]))) for nd in sorted(must, key=lambda x: (len(must[x]), repr(x)))))
    return set(x[0] for x in must)


def least(st, v):
    """a linear form with the minimums in it decided, as far as the path conditions say"""
    v = num(v)
    out = K(v[1])
    for a, c in v[2]:
        x = ('L', 0, ((a, 1),))
        if a[0] == 'min' and len(a) == 3:
            if c20.atleast0(st, sub(a[1], a[2])):
                x = least(st, a[2])
            elif c20.atleast0(st, sub(a[2], a[1])):
                x = least(st, a[1])
            else:
                for b in (a[1], a[2]):
                    if c20.known(st, x, num(b), 'eq0') is True:
                        x = least(st, b)
                        break
        out = add(out, sym.mulk(x, c))
    return out


def trailer(cr, rep, p, w, ib, s, cnt0):
    st = s.st
    k = p + ':trailer'
    out = ('h', ('m', ('l', 2), ()))
    evs = [e for x in (st.prev, st.ev) for e in x]
    cp = [e for e in evs if e[0] == 'copy' and e[1][0] == 'slice' and e[1][1][0] == out]
    if not cp and (any(e[0] == 'put' and repr(out) in repr(e[1]) for e in evs) or len(set(x[1] for x in st.starts + ((st.start,) if st.start else ()) if x[1] != 'entry')) > 1):
        return      # byte by byte: the counting is C04's
    OFF = (('h', ('m', ('l', 3), ())), ())
    off0 = num(held(st, s.mem, OFF))
    done, total = K(0), None
    for e in cp:
        src = e[2]
        if src[0] != 'slice':
            continue
        rep.check('trailer', k + ':from', num(src[2]) == add(cnt0, done), w, 'the trailer is not continued where the call before left off')
        rep.check('trailer', k + ':to', num(e[1][2]) == add(off0, done), w, 'the trailer is not written to where the output stands')
        done = add(done, num(src[3]))
        m = re.match(r'\[u8; (\d+)', str(ib.locals[src[1][0][1]])) if src[1][0][0] == 'l' and not src[1][1] else None
        if m:
            total = int(m.group(1))
    rep.check('trailer', k + ':counted', num(st.read(OFF)) == add(off0, done), w, 'the output does not grow by the bytes of the trailer that are written')
    if s.out in (None, 'WriteChecksum'):
        now = num(st.read((STATE[0], STATE[1] + (('d', 'WriteChecksum'), ('f', '0')))))
        rep.check('trailer', k + ':kept', now == add(cnt0, done), w, 'how much of the trailer is written is not kept')
    elif total is not None:
        rep.check('trailer', k + ':full', least(st, add(cnt0, done)) == K(total), w, 'the trailer may be taken to be written although a part of it is missing')


def fact_on(st, v):
    for x in (num(v), v):
        f = st.facts.get(x)
        if f is not None:
            return f
    for a, f in facts(st):
        if a == v or ('L', 0, ((v, 1),)) == num(a):
            return f
    return None


def true(st, v):
    f = fact_on(st, v)
    return None if f is None else True if yes(f) else False if f == ('=', 0) else None


def result(st):
    """the answer of a path: a variant's name, or the call whose answer is passed on"""
    r = ret(st)
    if r is not None:
        return r
    v = st.mem.get((('l', 0), ()))
    return v if v is None else ('of',) + tuple(src_of(v)[:1])


def unpaired(cr, rep):
    """the bytes of each coder go to its own stream: every call of drain_or_fill_static_buffer outside the machine"""
    n = 0
    for p in sorted(cr.fns):
        if p.split('::')[-1] not in INL[1:]:
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            for e in calls(st, 'drain_or_fill_static_buffer'):
                n += 1
                i = num(e[2][0])
                rep.check('paired', p, is_const(i) and coder_of(e[2][1]) == i[1], w, 'the bytes of one coder are handed on as those of the other')
            if kind == 'ret':
                cs = calls(st, 'drain_or_fill_static_buffer')
                rep.check('paired', p + ':answer', len(cs) == 1 and result(st) == ('of', cs[0][3]), w, 'the answer is not the one of the coder')
    rep.count('coders handed on', n)
    rep.floor('coders handed on', 2)


def drained(cr, rep):
    """a coder counts as drained only when it has nothing left"""
    for p in [x for x in cr.fns if x.endswith('::drain_or_fill_static_buffer')]:
        w = '%s:%s' % c02.b_file(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        n = 0
        for kind, bi, st, last in segs:
            for e in calls(st, 'drain_or_fill_internal_buffer_unchecked'):
                for a in e[2][1:]:
                    ix = [x[1] for x in walk(a) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'i']
                    rep.check('drained', p + ':stream', any(num(x) == num(('m', ('l', 1), ())) for x in ix) or not ix, w, 'a coder reads or writes the stream of the other one')
                rep.check('drained', p + ':coder', e[2][0] == ('ref', P(2) and (P(2), ())), w, 'what is drained is not the coder given')
            if kind != 'ret':
                continue
            r = result(st)
            un = calls(st, 'drain_or_fill_internal_buffer_unchecked')
            has = calls(st, 'has_data_to_drain_or_fill')
            last_un = [e for e in st.ev if e[0] == 'call' and e[1].endswith('drain_or_fill_internal_buffer_unchecked')]
            if r == 'Success' or isinstance(r, tuple) and not any(r == ('of', e[3]) for e in last_un):
                n += 1
                now = [e for e in st.ev if e[0] == 'call' and e[1].endswith('has_data_to_drain_or_fill')]
                rep.check('drained', p + ':empty', bool(now) and true(st, now[-1][3]) is False or any(disc(st, e[3]) == 1 for e in last_un), w,
                          'a coder is taken to be drained although it may hold bytes')
            if r == 'NeedsMoreOutput' and not any(r == ('of', e[3]) for e in last_un):
                full = any(a[0] == 'op' and a[1] == 'eq0' and yes(f) and 'len' in repr(a) for a, f in facts(st))
                rep.check('drained', p + ':full', full, w, 'more room is asked for although there is some')
        rep.check('drained', p + ':ends', n > 0, w, 'a coder is never taken to be drained')
    for p in sorted(cr.fns):
        n = p.split('::')[-1]
        if n not in ('drain_or_fill_internal_buffer_unchecked', 'close', 'has_data_to_drain_or_fill') or 'ArithmeticEncoderOrDecoder' not in p:
            continue
        ib, S, segs = paths(cr, p)
        w = '%s:%s' % c02.b_file(cr, p)
        q = p[:-len(n)] + 'drain_or_fill_internal_buffer_unchecked'
        encoder = q in cr.fns and any(calls(st, 'num_pop_bytes_avail') or calls(st, 'pop_data') for k, b, st, l in paths(cr, q)[2])
        if not encoder:
            continue
        if n == 'close':
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind == 'ret' and (ret(st) == 'Success' or ret(st) is None):
                    rep.check('drained', p, bool(calls(st, 'flush') or calls(st, 'flush_chunk')), w, 'a coder is closed without what it holds being written out')
        elif n == 'has_data_to_drain_or_fill':
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind == 'ret':
                    r = num(st.mem.get((('l', 0), ()), K(0)))
                    av = calls(st, 'num_pop_bytes_avail')
                    none = any(num(e[3]) == K(0) or fact_on(st, e[3]) == ('=', 0) or c20.known(st, num(e[3]), K(0), 'eq0') for e in av[-1:])
                    told = is_const(r) and r != K(0) or any(x == e[3] for e in av[-1:] for x in walk(r)) or none
                    rep.check('drained', p, told, w, 'a coder is said to hold nothing although it may hold bytes')
        else:
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind == 'ret' and ret(st) == 'Success':
                    av = calls(st, 'num_pop_bytes_avail')
                    rep.check('drained', p, any(num(e[3]) == K(0) or fact_on(st, e[3]) == ('=', 0) or c20.known(st, num(e[3]), K(0), 'eq0') for e in av[-1:]), w, 'a coder is taken to be drained although it may hold bytes')
    for p in sorted(cr.fns):
        if p.endswith('as arithmetic_coder::EntropyEncoder>::flush') and 'ANSEncoder' in p:
            ib, S, segs = paths(cr, p)
            w = '%s:%s' % c02.b_file(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind == 'ret':
                    rep.check('drained', p, bool(calls(st, 'flush_chunk')), w, 'the symbols not yet written are left behind when the coder is closed')
        if p.endswith('ANSEncoder::flush_chunk'):
            ib, S, segs = paths(cr, p)
            w = '%s:%s' % c02.b_file(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind == 'ret' and not [x for x in st.starts if x[1] != 'entry'] and not [e for e in st.prev + st.ev if e[0] == 'call' and e[1].split('::')[-1] not in ('bytes', 'len')]:
                    ln = [v for v, f in st.facts.items() if f == ('=', 0) and not (v[0] == 'op' or v[0] == 'L' and any(x[0] == 'op' for x, c in v[2]))] + [a for a, f in facts(st) if a[0] == 'op' and a[1] == 'eq0' and yes(f)]
                    rep.check('drained', p + ':skip', any('len' in repr(x) for x in ln), w, 'symbols may be left behind when the coder is closed')


def frozen(cr, rep, rid):
    """success of taking up the kept commands means that all of them were coded"""
    for p in sorted(cr.fns):
        if p.endswith('DivansCompressor::flush_freeze_dried_cmds'):
            ib, S, segs = paths(cr, p)
            w = '%s:%s' % c02.b_file(cr, p)
            rep.fns.add(p)
            n = 0
            for kind, bi, st, last in segs:
                if kind == 'ret' and result(st) == 'Success':
                    enc = calls(st, 'encode_or_decode')
                    a, b = (num(st.read((ROOT, (('f', x),)))) for x in ('freeze_dried_cmd_start', 'freeze_dried_cmd_end'))
                    ok = any(disc(st, e[3]) in (1, 2) or disc(st, e[3]) is None and all(f[0] == '!' and {0, 3} <= set(f[1]) for f in list(c20.discs(st, e[3]))[-1:]) and list(c20.discs(st, e[3])) for e in enc)
                    rep.check(rid, p, bool(enc) and ok or not enc and (a == b or c20.known(st, a, b, 'eq0') is True), w, 'commands kept from an earlier call may be left behind')
                    lo, hi = (num(sym_at(st, (ROOT, (('f', x),)))) for x in ('freeze_dried_cmd_start', 'freeze_dried_cmd_end'))
                    for e in calls(st, 'thaw_commands'):
                        if len(e[2]) == 4 and any(c[0] == 'm' for c in e[2][2:]):
                            rep.check(rid, p + ':thawed', S.zero(st, sub(num(e[2][2]), lo)) and S.zero(st, sub(num(e[2][3]), hi)), w,
                                      'the commands taken up again are not those kept: %s to %s instead of %s to %s' % tuple(sym.show(x, ib) for x in (num(e[2][2]), num(e[2][3]), lo, hi)))
                    for e in enc:
                        for v in e[2]:
                            if v[0] == 'ref' and v[1][0][0] == 'l' and not v[1][1]:
                                v = st.read((v[1][0], (('f', '0'),)))
                                if v[0] == 'slice' and v[1] != ROOT and 'cmd_array' not in repr(v[1][1]):
                                    n += 1
                                    rep.check(rid, p + ':all', S.zero(st, sub(add(v[2], v[3]), hi)) and S.zero(st, v[2]), w,
                                              'the codec is given the kept commands up to %s instead of all up to %s' % (sym.show(add(v[2], v[3]), ib), sym.show(hi, ib)))
            rep.count('runs of kept commands handed to the codec', n)


RANK = {'Running': 0, 'EofStart': 1, 'EofMid': 2, 'EofDone': 3}


def marker(cr, rep):
    for p in sorted(cr.fns):
        if p.endswith('Mux::serialize_close'):
            w = '%s:%s' % c02.b_file(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            eof = (ROOT, (('f', 'eof'),))
            adts = [a for a in cr.adts if set(RANK) == set(cr.variants(a).values())]
            if not rep.anchor('StreamState', len(adts) == 1):
                return
            names = cr.variants(adts[0])
            got = set()
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                fl = calls(st, 'flush_internal')
                ins = set(RANK.values())
                for a, f in facts(st):
                    if a[0] == 'disc' and 'eof' in repr(a):
                        ns = set(names)
                        ns = set([f[1]]) if f[0] == '=' else ns - set(f[1])
                        ins &= set(RANK[names[x]] for x in ns)
                end = st.mem.get((ROOT, (('f', 'eof'), ('#',))))
                puts = [e for e in st.prev + st.ev if e[0] == 'put' and e[1][0] == P(2)]
                if not fl:
                    rep.check('marker', p + ':emptied', ins <= {3} and not puts and end is None, w, 'the end marker may be written although the buffers were not emptied')
                    continue
                base = num(fl[-1][3])
                r = num(st.mem.get((('l', 0), ()), K(0)))
                rep.check('marker', p + ':count', sub(r, add(base, K(len(puts)))) == K(0), w, 'what is counted as written is not what was written')
                for b in sorted(ins):
                    to = RANK[end[1]] if end is not None and end[0] == 'var' else b
                    if end is None and len(puts) == 0:
                        to = b
                    rep.check('marker', p + ':state', to - b == len(puts), w, 'the end marker: %d bytes written while the state moves on by %d' % (len(puts), to - b))
                    got.add((b, to))
                    for i, e in enumerate(puts):
                        at = num(e[1][1][-1][1])
                        v = e[2]
                        want_i = ('.', ('const', 'mux::EOF_MARKER'), (('i', K(b + i)),))
                        rep.check('marker', p + ':place', sub(at, base) == K(i), w, 'byte %d of the end marker goes to the wrong place' % (b + i))
                        rep.check('marker', p + ':byte', v == want_i or 'EOF_MARKER' not in repr(v), w, 'byte %d of the end marker is another one' % (b + i))
                if puts:
                    ln = ('len', P(2))
                    rep.check('marker', p + ':after', any(a[0] == 'op' and a[1] == 'eq0' and f == ('=', 0) and base == num(add(num(a[2]), K(0))) or (a[0] == 'op' and a[1] in ('eq0', 'lt0') and repr(fl[-1][3]) in repr(a)) for a, f in facts(st)), w,
                              'the end marker may be written although the buffers filled the output')
            rep.check('marker', p + ':done', any(t == 3 for b, t in got) and all((b, 3) in got for b in (0, 1, 2)), w, 'the end marker cannot be finished from every state')
        if p.endswith('Mux::is_eof'):
            w = '%s:%s' % c02.b_file(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                r = st.mem.get((('l', 0), ()))
                if r is not None and num(r) == K(0):
                    continue
                seen = set()
                if r is not None and atom(num(r)) is not None and not is_const(num(r)):
                    st = st.copy()      # the answer is a comparison: what follows where it is true
                    st.facts = dict(st.facts)
                    st.facts[atom(num(r))] = ('=', 1)
                rc, wc = calls(st, 'read_cursor'), calls(st, 'write_cursor')
                for x in rc:
                    for y in wc:
                        if num(x[2][1]) == num(y[2][1]) and c20.known(st, num(x[3]), num(y[3]), 'eq0') is True and is_const(num(x[2][1])):
                            seen.add(num(x[2][1])[1])
                d = [f for a, f in facts(st) if a[0] == 'disc' and 'eof' in repr(a)]
                done = any(f[0] == '=' for f in d)
                if rc or wc:
                    rep.check('marker', p + ':both', seen >= {0, 1}, w, 'the multiplexer is taken to be at its end although it may hold bytes')
                else:
                    rep.check('marker', p + ':both', False, w, 'the multiplexer is taken to be at its end although it may hold bytes')
                rep.check('marker', p + ':eof', done and any(f[0] == '=' and 'Done' in str([v for a in cr.adts if set(RANK) == set(cr.variants(a).values()) for k, v in cr.variants(a).items() if k == f[1]]) for f in d), w,
                          'the multiplexer is taken to be at its end before its end marker is written')


def full_header(st):
    for e in calls(st, 'write_header'):
        if disc(st, e[3]) == 1:
            return True
    for a, f in facts(st):
        if 'header_progress' in repr(a) and (a[0] == 'op' and a[1] == 'eq0' and yes(f) or a[0] == 'm' and f[0] == '='):
            return True
    return False


def owns_codec(cr, p):
    ty = re.sub(r'^&mut ', '', str(cr.fns[p].locals[1])).split('<')[0]
    return any('::DivansCodec<' in t for v in cr.adts.get(ty, {}).get('vars', ()) for _, t in v['fields'])


def before(segs, st):
    """the turns after which a loop may be left as st leaves it, told apart by the flags among the locals; None if there is no flag"""
    if not st.start or st.start[1] == 'entry':
        return None
    head = st.start[1]
    flags = []
    for v, f in st.facts.items():
        a = atom(num(v)) or v
        if a[0] == 'phi' and a[1] == head and a[2][0][0] == 'l' and not a[2][1]:
            flags.append((a[2], f))
    if not flags:
        return None
    out = []
    for kind, bi, s, last in segs:
        if kind in ('enter', 'back') and bi == head:
            for pl, f in flags:
                v = s.mem.get(pl)
                if v is not None and is_const(num(v)) and not (num(v)[1] == f[1] if f[0] == '=' else num(v)[1] not in f[1]):
                    break
                if f[0] != '=' and v is not None and (atom(num(v)) or v)[:3] == ('phi', head, pl):
                    break       # the turn leaves the flag as it found it, and found it so that another turn followed
            else:
                out.append(s)
    return out


def compressors(cr, rep):
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('as interface::Compressor>::flush'):
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        if not owns_codec(cr, p):
            continue
        try:
            ib, S, segs = paths(cr, p)
        except sym.TooMany:
            rep.notes.append('%s: too many paths' % p)
            continue
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            fin = [e for e in calls(st, 'flush') if 'DivansCodec' in e[1]]
            inner = calls(st, 'internal_encode_stream')
            over = bool(inner) and disc(st, inner[-1][3]) == 1
            if not fin and not inner and kind == 'ret':
                pre = before(segs, st)
                if pre:
                    over = all(any(disc(x, e[3]) == 1 for e in calls(x, 'internal_encode_stream')) for x in pre)
                    inner = [e for x in pre for e in calls(x, 'internal_encode_stream')]
            if not fin and not inner:
                if kind == 'ret':
                    r = result(st)
                    if r == 'Success' or isinstance(r, tuple):
                        src = [e for e in st.prev + st.ev if e[0] == 'call' and r == ('of', e[3])]
                        rep.check('whole', p + ':early', bool(src) and disc(st, src[0][3]) != 1 and src[0][1].split('::')[-1] in ('write_header', 'flush_freeze_dried_cmds'), w,
                                  'success may be reported although the codec was not shut down')
                continue
            n += 1
            rep.check('whole', p + ':header', full_header(st) or bool(before(segs, st)) and all(full_header(x) for x in before(segs, st)), w, 'the stream may be shut down before its header is written')
            if fin:
                fz = calls(st, 'flush_freeze_dried_cmds')
                rep.check('whole', p + ':kept', any(disc(st, e[3]) == 1 for e in fz), w, 'the stream may be shut down before the commands kept from earlier are coded')
                asm = [e for e in calls(st, 'flush') if 'RawToCmd' in e[1]]
                rep.check('whole', p + ':assembled', any(disc(st, e[3]) == 1 for e in asm), w, 'the stream may be shut down before the last input was made into commands')
                enc = calls(st, 'encode_or_decode')
                none = [f for a, f in facts(st) if f == ('=', 0) and a[0] == 'hv']
                zero = any(f == ('=', 0) and a[0] == 'hv' or a[0] == 'op' and a[1] == 'eq0' and yes(f) and atom(num(a[2])) is not None and atom(num(a[2]))[0] == 'hv' for a, f in facts(st))
                okenc = any(disc(st, e[3]) in (1, 2) for e in enc)
                rep.check('whole', p + ':coded', zero or okenc, w, 'the stream may be shut down before the last commands are coded')
                if kind == 'ret':
                    rep.check('whole', p + ':answer', result(st) == ('of', fin[-1][3]), w, 'the answer is not the one of the shutdown')
            if inner:
                for e in inner:
                    rep.check('whole', p + ':end', num(e[2][-1]) == K(1) and 'FINISH' in repr(e[2][1]) + repr([v for k, v in st.mem.items() if v[0] == 'var']) + repr(ib_vars(ib)), w, 'the input is not finished when the stream is')
                if kind == 'ret':
                    r = result(st)
                    if r == 'Success':
                        rep.check('whole', p + ':handed', over, w, 'success may be reported although the shutdown is not over')
                        eb = num(st.read((ROOT, (('f', 'encoded_byte_offset'),))))
                        lens = [e for e in calls(st, 'len')]
                        ok = any(a[0] == 'op' and a[1] == 'eq0' and yes(f) and any(sub(eb, num(e[3])) in (num(a[2]), sym.mulk(num(a[2]), -1)) for e in lens) for a, f in facts(st)) \
                            or any(a[0] == 'op' and a[1] == 'eq0' and yes(f) and 'divans_data' in repr(a) + repr(lens) for a, f in facts(st)) \
                            or any(c20.atleast0(st, sub(eb, num(e[3]))) for e in lens)
                        rep.check('whole', p + ':all', ok, w, 'success may be reported although bytes of the stream have not been handed out')
    rep.count('shutdowns by a compressor', n)
    rep.floor('shutdowns by a compressor', 3)


def ib_vars(ib):
    return [s for b in ib.blocks for s in b['s'] if 'BROTLI_OPERATION' in repr(s)][:3]


def hybrid(cr, rep):
    for p in sorted(cr.fns):
        if not p.endswith('::internal_encode_stream'):
            continue
        w = '%s:%s' % c02.b_file(cr, p)
        try:
            ib, S, segs = paths(cr, p)
        except sym.TooMany:
            rep.notes.append('%s: too many paths' % p)
            continue
        rep.fns.add(p)
        n = 0
        for kind, bi, st, last in segs:
            fin = [e for e in calls(st, 'flush') if 'DivansCodec' in e[1]]
            isf = calls(st, 'BrotliEncoderIsFinished')
            cs = calls(st, 'BrotliEncoderCompressStream')
            if fin:
                n += 1
                f = fact_on(st, num(isf[-1][3])) if isf else None
                rep.check('whole', p + ':finished', f is not None and yes(f) or bool(isf) and c20.known(st, num(isf[-1][3]), K(0), 'eq0') is False, w, 'the stream may be shut down before all input was made into commands')
                f = fact_on(st, ('m', ('l', ib.argc), ()))
                rep.check('whole', p + ':asked', f is not None and yes(f), w, 'the stream may be shut down although nobody asked for it')
                e = [x for x in st.ev if x[0] == 'call' and x in fin]
                cm = [x for x in st.ev if x[0] == 'call' and x[1].endswith('commit_next_buffer')]
                if kind in ('ret', 'back') and e:
                    ok = len(cm) >= 1 and st.ev.index(cm[-1]) > st.ev.index(e[-1])
                    rep.check('whole', p + ':committed', ok, w, 'bytes written by the shutdown may be left out of the output')
                    if ok:
                        hv = [x for x in st.ev if x[0] == 'havoc' and st.ev.index(x) < st.ev.index(e[-1])]
                        amount = num(cm[-1][2][-1])
                        out = [num(('hv', x[2] if isinstance(x[2], int) else x[2][0], x[1])) for x in hv]
                        rep.check('whole', p + ':amount', amount in out or not is_const(amount), w, 'another number of bytes is put to the output than the shutdown wrote')
                if kind == 'back' and e:
                    rep.check('whole', p + ':again', disc(st, e[-1][3]) == 2, w, 'the shutdown is gone through again although it did not ask for more room')
                if kind == 'ret' and e:
                    r = result(st)
                    rep.check('whole', p + ':more', not (disc(st, e[-1][3]) == 2), w, 'the shutdown is broken off although it asked for more room')
            elif kind == 'ret' and result(st) == 'Success':
                f = [fact_on(st, num(x[3])) for x in isf]
                ok = any(x is not None and yes(x) for x in f) or any(c20.known(st, num(x[3]), K(0), 'eq0') is False for x in isf)
                rep.check('whole', p + ':early', ok and not cs, w, 'success may be reported although the stream was not shut down')
        rep.check('whole', p + ':shut', n > 0, w, 'the stream is never shut down')


def refused(cr, rep, down):
    """nothing is coded once the shutdown has begun"""
    for p in sorted(cr.fns):
        if p.endswith('DivansCodec::is_shut_down'):
            ib, S, segs = paths(cr, p)
            w = '%s:%s' % c02.b_file(cr, p)
            rep.fns.add(p)
            names = state_names(cr)
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                r = num(st.mem.get((('l', 0), ()), K(0)))
                ins = set(names.values())
                for a, f in facts(st):
                    if a[0] == 'disc':
                        ins &= {names.get(f[1])} if f[0] == '=' else set(v for k, v in names.items() if k not in f[1])
                if r == K(0):
                    rep.check('closed', p + ':open', not ins & down, w, 'a stream that is being shut down (%s) is taken to be open' % ', '.join(sorted(ins & down)))
                elif r == K(1):
                    rep.check('closed', p + ':shut', not ins - down, w, 'a stream is taken to be shut down although it is not')
        if p.endswith('DivansCodec::encode_or_decode_one_command'):
            w = '%s:%s' % c02.b_file(cr, p)
            names = state_names(cr)
            ib = flow.IBody(cr, cr.fns[p])
            try:
                S = sym.Sym(ib, Pol(cr, None, p), 6000)
                S.run()
            except sym.TooMany:
                rep.notes.append('%s: too many paths' % p)
                continue
            rep.fns.add(p)
            n = 0
            for kind, bi, st, last in S.pol.segs:
                mem = turn(S, st)
                v0 = held(st, mem, STATE)
                ins = set(names.values())
                for f in list(c20.discs(st, v0)) + [f for a, f in facts(st) if a[0] == 'disc' and a[1] in (v0, held(st, mem, (STATE[0], STATE[1] + (('#',),))))]:
                    ins &= {names.get(f[1])} if f[0] == '=' else set(v for k, v in names.items() if k not in f[1])
                tag = mem.get((STATE[0], STATE[1] + (('#',),)))
                if tag is not None and tag[0] == 'var':
                    ins &= {tag[1]}
                if not ins or not ins <= down - {'Begin'}:
                    continue
                n += 1
                coded = [e for e in st.prev + st.ev if e[0] == 'call' and e[1].split('::')[-1] in ('get_or_put_nibble', 'encode_or_decode', 'push_cmd', 'blend')]
                rep.check('closed', p + ':coded', not coded, w, 'a command is coded after the stream was shut down (%s)' % ', '.join(sorted(ins)))
                if kind == 'ret' and ins <= {'EncodedShutdownNode', 'ShutdownCoder', 'CoderBufferDrain', 'MuxDrain'}:
                    rep.check('closed', p + ':refused', 'Failure' in repr([v for k, v in st.mem.items() if k[0] == ('l', 0)]), w, 'a command that comes after the stream was shut down is not refused (%s)' % ', '.join(sorted(ins)))
            rep.check('closed', p + ':states', n > 0, w, 'the states of the shutdown are not seen')
        if p.endswith('DivansCompressor as interface::Compressor>::encode'):
            w = '%s:%s' % c02.b_file(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if not calls(st, 'stream'):
                    continue
                sh = calls(st, 'is_shut_down')
                ok = any(true(st, e[3]) is False for e in sh) or any(a[0] == 'op' and a[1] == 'eq0' and yes(f) and 'len' in repr(a) and repr(P(3))[1:-1] in repr(a) for a, f in facts(st))
                rep.check('closed', p + ':taken', ok, w, 'input is taken although the stream may have been shut down')


def state_names(cr):
    for x in cr.adts:
        vs = cr.variants(x)
        if x.endswith('EncodeOrDecodeState') and 'ShutdownCoder' in vs.values():
            return vs
    return {}


def check(ctx, rep):
    cr = ctx.lib
    ps = [p for p in cr.fns if p.endswith('DivansCodec::internal_flush')]
    if rep.anchor('DivansCodec::internal_flush', len(ps) == 1):
        down = machine(cr, rep, ps[0])
        refused(cr, rep, set(down or ()) - {'Begin'})
    unpaired(cr, rep)
    drained(cr, rep)
    frozen(cr, rep, 'whole')
    marker(cr, rep)
    compressors(cr, rep)
    hybrid(cr, rep)
