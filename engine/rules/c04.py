"""C04: cursors count exactly the bytes that were moved."""
import re
import itertools
from .. import flow, sym
from ..mir import callee, callee_decl, ty_head
from ..sym import K, add, sub, num, is_const

EXPLAIN = ('symbolic value flow over the MIR of every library function that takes a byte buffer with a cursor (or reports how much of a slice it used): '
           'on every path between function entry, loop heads and returns, each run of bytes copied, written, examined or handed to such a callee must start where '
           'the cursor stands, and the cursor (or the returned count) must end exactly where the runs end; callees are used by the same contract, so the whole call '
           'tree is covered by induction. The same rule is applied to the buffers kept inside objects (ring buffers, header, trailer, stream buffers of the multiplexer). '
           'Values are linear forms over named quantities and are compared by normal form; nothing is executed and no solver is used')
ASSUME = ['integer arithmetic on lengths and offsets does not wrap', 'a slice passed to an external function other than the modelled copies is not partly consumed by it',
          'get_recoder_output and get_recoder_output_offset return what they were given (the encoder redirects both to its own backing store)']
RO = re.compile(r"^&('[a-z_0-9{}]+ )?\[u8\]$")
RW = re.compile(r"^&('[a-z_0-9{}]+ )?mut \[u8\]$")
CU = re.compile(r"^&('[a-z_0-9{}]+ )?mut usize$")
RB = re.compile(r"^&('[a-z_0-9{}]+ )?mut interface::ReadableBytes")
# functions that return how much of their slice they used
COUNTED = ('write_linear', 'linearize', 'deserialize', 'deserialize_eof', 'serialize', 'serialize_close', 'flush_internal', 'serialize_leftover',
           'copy_to_ring_buffer', 'pop_data', 'push_data', 'write', 'flush',
           'helper_push_data_rare_cases', 'helper_push_data_really_rare_cases')


def pairs(tys):
    out = []
    for i in range(len(tys)):
        if i + 1 < len(tys) and CU.match(tys[i + 1]) and (RO.match(tys[i]) or RW.match(tys[i])):
            out.append(('out' if RW.match(tys[i]) else 'in', i, i + 1))
        elif RB.match(tys[i]):
            out.append(('in', i, None))
    return out


def counted(name, tys, ret):
    """'out'/'in' and the parameter, when the function reports how much of its one slice it used"""
    if name not in COUNTED or ret not in ('usize', '()'):
        return None
    sl = [i for i, t in enumerate(tys) if RO.match(t) or RW.match(t)]
    if len(sl) != 1 or any(CU.match(t) for t in tys):
        return None
    if ret == '()' and name != 'push_data':
        return None
    i = sl[0]
    return ('out' if RW.match(tys[i]) else 'in', i, ret)


class Pol(sym.Policy):
    def __init__(self, cr):
        self.cr = cr
        self.segs = []
        self.keep = None

    def kept(self, S, st, t, run):
        """a callee that has no store to the field of interest leaves it alone"""
        if self.keep is None:
            return run()
        P = self.keep
        v = st.read(P)
        run()
        if not stores_deep(self.cr, t, P[1][-1][1]):
            st.write(P, v)

    def contract(self, S, st, bi, t, args):
        tys = [S.op_ty(o) for o in t['a']]
        decl = callee_decl(t) or ''
        name = decl.split('::')[-1]
        prs = pairs(tys)
        ret = S.pl_ty(t['d'])
        cn = None
        if name == 'unchecked_push':
            return None
        if decl.endswith('ResizableByteBuffer::slice') and len(args) == 1:
            me = S.deref(st, args[0])
            if me[0] != 'S':
                st.write(S.place(st, t['d']), ('slice', (me[0], me[1] + (('f', 'data'),)), K(0), num(st.read((me[0], me[1] + (('f', 'size'),))))))
                return True
        if name == 'get_recoder_output' and len(args) == 2:
            st.write(S.place(st, t['d']), S.as_slice(args[1]))
            return True
        if name == 'get_recoder_output_offset' and len(args) == 3:
            st.write(S.place(st, t['d']), args[1])
            return True
        if not prs:
            cn = counted(name, tys, ret)
            if cn is None and self.keep is not None and callee(t) in self.cr.fns:
                self.kept(S, st, t, lambda: S.opaque(st, t, bi, args, S.place(st, t['d']), decl))
                return True
            if cn is None:
                return None
            if name in ('write', 'flush') and 'Stream' not in decl and 'mux' not in decl:
                return None
        site = '%s:%s' % tuple(t['sp'][:2])
        d = S.place(st, t['d'])
        post = []
        for side, i, j in prs:
            if j is None:
                q = S.deref(st, args[i])
                if q[0] == 'S':
                    return None
                s = S.as_slice(st.read((q[0], q[1] + (('f', 'data'),))))
                c = S.deref(st, st.read((q[0], q[1] + (('f', 'read_offset'),))))
            else:
                s = S.as_slice(args[i])
                c = S.deref(st, args[j])
            cur = num(st.read(c))
            st.n += 1
            n = num(('call', decl + '#%d' % i, site, st.n))
            if is_const(s[3]) and s[3][1] == 0:
                n = K(0)
            st.ev += ((side, s[1], add(s[2], cur), n, t['sp']),)
            post.append((c, add(cur, n)))
        self.kept(S, st, t, lambda: S.opaque(st, t, bi, args, d, decl))
        for c, v in post:
            st.write(c, v)
        if cn:
            s = S.as_slice(args[cn[1]])
            if ret == '()':
                n = s[3]
            else:
                n = num(st.read(d))
            st.ev += ((cn[0], s[1], s[2], n, t['sp']),)
        return True

    def evkey(self, ev):
        return tuple(e[:2] if e[0] in ('get', 'put') else e[:-1] for e in ev if e[0] != 'call')

    def segment(self, S, st, kind, bi):
        self.segs.append((kind, bi, st))


INLINE_MAX = 60


def body(cr, b, stop=()):
    def want(caller, t, cands, stack):
        if len(cands) != 1 or len(stack) > 5:
            return None
        c = cands[0]
        if any((callee_decl(t) or '').endswith(x) for x in stop):
            return None
        tys = [c.locals[i] for i in range(1, c.argc + 1)]
        if (pairs(tys) or counted(c.path.split('::')[-1], tys, c.locals[0])) and (len(c.blocks) > 8 or not c.path.endswith('unchecked_push')):
            return None
        if not any('[u8]' in y or 'usize' in y for y in tys + [c.locals[0]]):
            return None
        if len(c.blocks) > INLINE_MAX or flow.natural_loops(flow.IBody(cr, c)):
            return None
        return c
    return flow.IBody(cr, b, want)


def analyse(cr, b, cap=6000, keep=None):
    ib = body(cr, b)
    pol = Pol(cr)
    pol.keep = keep
    S = sym.Sym(ib, pol, cap)
    S.run()
    return ib, S, pol.segs


def passed_on(cr, b, ob):
    """the buffer and the cursor are only ever handed on, together, to calls that obey the same rule"""
    side, base, P, _, i, j = ob
    if P in ('ret', 'all'):
        return False
    ib = flow.IBody(cr, b)
    who = {}
    changed = True
    while changed:
        changed = False
        for bi in ib.live_blocks:
            for s in ib.blocks[bi]['s']:
                if s['k'] != '=' or s['d']['p']:
                    continue
                r = s['r']
                o = r['o'].get('pl') if r['k'] == 'use' else r['pl'] if r['k'] in ('ref', 'rawptr') else None
                if o is None:
                    continue
                src = o['l'] if o['l'] in (i, j) else None
                src = who.get(o['l'], src)
                if src is not None and all(e == ['*'] or e[0] == '*' for e in o['p']) and who.get(s['d']['l']) != src:
                    who[s['d']['l']] = src
                    changed = True
    mine = set(who) | {i, j}
    for bi in ib.live_blocks:
        blk = ib.blocks[bi]
        for s in blk['s']:
            if s['k'] != '=':
                continue
            if s['d']['l'] in mine and (s['d']['p'] or s['d']['l'] in (i, j)):
                return False
            if s['d']['l'] in mine:
                continue
            if any(o['l'] in mine for o in places(s['r'])):
                return False
        t = blk['t']
        if t['k'] == 'call':
            us = [(k, who.get(o['pl']['l'], o['pl']['l'])) for k, o in enumerate(t['a']) if 'pl' in o and o['pl']['l'] in mine]
            if not us:
                continue
            tys = [ib.locals[o['pl']['l']] if 'pl' in o and not o['pl']['p'] else '' for o in t['a']]
            ks = dict(us)
            want = [(a, c) for sd, a, c in pairs(tys) if sd == side]
            if len(us) != 2 or i == j or not any(ks.get(a) == i and ks.get(c) == j for a, c in want):
                if not (i == j and len(us) == 1 and any(ks.get(a) == i and c is None for a, c in want)):
                    return False
        elif t['k'] == 'switch' and 'pl' in t['o'] and t['o']['pl']['l'] in mine:
            return False
    return True


def places(r):
    for k in ('o', 'a', 'b'):
        o = r.get(k)
        for x in (o if isinstance(o, list) else [o]):
            if isinstance(x, dict) and 'pl' in x:
                yield x['pl']
    if 'pl' in r:
        yield r['pl']


def arg0(k):
    return ('m', ('l', k), ())


def obligations(cr, b):
    tys = [b.locals[i] for i in range(1, b.argc + 1)]
    out = []
    for side, i, j in pairs(tys):
        if j is None:
            h = (('h', arg0(i + 1)), ())
            data = ('m', h[0], (('f', 'data'),))
            off = ('m', h[0], (('f', 'read_offset'),))
            out.append((side, (('h', data), ()), (('h', off), ()), b.names.get(i + 1, '?'), i + 1, i + 1))
        else:
            out.append((side, (('h', arg0(i + 1)), ()), (('h', arg0(j + 1)), ()), b.names.get(i + 1, '?'), i + 1, j + 1))
    c = counted(b.path.split('::')[-1], tys, b.locals[0])
    if c:
        out.append((c[0], (('h', arg0(c[1] + 1)), ()), 'ret' if c[2] == 'usize' else 'all', b.names.get(c[1] + 1, '?'), c[1] + 1, None))
    return out


def events(st, side, base, P=None):
    for e in st.ev:
        if e[0] == 'copy':
            s = e[1] if side == 'out' else e[2]
            if s[1] == base and not (side == 'in' and (e[1][1] == base or P is not None and e[1][1][0][0] != 'h')):
                yield ('move', s[2], s[3], e[3])
        elif e[0] == side and e[1] == base:
            yield ('move', e[2], e[3], e[4])
        elif e[0] == 'agg' and side == 'in':
            for v in e[2]:
                if v[0] == 'slice' and v[1] == base:
                    yield ('move', v[2], v[3], e[3])
        elif e[0] == 'havoc' and P is not None and e[1][0] == P[0] and e[1][1] == P[1][:len(e[1][1])]:
            v = ('hv', e[2], e[1])
            rest = P[1][len(e[1][1]):]
            yield ('sync', num(('.', v, rest) if rest else v), K(0), e[3])
        elif e[0] == 'read' and side == 'in':
            if e[1][1] == base:
                yield ('read', e[1][2], e[1][3], e[2])
        elif e[0] == 'put' and side == 'out' or e[0] == 'get' and side == 'in':
            p = e[1]
            if p[0] == base[0] and p[1][:-1] == base[1]:
                yield ('cell', p[1][-1][1], K(1), e[3])


def walk(S, st, side, base, q, wrap=None, P=None):
    """follow the events of a segment from position q; returns (end position, cells seen, error)"""
    cells = [(s[2], s[3]) for s in st.seen if s[1] == base] if side == 'in' else []
    for k, off, n, sp in events(st, side, base, P):
        if k == 'sync':
            q = off
            continue
        if k == 'read':
            cells.append((off, n))
            continue
        if k == 'cell':
            if side == 'in':
                cells.append((off, K(1)))
            elif S.zero(st, sub(off, q)):
                q = add(q, K(1))
            else:
                return q, cells, ('byte written at %s, expected at %s' % (sym.show(off, S.ib), sym.show(q, S.ib)), sp)
            continue
        if S.zero(st, n):
            continue
        if wrap and S.zero(st, off) and S.zero(st, sub(q, wrap)):
            q = K(0)
        g = 0
        while not S.zero(st, sub(off, q)):
            c = next((c for c in cells if S.zero(st, sub(c[0], q))), None) if side == 'in' and g < 20 else None
            if c is not None:
                q = add(q, c[1])
                g += 1
                continue
            return q, cells, ('bytes moved at offset %s, expected at %s' % (sym.show(off, S.ib), sym.show(q, S.ib)), sp)
        q = add(off, n)
    return q, cells, None


def reach_end(S, st, side, q, cells, end, wrap=None):
    if wrap and S.zero(st, end) and S.zero(st, sub(q, wrap)):
        return True
    for g in range(20):
        if S.zero(st, sub(end, q)):
            return True
        c = next((c for c in cells if S.zero(st, sub(c[0], q))), None) if side == 'in' else None
        if c is None:
            break
        q = add(q, c[1])
    return False


def verify(cr, b, ib, S, segs, ob, wrap=None, field=None):
    """list of failures for one obligation"""
    side, base, P = ob[:3]
    heads = sorted(set(st.start[1] for _, _, st in segs if st.start[1] != 'entry'))
    ints = {}
    for h in heads:
        c = [None]
        if P != 'all':
            for k, bi, st in segs:
                if st.start[1] == h:
                    for p, v in st.start[0].items():
                        if p[0][0] == 'l' and p[0][1] > 0 and v[0] == 'L' and p not in c and (p[1] == (('f', 'start'),) or not p[1] and ib.locals[p[0][1]] == 'usize'):
                            if p[0][1] in S.live[h] or p[0][1] in ib._esc:
                                c.append(p)
                    break
        ints[h] = c

    def at(memread, cand):
        """position in the buffer that the cursors stand for"""
        if P == 'all':
            return K(0)
        v = K(0) if P == 'ret' else num(memread(P))
        if cand is not None:
            v = add(v, num(memread(cand)))
        return v

    class Start(object):
        def __init__(self, mem):
            self.s = sym.State()
            self.s.mem = mem

        def __call__(self, p):
            return self.s.read(p)
    best = None
    L = num(('len', base)) if wrap is True else None
    combos = list(itertools.islice(itertools.product(*[ints[h] for h in heads]), 4000))
    for combo in combos:
        cand = dict(zip(heads, combo))
        fails = []
        for k, bi, st in segs:
            h = st.start[1]
            if P == 'all' and k != 'ret':
                continue
            q0 = at(Start(st.start[0]), cand.get(h))
            q, cells, err = walk(S, st, side, base, q0, L, P if field else None)
            if err:
                fails.append((err[1], err[0], st))
                continue
            if k == 'ret':
                if P == 'ret':
                    end = num(st.read((('l', 0), ())))
                elif P == 'all':
                    end = S.as_slice(('m',) + base[0][1][1:])[3]
                    end = num(('len', base))
                else:
                    end = num(st.read(P))
            else:
                end = at(st.read, cand.get(bi))
            if wrap == 'full' and k == 'ret' and is_const(q) and q[1] > 0 and S.zero(st, sub(end, q0)):
                continue
            if not reach_end(S, st, side, q, cells, end, L):
                what = 'returned count' if P == 'ret' else 'length' if P == 'all' else '`%s`' % field if field else 'cursor'
                fails.append((None, 'the %s ends at %s, but bytes up to %s were moved' % (what, sym.show(end, ib), sym.show(q, ib)), st))
        if best is None or len(fails) < len(best):
            best = fails
        if not fails:
            break
    return best or []


# buffers inside the objects, with the field that says how far they have been filled or drained
STORES = [
    ('divans_decompressor::HeaderParser', 'out', ('header',), ('read_offset',), 'full'),
    ('cmd_to_raw::DivansRecodeState', 'out', ('ring_buffer',), ('state', 'ring_buffer_decode_index'), True),
    ('cmd_to_raw::DivansRecodeState', 'in', ('ring_buffer',), ('state', 'ring_buffer_output_index'), True),
    ('raw_to_cmd::RawToCmdState', 'out', ('ring_buffer',), ('ring_buffer_decode_index',), True),
    ('codec::decoder::DivansDecoderCodec', 'out', ('deserialized_crc',), ('deserialized_crc_count',), False),
    ('brotli_ir_gen::BrotliDivansHybridCompressor', 'in', ('divans_data', 'data'), ('encoded_byte_offset',), False),
    ('raw_to_cmd::RawToCmdState', 'in', ('ring_buffer',), ('ring_buffer_output_index',), True),
]


def stores_field(ib, name):
    for bi in ib.live_blocks:
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['d']['p'] and s['d']['p'][-1][0] == 'f' and s['d']['p'][-1][1] == name:
                return True
    return False


def stores(cr, rep):
    """the same rule for the buffers the objects keep between calls"""
    done = {}
    for ty, side, buf, cur, wrap in STORES:
        n = 0
        for p, b in flow.own(cr):
            if '{' in p or not b.argc or not re.match(r"^&('[a-z_0-9{}]+ )?mut " + re.escape(ty) + r'\b', b.locals[1]):
                continue
            me = ('h', arg0(1))
            base = (me, tuple(('f', f) for f in buf))
            P = (me, tuple(('f', f) for f in cur))
            if p not in done:
                ib = body(cr, b)
                moves = any((callee_decl(t) or '').split('::')[-1] in ('clone_from_slice', 'copy_from_slice') for _, t in ib_calls(ib))
                if not moves and not stores_field(ib, cur[-1]):
                    continue
                try:
                    done[p] = analyse(cr, b)
                except sym.TooMany:
                    done[p] = None
            if done[p] is None:
                continue
            ib, S, segs = done[p]
            if not stores_field(ib, cur[-1]) and not any(True for _, _, st in segs for _ in events(st, side, base)):
                continue
            n += 1
            rep.fns.add(p)
            rep.count('store cursors')
            fails = verify(cr, b, ib, S, segs, (side, base, P), wrap, '.'.join(cur))
            for sp, msg, _ in fails[:1]:
                rep.bad('store', '%s:%s' % (p, cur[-1]), '%s:%s' % tuple(sp[:2]) if sp else p, msg)
            if not fails:
                rep.ok('store', '%s:%s' % (p, cur[-1]))
        rep.anchor('a function that moves bytes of %s.%s' % (ty, '.'.join(buf)), n > 0)


def mux(cr, rep):
    """stream buffers of the multiplexer: what a copy takes is what the start moves by, and moving the
    pending bytes elsewhere in the buffer moves both ends with them"""
    n = 0
    for p, b in flow.own(cr):
        if '{' in p or not b.argc or not re.match(r"^&('[a-z_0-9{}]+ )?mut mux::Mux\b", b.locals[1]):
            continue
        ib = body(cr, b)
        if not any((callee_decl(t) or '').split('::')[-1] in ('clone_from_slice', 'copy_from_slice') for _, t in ib_calls(ib)):
            continue
        try:
            ib, S, segs = analyse(cr, b)
        except sym.TooMany:
            continue
        fails = []
        for k, bi, st in segs:
            if k != 'ret':
                continue
            cs = [e for e in st.ev if e[0] == 'copy']
            for e in cs:
                src, dst = e[2], e[1]
                base = src[1]
                if len(base[1]) < 3 or base[1][-1] != ('f', '0') or base[1][-2][0] != 'i' or base[1][-3] != ('f', 'buf'):
                    continue
                n += 1
                rep.count('stream copies')
                X = (base[0], base[1][:-1] + (('f', '1'),))
                s_p, e_p = [(X[0], X[1] + (('f', f),)) for f in ('start', 'end')]
                s0, e0 = [num(sym_at(st.start[0], x)) for x in (s_p, e_p)]
                s1, e1 = num(st.read(s_p)), num(st.read(e_p))
                if dst[1][0][0] == 'h' and dst[1] != base and dst[1][0][1][0] == 'm':
                    # out of the multiplexer
                    done = add(src[2], src[3])
                    av = (('h', arg0(1)), (('f', 'cur_stream_bytes_avail'),))
                    left = num(st.read(av))
                    if S.zero(st, sub(s1, done)):
                        pass
                    elif S.zero(st, sub(done, e0)) and S.zero(st, sub(s1, e1)):
                        pass
                    else:
                        fails.append((e[3], 'bytes up to %s of the stream buffer were sent, but its start is left at %s' % (sym.show(done, ib), sym.show(s1, ib))))
                        continue
                    old = num(sym_at(st.start[0], av))
                    m = next((t for t, c in src[3][2] if t[0] == 'min'), None)
                    xs = m[1:] if m is not None else (src[3],)
                    fit = S.zero(st, sub(left, sub(old, src[3]))) or any(
                        S.zero(st, sub(add(left, src[3]), x)) or S.zero(st, sub(left, old)) and S.zero(st, sub(src[3], x)) for x in xs)
                    if not fit:
                        fails.append((e[3], '%s bytes of a chunk were sent, but the bytes still owed go from %s to %s' % (sym.show(src[3], ib), sym.show(old, ib), sym.show(left, ib))))
                else:
                    if not S.zero(st, sub(src[2], s0)) or not S.zero(st, sub(src[3], sub(e0, s0))):
                        fails.append((e[3], 'only [%s; +%s] of the pending bytes [%s; +%s] is moved' % tuple(sym.show(x, ib) for x in (src[2], src[3], s0, sub(e0, s0)))))
                    elif not S.zero(st, sub(s1, dst[2])) or not S.zero(st, sub(e1, add(dst[2], dst[3]))):
                        fails.append((e[3], 'the pending bytes moved to [%s; +%s], but start and end are set to %s and %s' % tuple(sym.show(x, ib) for x in (dst[2], dst[3], s1, e1))))
        rep.fns.add(p)
        for sp, msg in fails[:1]:
            rep.bad('mux', p, '%s:%s' % tuple(sp[:2]), msg)
        if not fails:
            rep.ok('mux', p)
    rep.anchor('copies out of or within the stream buffers of the multiplexer', n > 0)


def room(cr, rep):
    """the ring buffer never takes more than the free space, which leaves one slot so that full and empty differ"""
    me = ('h', arg0(1))
    ring = (me, (('f', 'ring_buffer'),))
    dec, out = [num(('m', me, (('f', 'state'), ('f', f)))) for f in ('ring_buffer_decode_index', 'ring_buffer_output_index')]
    L = num(('len', ring))
    spaces = {}
    n = 0
    for p, b in flow.own(cr):
        if '{' in p or not b.argc or not re.match(r"^&('[a-z_0-9{}]+ )?mut cmd_to_raw::DivansRecodeState\b", b.locals[1]):
            continue
        ib = body(cr, b)
        if not any((callee_decl(t) or '').split('::')[-1] in ('clone_from_slice', 'copy_from_slice') for _, t in ib_calls(ib)) or b.locals[0] == '()':
            continue
        try:
            ib, S, segs = analyse(cr, b)
        except sym.TooMany:
            continue
        bad = None
        here = 0
        for k, bi, st in segs:
            if st.start[1] != 'entry':
                continue
            tot = K(0)
            for e in st.ev:
                if e[0] == 'copy' and e[1][1] == ring:
                    tot = add(tot, e[1][3])
            if is_const(tot) and tot[1] == 0:
                continue
            here += 1
            calls = [num(e[3]) for e in st.ev if e[0] == 'call' and e[1] in cr.fns and cr.fns[e[1]].argc == 1 and cr.fns[e[1]].locals[0] in ('u32', 'usize')
                     and 'DivansRecodeState' in cr.fns[e[1]].locals[1]]
            free = [add(sub(out, dec), K(-1)), add(add(sub(out, dec), K(-1)), L)]
            c = next((c for c in calls if within(S, st, tot, c)), None)
            if c is not None:
                spaces[atom_fn(c)] = 1
            elif not any(within(S, st, tot, f) for f in free):
                bad = '%s bytes are put into the ring buffer, which is not limited by its free space' % sym.show(tot, ib)
        if not here:
            continue
        n += 1
        rep.check('room', p, bad is None, p, bad)
    for f in sorted(spaces):
        b = cr.fns[f]
        ib, S, segs = analyse(cr, b)
        bad = None
        for k, bi, st in segs:
            if k != 'ret':
                continue
            v = num(st.read((('l', 0), ())))
            base = add(sub(out, dec), K(-1))
            gt = st.facts.get(num(('op', 'lt0', sub(dec, out))))
            lt = st.facts.get(num(('op', 'lt0', sub(out, dec))))
            if S.zero(st, sub(v, base)) and gt == ('=', 1) or S.zero(st, sub(v, add(base, L))) and (gt == ('=', 0) or lt == ('=', 1)):
                continue
            bad = 'free space is computed as %s' % sym.show(v, ib)
        rep.check('room', f, bad is None, f, bad)
    # the assembler of raw commands keeps its own ring
    m = 0
    dec, out = [num(('m', me, (('f', f),))) for f in ('ring_buffer_decode_index', 'ring_buffer_output_index')]
    for p, b in flow.own(cr):
        if '{' in p or not b.argc or not re.match(r"^&('[a-z_0-9{}]+ )?mut raw_to_cmd::RawToCmdState\b", b.locals[1]):
            continue
        ib = body(cr, b)
        if not any((callee_decl(t) or '').split('::')[-1] in ('clone_from_slice', 'copy_from_slice') for _, t in ib_calls(ib)):
            continue
        ib, S, segs = analyse(cr, b)
        bad = None
        here = 0
        for k, bi, st in segs:
            for e in st.ev:
                if e[0] != 'copy' or e[1][1] != ring:
                    continue
                here += 1
                off, c = e[1][2], e[1][3]
                if within(S, st, c, sub(add(out, K(-1)), off)):
                    continue
                if within(S, st, c, sub(L, off)) and (st.facts.get(num(('op', 'lt0', sub(dec, out)))) == ('=', 0) or st.facts.get(num(('op', 'lt0', sub(out, dec)))) == ('=', 1)):
                    continue
                bad = '%s bytes are put into the ring buffer at %s, which is not limited by its free space' % (sym.show(c, ib), sym.show(off, ib))
        if here:
            m += 1
            rep.check('room', p, bad is None, p, bad)
    rep.anchor('functions that fill the ring buffers', n > 0 and m > 0)


def atom_fn(c):
    return sym.atom(c)[1]


def within(S, st, v, bound):
    if S.zero(st, sub(v, bound)):
        return True
    a = sym.atom(v)
    if a is not None and a[0] == 'min':
        return any(within(S, st, x, bound) for x in a[1:])
    return False


def stores_deep(cr, t, name, cache={}):
    key = (id(cr), callee(t), name)
    if key not in cache:
        cs = cr.resolve(t)
        cache[key] = not cs or any(stores_field(flow.IBody(cr, cr.fns[f]), name) for f in cr.reach([c.path for c in cs])[0] if f in cr.fns)
    return cache[key]


def progress(cr, rep):
    """how far into the current command the decoder is moves by what was put into the ring buffer"""
    n = 0
    P = (('h', arg0(1)), (('f', 'state'), ('f', 'input_sub_offset')))
    ring = (('h', arg0(1)), (('f', 'ring_buffer'),))
    own = {}
    for p, b in flow.own(cr):
        if '{' in p or not b.argc or not re.match(r"^&('[a-z_0-9{}]+ )?mut cmd_to_raw::DivansRecodeState\b", b.locals[1]):
            continue
        if any(CU.match(b.locals[i]) for i in range(1, b.argc + 1)):
            continue
        raw = flow.IBody(cr, b)
        told = re.match(r'^core::result::Result<(u32|usize),', b.locals[0])
        if not told and not stores_field(raw, 'input_sub_offset'):
            continue
        own[p] = (b, told)
    movers = set(p for p, (b, told) in own.items() if told)
    for p, (b, told) in sorted(own.items()):
        ib = body(cr, b)
        try:
            ib, S, segs = analyse(cr, b, keep=P)
        except sym.TooMany:
            rep.notes.append('not decided (too many paths): %s' % p)
            continue
        fails = []
        moved = False
        for k, bi, st in segs:
            q = num(sym_at(st.start[0], P)) if not told else K(0)
            for e in st.ev:
                m = None
                if e[0] == 'in':
                    m = e[3]
                elif e[0] == 'copy' and e[1][1] == ring:
                    m = e[2][3]
                elif e[0] == 'call' and e[1] in movers:
                    m = num(('.', e[3], (('d', 'Ok'), ('f', '0'))))
                if m is not None:
                    moved = True
                    q = add(q, m)
            if told:
                if k != 'ret' or st.read((('l', 0), (('#',),))) != ('var', 'Ok'):
                    continue
                end = num(st.read((('l', 0), (('d', 'Ok'), ('f', '0')))))
                if st.start[1] != 'entry':
                    continue
            else:
                end = num(st.read(P))
                # an error out of the copy ends the command
                if any(e[0] == 'call' and e[1] in movers for e in st.ev) and S.zero(st, sub(end, num(sym_at(st.start[0], P)))):
                    continue
            if not S.zero(st, sub(end, q)):
                fails.append((None, 'the %s ends at %s, but bytes up to %s were put into the ring buffer' % (
                    'reported count' if told else 'position within the command', sym.show(end, ib), sym.show(q, ib))))
        if not moved:
            continue
        n += 1
        rep.fns.add(p)
        rep.count('command positions')
        for sp, msg in fails[:1]:
            rep.bad('progress', p, p, msg)
        if not fails:
            rep.ok('progress', p)
    rep.anchor('functions that put command bytes into the ring buffer', n > 0)


def ib_calls(ib):
    for bi in ib.live_blocks:
        t = ib.blocks[bi]['t']
        if t['k'] == 'call':
            yield bi, t


def sym_at(mem, p):
    s = sym.State()
    s.mem = mem
    return s.read(p)


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('count', 'bytes moved to or from a caller\'s buffer start at its cursor, and the cursor or returned count ends where they end')
    rep.rule('store', 'bytes moved to or from a buffer kept in an object start at its stored index, and the index ends where they end (modulo the ring size)')
    stores(cr, rep)
    rep.rule('mux', 'a stream buffer\'s start and end follow the bytes that leave it or are moved within it')
    mux(cr, rep)
    rep.rule('progress', 'the position within a half-delivered command moves by the bytes delivered')
    progress(cr, rep)
    rep.rule('room', 'the ring buffer takes at most its free space, and the free space keeps one slot empty')
    room(cr, rep)
    for p, b in flow.own(cr):
        if '{' in p:
            continue
        obs = obligations(cr, b)
        if not obs:
            continue
        rep.fns.add(p)
        left = []
        for ob in obs:
            rep.count('obligations')
            if passed_on(cr, b, ob):
                rep.count('passed on')
                rep.ok('count', '%s:%s' % (p, ob[3]))
            else:
                left.append(ob)
        if not left:
            continue
        try:
            ib, S, segs = analyse(cr, b)
        except sym.TooMany:
            rep.count('functions with too many paths')
            rep.notes.append('not decided (too many paths): %s' % p)
            continue
        for ob in left:
            f = verify(cr, b, ib, S, segs, ob)
            rep.count('segments', len(segs))
            for sp, msg, st in f[:1]:
                rep.bad('count', '%s:%s' % (p, ob[3]), '%s:%s' % tuple(sp[:2]) if sp else p, msg)
            if not f:
                rep.ok('count', '%s:%s' % (p, ob[3]))
    rep.floor('obligations', 60)
    rep.floor('segments', 200)
    rep.floor('store cursors', 6)
    rep.floor('stream copies', 3)
