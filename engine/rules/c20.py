"""C20: whether a stream is decoded by one thread or by two, every command read takes effect
once, in order and as what it is; likewise the data, maps and results that travel with it."""
import re
from .. import flow, sym
from ..mir import callee_decl, canon, ty_head
from ..sym import K, num, add, sub, is_const, atom
from . import c02
from .c02v import walk
from .c16 import Again, facts, yes, flat

EXPLAIN = ('Every function of the queue between the two threads, of the wrappers around it and of the main thread\'s side of the decoder is followed symbolically '
           'along every path (engine/sym.py). Queue operations are compared with what a queue does: an item that is accepted is stored behind the ones already there '
           'and counted once, an item that is refused leaves everything as it was, items are taken from the front, whole batches change hands with their maps and '
           'used buffers. Wrappers must pass on their own arguments, each in its place, and the answer. On the main thread every command is taken once, at the place the cursor '
           'stands at, only when the one before it has been written, and each kind must have exactly the effect it has when one thread does it all: '
           'the same command to the output, the last bytes read from the output before literals, the oldest prediction mode, the block type noted.')
ASSUME = ['Mutex and Condvar do what they say (C09, C10 decide waiting)', 'a map handed back to the worker is only used as storage',
          'worker and single thread run the same generic code up to a command (C01, C16)']

ROOT = ('h', ('m', ('l', 1), ()))
P = lambda k: ('h', ('m', ('l', k), ()))
SNAP = {'send_any_empty_data_buffer_to_main', 'process_eof', 'pull_command_buf', 'populate_ring_buffer', 'encode_cmd', 'obs_prediction_mode_context_map', 'insert_results', 'push_context_map'}


class Pol(Again):
    def contract(self, S, st, bi, t, args):
        d = callee_decl(t) or ''
        n = d.split('::')[-1]
        if n in ('index', 'index_mut') and args and args[0][0] == 'ref' and 'AllocatedMemoryPrefix' in S.op_ty(t['a'][0]):
            b = args[0][1]
            st.write(S.place(st, t['d']), ('ref', (b[0], b[1] + (('f', '0'), ('i', num(args[1]))))))
            return True
        if n in SNAP:
            st.ev += (('snap', n, dict(st.mem), tuple(args)),)
        return Again.contract(self, S, st, bi, t, args)


def paths(cr, p, cap=4000):
    ib = flow.IBody(cr, cr.fns[p])
    pol = Pol(cr, None, p)
    S = sym.Sym(ib, pol, cap)
    S.run()
    return ib, S, pol.segs


def init(root, *els):
    return ('m', root, tuple(els))


def fld(*names):
    return tuple(('f', x) if isinstance(x, str) else ('i', K(x)) for x in names)


def ret(st):
    v = st.mem.get((('l', 0), (('#',),)))
    return v[1] if v is not None and v[0] == 'var' else None


def changed(st, root, names=None):
    """places behind root that do not hold what they held at the start"""
    out = []
    for (r, el), v in st.mem.items():
        if r != root or el and el[-1] == ('#',) and v[0] == 'var' and False:
            continue
        if v == ('m', r, el) or v == num(('m', r, el)):
            continue
        if st.start is not None and st.start[0].get((r, el)) == v:
            continue
        if names is not None and (not el or el[0] not in [('f', x) for x in names]):
            continue
        out.append((el, v))
    return out


def calls(st, name):
    return [e for e in st.prev + st.ev if e[0] == 'call' and e[1].split('::')[-1] == name]


def outer(S):
    """loop heads that are in no other loop"""
    return set(h for h in S.loops if not any(h in b and g != h for g, b in S.loops.items()))


def turn(S, st):
    """memory as it was when this turn of the outermost loop (or the function) began"""
    o = outer(S)
    for s in reversed(st.starts + ((st.start,) if st.start else ())):
        if s[1] in o or s[1] == 'entry':
            return s[0]
    return {}


def known(st, a, b, op):
    """lt0(a-b) / eq0(a-b) as far as the path conditions say: True, False or None"""
    d = sub(a, b)
    if is_const(d):
        return d[1] < 0 if op == 'lt0' else d[1] == 0
    for x, f in facts(st):
        if x[0] == 'op' and x[1] == op:
            for e, neg in ((num(x[2]), False), (sym.mulk(num(x[2]), -1), True)):
                if e == d and not (neg and op == 'lt0'):
                    return True if yes(f) else False if f == ('=', 0) else None
    return None


def atleast0(st, x):
    """x >= 0, as far as the path conditions say"""
    x = num(x)
    if is_const(x):
        return x[1] >= 0
    for a, f in facts(st):
        if a[0] != 'op' or a[1] not in ('lt0', 'eq0'):
            continue
        e = num(a[2])
        if a[1] == 'lt0' and (f == ('=', 0) or yes(f)):
            es = [e if f == ('=', 0) else sub(sym.mulk(e, -1), K(1))]
        elif a[1] == 'eq0' and yes(f):
            es = [e, sym.mulk(e, -1)]
        else:
            continue
        for y in es:
            d = sub(x, y)
            if is_const(d) and d[1] >= 0:
                return True
    return False


def held(st, mem, pl):
    """what the place held when memory was like mem"""
    t = st.copy()
    t.mem = dict(mem)
    return t.read(pl)


def src_of(v):
    """a value without the discriminant marks and fields wrapped around it: (base, path)"""
    els = ()
    while v[0] == '.' or v[0] == 'h' and v[1][0] == '.':
        if v[0] == 'h':
            v = v[1]
            continue
        els = v[2] + els
        v = v[1]
    if v[0] == 'm':
        return ('m', v[1], ()), v[2] + els
    return v, els


def discs(st, v):
    base, els = src_of(v)
    for a, f in facts(st):
        if a[0] == 'disc':
            b, e = src_of(a[1])
            if b == base and e[:len(els)] == els and all(x[0] == '#' for x in e[len(els):]):
                yield f


def disc(st, v):
    """the variant number the path has found behind value v"""
    for f in discs(st, v):
        if f[0] == '=':
            return f[1]
    return None


def is_payload(v, want):
    return v == want or num(v) == num(want)


# ------------------------------------------------------------------ the queue
def arrays(cr, adt):
    """fields of the queue: counted arrays {name: its counter}, others by element type"""
    fs = [tuple(x) for x in cr.adts[adt]['vars'][0]['fields']]
    names = dict(fs)
    cnt = {x: x + '_len' for x, ty in fs if ty.startswith('[') and names.get(x + '_len') == 'usize'}
    return names, cnt


CONSTS = {}


def array_len(ty):
    m = re.search(r'; (?:.*::)?(\w+)\]$', ty)
    return int(m.group(1)) if m and m.group(1).isdigit() else CONSTS.get(m.group(1)) if m else None


def queue(cr, rep):
    CONSTS.clear()
    CONSTS.update((k.split('::')[-1], v) for k, v in cr.consts.items() if k.startswith('threading::'))
    adts = set()
    for p in sorted(cr.fns):
        m = re.match(r'^<(\S+) as threading::MainToThread>::push$', p)
        if m and m.group(1) in cr.adts:
            names, cnt = arrays(cr, m.group(1))
            if cnt:
                adts.add(m.group(1))
    rep.anchor('the queue between the threads', bool(adts))
    for q in sorted(adts):
        names, cnt = arrays(cr, q)
        # the field that holds commands: a prefix of a buffer
        res = [x for x, ty in names.items() if 'AllocatedMemoryPrefix' in ty and not ty.startswith('[')]
        for tr, meth in (('MainToThread', 'push'), ('MainToThread', 'push_context_map'), ('ThreadToMain', 'push_cmd'), ('ThreadToMain', 'push_consumed_data')):
            p = '<%s as threading::%s>::%s' % (q, tr, meth)
            if p not in cr.fns:
                rep.anchor(p, False)
                continue
            accept(cr, rep, p, meth, names, cnt, res)
        for meth in ('pull_data', 'pull_context_map'):
            take(cr, rep, '<%s as threading::ThreadToMain>::%s' % (q, meth), meth, names, cnt)
        batch(cr, rep, '<%s as threading::MainToThread>::pull' % q, names)
        for p in sorted(cr.fns):
            if p.startswith(q + '::') and p.endswith('::insert_results'):
                inserted(cr, rep, p, names)


def where(cr, p):
    return '%s:%s' % c02.b_file(cr, p)


def slots(st, names, root=ROOT):
    """things put into array fields of the queue on this path: (field, index, place)"""
    out = {}
    for el, v in changed(st, root):
        if len(el) >= 2 and el[0][0] == 'f' and el[0][1] in names and el[1][0] == 'i':
            out.setdefault((el[0][1], num(el[1][1])), []).append((el[2:], v))
    return out


def occupied(st, root, el):
    """what the path knows about the slot: True = in use, False = free"""
    for a, f in facts(st):
        r = repr(a)
        if repr((root, el)) in r or repr(root)[:-1] in r and repr(el)[1:-1] in r:
            if a[0] == 'op' and a[1].startswith('acc has_context_speeds'):
                return True if yes(f) else False
            if a[0] == 'op' and a[1] == 'eq0' and 'len' in r:
                return True if f == ('=', 0) else False
            # assert_eq!(slot.has_context_speeds(), false)
            if a[0] == 'op' and a[1] == 'eq0' and 'has_context_speeds' in r and yes(f):
                return False
    return None


def mapslot(st, rep, p, k, w, names, val):
    """a map that travels with a command goes to the first free slot of its array"""
    sl = [(f, i, xs) for (f, i), xs in slots(st, names).items() if 'PredictionMode' in names[f] and names[f].startswith('[')]
    n = 0
    for f, i, xs in sl:
        n += 1
        if not is_const(i):
            continue
        got = [v for el, v in xs if el == ()]
        rep.check('queue', k + ':map', any(val(v) for v in got), w, 'what is stored among the maps (%s) is not the map that came with the command' % f)
        rep.check('queue', k + ':free', occupied(st, ROOT, fld(f, i[1])) is False, w, 'a map is stored over one that has not been taken (%s[%d])' % (f, i[1]))
        for j in range(i[1]):
            rep.check('queue', k + ':first', occupied(st, ROOT, fld(f, j)) is True, w, 'a map is stored in place %d of %s although place %d may be free, so the maps come out in another order' % (i[1], f, j))
    return n


def accept(cr, rep, p, meth, names, cnt, res):
    w = where(cr, p)
    ib, S, segs = paths(cr, p)
    rep.fns.add(p)
    item = (ROOT[0], ('m', ('l', 2), ()))
    byval = not cr.fns[p].locals[2].startswith('&')
    thing = init(('l', 2)) if byval else init(P(2))
    got = 0
    for kind, bi, st, last in segs:
        if kind != 'ret':
            continue
        r = ret(st)
        k = '%s:%s' % (p, 'accepted' if r in ('Ok', 'Success') else 'refused')
        if r not in ('Ok', 'Success'):
            ch = changed(st, ROOT)
            rep.check('queue', k, not ch, w, 'an item is refused and yet the queue is changed (%s)' % ', '.join(sorted(set(el[0][1] for el, v in ch if el and el[0][0] == 'f'))))
            continue
        got += 1
        if meth == 'push_cmd':
            dc = calls(st, 'downcast_command')
            v = dc[0][3] if dc else None
            ln = init(ROOT, ('f', res[0]), ('f', '1'))
            new = num(st.read((ROOT, (('f', res[0]), ('f', '1')))))
            cell = (ROOT, (('f', res[0]), ('f', '0'), ('i', num(ln))))
            rep.check('queue', k + ':place', v is not None and is_payload(st.read(cell), ('.', v, (('f', '0'),))), w, 'the command is not stored behind the ones that wait')
            rep.check('queue', k + ':count', sub(new, num(ln)) == K(1), w, 'a command that is stored is not counted once')
            if v is not None:
                pm = ('.', v, (('f', '1'),))
                some = any(a[0] == 'disc' and f == ('=', 1) and v in list(walk(a)) for a, f in facts(st)) or 'Some' in repr([x for x in st.mem if repr(v) in repr(x)])
                n = mapslot(st, rep, p, k, w, names, lambda x: src_of(x)[0] == v or v in list(walk(x)))
                none = any(a[0] == 'disc' and (f == ('=', 0) or f[0] == '!' and 1 in f[1]) and v in list(walk(a)) for a, f in facts(st))
                rep.check('queue', k + ':carried', n == 1 or none, w, 'the map of a prediction mode command is not stored with it')
            continue
        if meth == 'push_consumed_data':
            sl = [(f, i, xs) for (f, i), xs in slots(st, names).items()]
            ok = len(sl) == 1 and any(is_payload(v, thing) for el, v in sl[0][2] if el == ())
            if not sl:
                # for slot in self.result_data.iter_mut()
                its = [r for (r, el), v in st.mem.items() if r[0] == 'h' and el == () and r != P(2) and "'core::iter::Iterator::next'" in repr(r) and is_payload(v, thing)]
                ok = len(its) == 1
                rep.check('queue', k + ':free', not ok or any(repr(its[0]) in repr(a) and a[0] == 'op' and a[1] == 'eq0' and yes(f) for a, f in facts(st)), w, 'a used buffer is stored over another one')
            rep.check('queue', k + ':place', ok, w, 'a used buffer is not stored')
            for f, i, xs in sl:
                if is_const(i):
                    rep.check('queue', k + ':free', occupied(st, ROOT, fld(f, i[1], '0')) is False, w, 'a used buffer is stored over another one')
            continue
        sl = [(f, i, xs) for (f, i), xs in slots(st, names).items() if f in cnt]
        ok = len(sl) == 1
        rep.check('queue', k + ':place', ok and sl[0][1] == num(init(ROOT, ('f', cnt[sl[0][0]]))), w, 'the item is not stored behind the ones that wait')
        if ok:
            f, i, xs = sl[0]
            rep.check('queue', k + ':item', any(is_payload(v, thing) for el, v in xs), w, 'what is stored is not the item')
            new = num(st.read((ROOT, (('f', cnt[f]),))))
            size = array_len(names[f])
            if size:
                rest = sub(K(size), num(init(ROOT, ('f', cnt[f]))))
                rep.check('queue', k + ':room', known(st, rest, K(0), 'eq0') is False or atleast0(st, sub(rest, K(1))), w, 'an item is accepted although there may be no room for it')
            rep.check('queue', k + ':count', sub(new, num(init(ROOT, ('f', cnt[f])))) == K(1), w, 'an item that is stored is not counted once')
    rep.check('queue', p + ':accepts', got > 0, w, 'nothing is ever accepted')


def take(cr, rep, p, meth, names, cnt):
    if p not in cr.fns:
        rep.anchor(p, False)
        return
    w = where(cr, p)
    ib, S, segs = paths(cr, p)
    rep.fns.add(p)
    got = 0
    for kind, bi, st, last in segs:
        if kind != 'ret':
            continue
        r = ret(st)
        if r in ('Err', 'Yield', 'Failure'):
            ch = changed(st, ROOT)
            rep.check('queue', p + ':nothing', not ch, w, 'nothing is handed out and yet the queue is changed')
            continue
        v = st.read((('l', 0), ())) if meth == 'pull_data' else st.mem.get((('l', 0), (('d', 'Ok'), ('f', '0'))))
        v = atom(v) or v if v is not None else None
        ok = v is not None and v[0] == 'm' and v[1] == ROOT and len(v[2]) == 2 and v[2][0][1] in cnt and v[2][1][0] == 'i'
        rep.check('queue', p + ':item', ok, w, 'what is handed out is not an item of the queue')
        if not ok:
            continue
        got += 1
        f, i = v[2][0][1], num(v[2][1][1])
        ln = num(init(ROOT, ('f', cnt[f])))
        rep.check('queue', p + ':count', sub(ln, num(st.read((ROOT, (('f', cnt[f]),))))) == K(1), w, 'an item that is handed out is not counted off once')
        rep.check('queue', p + ':some', known(st, ln, K(0), 'eq0') is False or known(st, K(0), ln, 'lt0') is True, w, 'an item is handed out although there may be none')
        if meth == 'pull_data':
            rep.check('queue', p + ':order', i == K(0), w, 'data is not handed out in the order in which it came')
            for j in range((array_len(names[f]) or 2) - 1):
                x = st.read((ROOT, fld(f, j)))
                rep.check('queue', p + ':order', is_payload(x, init(ROOT, *fld(f, j + 1))), w, 'data that waits does not move up')
        else:
            rep.check('queue', p + ':last', i == sub(ln, K(1)) or i == K(0), w, 'the map handed out is not one that was stored')
    rep.check('queue', p + ':hands out', got > 0, w, 'nothing is ever handed out')


def batch(cr, rep, p, names):
    if p not in cr.fns:
        rep.anchor(p, False)
        return
    w = where(cr, p)
    ib, S, segs = paths(cr, p)
    rep.fns.add(p)
    for kind, bi, st, last in segs:
        if kind != 'ret':
            continue
        fs = set()
        for k in (2, 3, 4):
            v = atom(st.read((P(k), ()))) or st.read((P(k), ()))
            ok = v[0] == 'm' and v[1] == ROOT and len(v[2]) == 1 and v[2][0][0] == 'f'
            rep.check('queue', p + ':out', ok, w, 'a part of the batch (%s) does not reach the main thread' % (ib.name(k) or k))
            if not ok:
                continue
            f = v[2][0][1]
            rep.check('queue', p + ':once', f not in fs, w, 'one part of the batch is handed out twice')
            fs.add(f)
            x = st.read((ROOT, (('f', f),)))
            rep.check('queue', p + ':gone', not is_payload(x, init(ROOT, ('f', f))), w, '%s is handed out and stays in the queue' % f)
        r = atom(st.read((('l', 0), ()))) or st.read((('l', 0), ()))
        rep.check('queue', p + ':status', r[0] == 'm' and r[1] == ROOT and 'CommandResult' in names.get(r[2][0][1], ''), w, 'the status handed out with the batch is not the one of the stream')


def inserted(cr, rep, p, names):
    w = where(cr, p)
    ib, S, segs = paths(cr, p)
    rep.fns.add(p)
    res = [x for x, ty in names.items() if 'AllocatedMemoryPrefix' in ty and not ty.startswith('[')][0]
    ln = num(init(ROOT, ('f', res), ('f', '1')))
    for kind, bi, st, last in segs:
        if kind != 'ret':
            continue
        whole = st.mem.get((ROOT, (('f', res),)))
        sw = whole is not None and is_payload(whole, init(P(2)))
        cp = [e for e in (st.prev + st.ev) if e[0] == 'copy' and e[1][0] == 'slice' and e[1][1] == (ROOT, fld(res, '0'))]
        new = st.mem.get((ROOT, fld(res, '1')))
        if sw:
            rep.check('queue', p + ':swap', known(st, ln, K(0), 'eq0') is True, w, 'a batch replaces commands that have not been taken')
        else:
            n = sub(num(new), ln) if new is not None else None
            rep.check('queue', p + ':append', len(cp) == 1 and num(cp[0][1][2]) == ln and n is not None and num(cp[0][1][3]) == n, w,
                      'a batch is not put behind the commands that wait, or not counted by its length')
            if len(cp) == 1:
                src = cp[0][2][0] if isinstance(cp[0][2], tuple) else None
                src = cp[0][2] if src == 'slice' else src
                if src and src[0] == 'slice':
                    rep.check('queue', p + ':whole', num(src[2]) == K(0) and (num(src[3]) == num(cp[0][1][3]) or num(src[3]) == num(('len', src[1]))), w, 'not the whole batch is put into the queue')
        c1 = st.mem.get((P(2), fld('1')))
        rep.check('queue', p + ':emptied', c1 is not None and num(c1) == K(0), w, 'the batch is not empty afterwards, so its commands come again')
        some = [f for a, f in facts(st) if a[0] == 'disc' and ('l', 3) in list(walk(a)) or a[0] == 'disc' and repr(('m', ('l', 3), (('#',),))) in repr(a)]
        n = mapslot(st, rep, p, p + ':insert', w, names, lambda x: ('m', ('l', 3), (('d', 'Some'), ('f', '0'))) in list(walkp(x)))
        if ('=', 1) in some:
            rep.check('queue', p + ':carried', n == 1, w, 'the map of a prediction mode command is not stored with it')


def downcast(cr, rep):
    """what travels to the main thread is the command that was read"""
    for p in sorted(cr.fns):
        if not p.endswith('threading::downcast_command'):
            continue
        w = where(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        vs = cr.variants('brotli::interface::Command')
        seen = set()
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            d = [f[1] for a, f in facts(st) if a[0] == 'disc' and a[1] == ('m', P(1), (('#',),)) and f[0] == '=']
            if len(d) != 1:
                continue
            src = vs[d[0]]
            seen.add(src)
            v = st.mem.get((('l', 0), (('f', '0'), ('#',))))
            new = v[1] if v else None
            k = '%s:%s' % (p, src)
            rep.check('same', k, new == src, w, 'a %s is sent on as a %s' % (src, new))
            pay = (('f', '0'), ('d', src), ('f', '0'))
            if src == 'PredictionMode':
                o = st.mem.get((('l', 0), (('f', '1'), ('d', 'Some'), ('f', '0'))))
                rep.check('same', k + ':map', o == ('ref', (P(1), (('d', src), ('f', '0')))), w, 'a prediction mode is sent on without its map')
            elif src == 'Literal':
                e = calls(st, 'new')
                n = [atom(num(x[2][0])) for x in e if x[2] and x[2][0][0] in ('L', 'len', 'op', 'm', 'call')]
                lit = [('len', (P(1), (('d', src), ('f', '0'), ('f', 'data'))))]
                lit += [e[3] for e in calls(st, 'len') if e[2] and e[2][0] == ('ref', lit[0][1])]
                ok = any(x in lit for x in n)
                rep.check('same', k + ':length', ok, w, 'literals are sent on with another length than theirs')
                h = st.mem.get((('l', 0), pay + (('f', 'high_entropy'),)))
                rep.check('same', k + ':entropy', h is not None and is_payload(h, init(P(1), ('d', src), ('f', '0'), ('f', 'high_entropy'))), w, 'literals are sent on with another high_entropy')
            else:
                x = st.mem.get((('l', 0), pay))
                rep.check('same', k + ':payload', x is not None and is_payload(x, init(P(1), ('d', src), ('f', '0'))), w, 'what is sent on is not the %s that was read' % src)
        rep.check('same', p + ':all', seen >= set(vs.values()), w, 'kinds of commands that are not sent on: %s' % ', '.join(sorted(set(vs.values()) - seen)))


# ---------------------------------------------------------------- the wrappers
METH = {'MainToThread': ('push_context_map', 'push', 'pull'), 'ThreadToMain': ('pull_data', 'pull_context_map', 'push_cmd', 'push_consumed_data', 'push_eof'),
        'PullAllocatedCommand': ('pull_command_buf',)}


def same_arg(v, k):
    """v is what the caller was given as its k-th argument"""
    a = atom(v) or v
    return a == ('m', ('l', k), ()) or v == ('ref', (P(k), ())) or a == ('m', P(k), ()) or \
        v[0] == 'slice' and v[1] == (P(k), ()) and num(v[2]) == K(0) or v == ('ref', (('l', k), ()))


def wrappers(cr, rep):
    n = 0
    for p in sorted(cr.fns):
        m = re.match(r'^<(\S+) as threading::(\w+)>::(\w+)$', p)
        if not m or m.group(3) not in METH.get(m.group(2), ()):
            continue
        meth = m.group(3)
        inner = 'pull' if meth == 'pull_command_buf' else meth
        ib, S, segs = paths(cr, p)
        if not any(calls(st, inner) for kind, bi, st, last in segs):
            continue
        n += 1
        w = where(cr, p)
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            es = calls(st, inner)
            if kind == 'back':
                # another round: nothing was handed over in this one
                rep.check('passed', p + ':once', not es, w, 'something may be handed over more than once')
            if kind != 'ret':
                continue
            r = ret(st)
            if not es:
                rep.check('passed', p + ':refused', r in ('Err', 'Failure'), w, 'the wrapper answers %s without handing anything over' % r)
                continue
            rep.check('passed', p + ':once', len(es) == 1, w, 'something is handed over more than once')
            e = es[0]
            for k in range(1, min(len(e[2]), cr.fns[p].argc)):
                ty = cr.fns[p].locals[k + 1]
                if re.search(r'Specialization|Option<&|^&(\S+ )?mut \[u8\]|^&(\S+ )?mut usize', ty) and 'Demuxer' not in m.group(1):
                    continue
                if e[2][k] == ('const', 'core::option::Option::None') or e[2][k][0] == 'tup':
                    continue
                rep.check('passed', '%s:%d' % (p, k + 1), same_arg(e[2][k], k + 1), w, 'argument %s is not handed on in its place' % (ib.name(k + 1) or k + 1))
            v = st.read((('l', 0), ()))
            res = atom(v) or v
            ok = res == e[3]
            if not ok and r is not None:
                # the answer is given again variant by variant
                d = disc(st, e[3])
                vs = cr.variants(ty_head(cr.fns[p].locals[0])) or {0: 'Ok', 1: 'Err'}
                ok = d is not None and vs.get(d) == r
            rep.check('passed', p + ':answer', ok, w, 'the answer is not the one of the queue')
    rep.count('wrappers', n)


Q = ('m', ('h', ('queue',)), ())


def inq(v, fields):
    """the same value, with the queue behind whichever lock guard called Q"""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('m',) and len(v) == 3 and isinstance(v[2], tuple) and v[2] and v[2][0][0] == 'f' and v[2][0][1] in fields and v[1][0] == 'h' and v[1][1][0] == 'call' and v[1][1][1].split('::')[-1] in ('deref', 'deref_mut'):
        return ('m', Q[1], v[2])
    if v[:1] == ('len',) and len(v) == 2 and v[1][1] and v[1][1][0][0] == 'f' and v[1][1][0][1] in fields and v[1][0][0] == 'h' and v[1][0][1][0] == 'call' and v[1][0][1][1].split('::')[-1] in ('deref', 'deref_mut'):
        return ('len', (Q[1], v[1][1]))
    return tuple(inq(x, fields) for x in v)


class View(object):
    """path conditions in terms of Q"""

    def __init__(self, st, fields):
        self.facts = {}
        for v, f in st.facts.items():
            v = inq(v, fields)
            if v[0] == 'L':
                v = v[:2] + (tuple(sorted(v[2], key=repr)),)
            self.facts[v] = f


def positive(vw, x):
    x = num(x)
    if atleast0(vw, sub(x, K(1))):
        return True
    return known(vw, x, K(0), 'eq0') is False


def absent(vw, x):
    return atleast0(vw, sym.mulk(num(x), -1)) or known(vw, num(x), K(0), 'eq0') is True


def ready(cr, rep):
    """the two threads wait only while there is nothing to do, and go on only when there is"""
    qs = [m.group(1) for m in (re.match(r'^<(\S+) as threading::MainToThread>::push$', p) for p in sorted(cr.fns)) if m and m.group(1) in cr.adts and arrays(cr, m.group(1))[1]]
    if not qs:
        return
    q = qs[0]
    names, cnt = arrays(cr, q)
    res = [x for x, ty in names.items() if 'AllocatedMemoryPrefix' in ty and not ty.startswith('[')][0]
    stat = [x for x, ty in names.items() if ty.endswith('CommandResult')]
    bufs = [x for x, ty in names.items() if ty.startswith('[') and 'AllocatedMemoryRange' in ty]
    count = {}
    for f, c in cnt.items():
        count['data' if 'ThreadData' in names[f] else 'map'] = (('m', Q[1], fld(c)), array_len(names[f]))
    room = sub(num(('len', (Q[1], fld(res, '0')))), num(('m', Q[1], fld(res, '1'))))

    def want(c, t, cands, stack):
        return cands[0] if len(cands) == 1 and cands[0].path.startswith(q + '::') and cands[0].locals[0] == 'bool' else None
    n = 0
    for p in sorted(cr.fns):
        m = re.search(r'::(push_cmd|pull_data|pull_context_map|push_context_map|pull|force_push)$', p)
        if not m or not any((callee_decl(t) or '').endswith('Condvar::wait') for bi, t in cr.fns[p].calls()):
            continue
        meth = m.group(1)
        inner = {'force_push': 'insert_results'}.get(meth, meth)
        ib = flow.IBody(cr, cr.fns[p], want)
        pol = Pol(cr, None, p)
        sym.Sym(ib, pol, 4000).run()
        rep.fns.add(p)
        w = where(cr, p)
        n += 1
        for kind, bi, st, last in pol.segs:
            vw = View(st, names)
            err = any(e[2] and e[2][0][0] == 'ref' and e[2][0][1][1][-1:] == (('f', 'err'),) and
                      any(a == e[3] and yes(f) == (e[1].endswith('is_some')) and (yes(f) or f == ('=', 0)) for a, f in facts(st))
                      for e in st.ev if e[0] == 'call' and e[1].split('::')[-1] in ('is_some', 'is_none'))
            err = err or any(a[0] == 'disc' and src_of(a[1])[1][:1] == fld('err') and f == ('=', 1) for a, f in facts(vw))
            x = {'push_cmd': room, 'pull_data': num(count['data'][0]) if 'data' in count else None, 'pull_context_map': num(count['map'][0]) if 'map' in count else None,
                 'push_context_map': sub(K(count['map'][1]), num(count['map'][0])) if 'map' in count and count['map'][1] else None}.get(meth)
            if meth == 'force_push':
                own = [f for f, ty in map(tuple, cr.adts[p.rsplit('::', 1)[0]]['vars'][0]['fields']) if 'AllocatedMemoryPrefix' in ty]
                x = add(sub(room, num(init(ROOT, ('f', own[0]), ('f', '1')))), K(1)) if own else None
            went = calls(st, inner)
            waits = calls(st, 'wait')
            if went and x is not None and meth != 'force_push':
                rep.check('ready', p + ':goes on', err or positive(vw, x), w, 'the thread goes on although %s' % ('there may be no room' if meth.startswith('push') else 'there may be nothing'))
            if went and meth == 'force_push' and x is not None:
                rep.check('ready', p + ':goes on', atleast0(vw, sub(x, K(1))), w, 'a batch is handed over although there may be no room for it')
            if waits and meth == 'force_push' and any(disc(st, e[3]) == 2 for e in calls(st, 'push_consumed_data')):
                continue
            if waits and x is not None:
                rep.check('ready', p + ':waits', absent(vw, x), w, 'the thread may wait although it could go on')
            if waits and meth == 'pull':
                none = absent(vw, ('m', Q[1], fld(res, '1')))
                ok = any(a[0] == 'disc' and src_of(a[1])[1][:1] == fld(stat[0]) and f == ('=', 0) for a, f in facts(vw)) if stat else True
                back = absent(vw, ('len', (Q[1], fld(bufs[0], 0, '0')))) if bufs else True
                rep.check('ready', p + ':waits', none and ok and back, w, 'the main thread may wait although there is %s' % ('a command' if not none else 'news about the stream' if not ok else 'a used buffer'))
    rep.count('waits', n)
    # the end of the stream is noted unless something worse is
    for p in sorted(cr.fns):
        if p == q + '::set_eof_hint' and stat:
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                v = st.mem.get((ROOT, fld(stat[0]) + (('#',),)))
                d = [f for a, f in facts(st) if a[0] == 'disc' and src_of(a[1])[1][:1] == fld(stat[0])]
                left = any(f[0] == '=' and f[1] != 0 or f[0] == '!' and 0 in f[1] for f in d)
                rep.check('ready', p, v == ('var', 'Eof') or left and v is None, where(cr, p), 'the end of the stream may go unnoticed')


def demuxer(cr, rep):
    """the worker's input: the buffer that came, all of it, in order"""
    n = 0
    for p in sorted(cr.fns):
        m = re.match(r'^<?(threading::\w*Demuxer)( as codec::\S+| as \S*StreamDemuxer)?>?::(\w+)$', p)
        if not m:
            continue
        adt, meth = m.group(1), m.group(3)
        F = fields_named(cr, adt)
        sl = [x for x, ty in F.items() if 'AllocatedMemoryRange' in ty]
        if len(sl) != 1:
            continue
        sl = sl[0]
        start = (ROOT, fld(sl, '1', 'start'))
        end = (ROOT, fld(sl, '1', 'end'))
        w = where(cr, p)
        if meth in ('read_buffer', 'consume', 'data_ready', 'peek', 'consumed_all_streams_until_eof', 'encountered_eof', 'pull_if_necessary', 'send_any_empty_data_buffer_to_main'):
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            n += 1
        else:
            continue
        empty = {('m', ROOT, fld(sl))}

        def nothing_left(st):
            """the path knows that everything that came was read"""
            for a, f in facts(st):
                if a[0] == 'op' and a[1] == 'eq0' and (f == ('=', 1) or yes(f)):
                    x = num(a[2])
                    t = atom(x)
                    if t is not None and t[0] == 'len' and t[1] == (ROOT, fld(sl)):
                        return True
                    if t is not None and t[0] == 'len' and t[1][0][0] == 'h' and any(e[0] == 'call' and e[3] == t[1][0][1] and e[2] and e[2][0] == ('ref', (ROOT, fld(sl))) for e in st.ev):
                        return True
            return False
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            if meth == 'consume':
                sn = [e for e in st.ev if e[0] == 'snap' and e[1] == 'send_any_empty_data_buffer_to_main']
                x = (sn[0][2] if sn else st.mem).get(start)
                rep.check('input', p, x is not None and sub(num(x), num(('m',) + start)) == num(('m', ('l', 3), ())), w, 'what is counted as read is not what was read')
            elif meth == 'read_buffer':
                d = st.mem.get((('l', 0), (('i', K(0)), ('f', 'data'))))
                o = st.mem.get((('l', 0), (('i', K(0)), ('f', 'read_offset'))))
                ok = d is not None and d[0] == 'slice' and d[1] == (ROOT, fld(sl, '0')) and num(d[2]) == K(0) and num(d[3]) == num(st.read(end))
                rep.check('input', p + ':bytes', ok, w, 'what is read from is not the buffer that came up to its end')
                rep.check('input', p + ':from', o == ('ref', start), w, 'reading does not go on from where it was')
            elif meth == 'send_any_empty_data_buffer_to_main':
                if calls(st, 'push_consumed_data'):
                    rep.check('input', p, nothing_left(st), w, 'a buffer is given back although not all of it was read')
            elif meth == 'pull_if_necessary':
                for e in calls(st, 'pull_data'):
                    rep.check('input', p + ':empty', nothing_left(st), w, 'another buffer is taken although not all of the one before was read')
                    d = disc(st, e[3])
                    vs = cr.variants('threading::ThreadData')
                    x = st.mem.get((ROOT, fld(sl)))
                    kept = x is not None and src_of(x)[0] == e[3]
                    y = st.mem.get((ROOT, fld('eof')))
                    if vs.get(d) == 'Data':
                        rep.check('input', p + ':kept', kept, w, 'data that came is not read')
                    elif vs.get(d) == 'Eof':
                        rep.check('input', p + ':end', y is not None and num(y) == K(1), w, 'the end of the data is not noted')
                    if vs.get(d) != 'Eof':
                        rep.check('input', p + ':no end', y is None or num(y) == num(('m', ROOT, fld('eof'))), w, 'the end of the data is noted although it has not come')
            elif meth in ('consumed_all_streams_until_eof', 'encountered_eof'):
                v = num(st.read((('l', 0), ())))
                if v == K(0):
                    continue
                ef = any(a == ('m', ROOT, fld('eof')) and yes(f) for a, f in facts(st))
                lf = nothing_left(st)
                a = atom(v)
                if a is not None and a[0] == 'op' and a[1] == 'eq0':
                    st2 = st.copy()
                    st2.facts[v] = ('=', 1)
                    lf = nothing_left(st2)
                ef = ef or a == ('m', ROOT, fld('eof'))
                rep.check('input', p, ef and lf, w, 'the data is taken to be at its end although there is more')
    rep.count('input of the worker', n)


def buffered(cr, rep):
    """commands gathered before they are handed over"""
    for p in sorted(cr.fns):
        m = re.match(r'^<(\S+) as threading::ThreadToMain>::(\w+)$', p)
        if not m or not any((callee_decl(t) or '').endswith('::force_push') for bi, t in cr.fns[p].calls()):
            continue
        meth = m.group(2)
        w = where(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            fp = calls(st, 'force_push')
            if meth == 'push_cmd':
                dc = calls(st, 'downcast_command')
                ok = len(dc) == 1
                rep.check('gathered', p + ':one', ok, w, 'a command is gathered other than once')
                if not ok:
                    continue
                v = dc[0][3]
                puts = [e for e in (st.prev + st.ev) if e[0] == 'put' and e[1][0] == ROOT and e[1][1][-1][0] == 'i']
                ok = len(puts) == 1 and is_payload(puts[0][2][0] if isinstance(puts[0][2], tuple) and puts[0][2] and isinstance(puts[0][2][0], tuple) else puts[0][2], ('.', v, (('f', '0'),)))
                buf = [x for x, ty in cr.adts[m.group(1)]['vars'][0]['fields'] if 'AllocatedMemoryPrefix' in ty]
                ln = num(init(ROOT, ('f', buf[0]), ('f', '1'))) if buf else None
                cell = (ROOT, fld(buf[0], '0') + (('i', ln),))
                at = any(num(e[1][1][-1][1]) == ln for e in puts) or is_payload(st.read(cell), ('.', v, (('f', '0'),)))
                rep.check('gathered', p + ':place', at, w, 'a command is not put behind the ones gathered')
                new = st.mem.get((ROOT, fld(buf[0], '1')))
                if not fp:
                    rep.check('gathered', p + ':count', new is not None and sub(num(new), ln) == K(1), w, 'a command that is gathered is not counted once')
                    pm = ('.', v, (('f', '1'),))
                    no = any(a[0] == 'call' and a[1].endswith('is_some') and f == ('=', 0) or a[0] == 'call' and a[1].endswith('is_none') and yes(f) or
                             a[0] == 'disc' and v in list(walk(a)) and (f == ('=', 0) or f[0] == '!' and 1 in f[1]) for a, f in facts(st))
                    rep.check('gathered', p + ':map', no, w, 'a prediction mode is gathered without its map being handed over')
                else:
                    rep.check('gathered', p + ':end', all(e[2][1] == K(0) for e in fp), w, 'the end of the stream is announced with a command')
                    maps = [e[2][3] for e in fp]
                    no = any(a[0] == 'call' and a[1].endswith('is_some') and f == ('=', 0) for a, f in facts(st))
                    rep.check('gathered', p + ':map', no or ('.', v, (('f', '1'),)) in maps, w, 'a prediction mode is handed over without its map')
            elif meth == 'push_eof':
                rep.check('gathered', p + ':end', len(fp) == 1 and fp[0][2][1] == K(1), w, 'the end of the stream is not announced')
            elif meth == 'push_consumed_data':
                rep.check('gathered', p + ':data', len(fp) == 1 and fp[0][2][1] == K(0) and same_arg(fp[0][2][2], 2), w, 'a used buffer is not handed back')
    for p in sorted(cr.fns):
        if not p.endswith('::force_push'):
            continue
        w = where(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            ins = calls(st, 'insert_results')
            hint = calls(st, 'set_eof_hint')
            if kind == 'back':
                rep.check('gathered', p + ':again', not ins, w, 'a batch may be handed over twice')
                rep.check('gathered', p + ':early', not hint, w, 'the end of the stream is announced before the batch is handed over')
            arg = [yes(f) for a, f in facts(st) if a == ('m', ('l', 2), ())]
            if hint:
                rep.check('gathered', p + ':hint', arg == [True], w, 'the end of the stream is announced although it is not in the batch')
            if kind != 'ret':
                continue
            if ret(st) == 'Success':
                rep.check('gathered', p + ':over', len(ins) == 1, w, 'success is reported without the batch having been handed over once')
                for e in ins:
                    b = e[2][1]
                    rep.check('gathered', p + ':batch', b[0] == 'ref' and b[1][0] == ROOT and 'AllocatedMemoryPrefix' in dict(map(tuple, cr.adts[p.rsplit('::', 1)[0]]['vars'][0]['fields'])).get(b[1][1][0][1], ''), w,
                              'something else than the batch is handed over')
                    rep.check('gathered', p + ':with map', (atom(e[2][2]) or e[2][2]) == ('m', ('l', 4), ()), w, 'the batch is handed over without the map that belongs to it')
                if arg == [True]:
                    rep.check('gathered', p + ':announced', bool(hint), w, 'the end of the stream is not announced')
                dat = [f for a, f in facts(st) if a[0] == 'op' and a[1] == 'eq0' and 'len' in repr(a) and (repr(P(3))[1:-1] in repr(a))]
                rep.check('gathered', p + ':data', ('=', 1) in dat or bool(calls(st, 'push_consumed_data')), w, 'a used buffer is not handed back')


# ------------------------------------------------------------ the main thread
def fields_named(cr, adt):
    return dict(tuple(x) for x in cr.adts[adt]['vars'][0]['fields'])


def of_field(v, name):
    """the element of field `name` of self that a value came from: its index, or None"""
    a = atom(v) or v
    els = None
    if a[0] == 'm' and a[1] == ROOT:
        els = a[2]
        if len(els) == 2 and els[0] == ('f', name) and els[1][0] == 'i':
            return num(els[1][1])
    if a[0] == 'phi' and a[2][0] == ROOT:
        els = a[2][1]
        if len(els) == 2 and els[0] == ('f', name) and els[1][0] == 'i':
            return num(els[1][1])
    if a[0] == '.' and len(a[2]) == 1 and a[2][0][0] == 'i' and (ROOT, (('f', name),)) in [x for x in walkp(a[1])]:
        return num(a[2][0][1])
    return None


def walkp(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            for y in walkp(x):
                yield y


def cell(st, a, name):
    """for a discriminant read of an element of the command buffer: (index, place)"""
    if a[0] != 'disc' or a[1][0] not in ('m', '.', 'phi'):
        return None
    v = a[1]
    if v[0] == 'm' and v[2][-1:] == (('#',),):
        root, els = v[1], v[2][:-1]
    elif v[0] == 'phi' and v[2][1][-1:] == (('#',),):
        root, els = v[2][0], v[2][1][:-1]
    else:
        return None
    if root == ROOT and els[:1] == (('f', name),) and els[-1][0] == 'i':
        return num(els[-1][1]), (root, els)
    if root[0] == 'h' and root[1][0] == 'call' and len(els) == 1 and els[0][0] == 'i':
        for e in (st.prev + st.ev):
            if e[0] == 'call' and e[3] == root[1] and e[2] and (ROOT, (('f', name),)) in [x for x in walkp(e[2][0])]:
                return num(els[0][1]), (root, els)
    return None


def packed(v, names):
    """(pieces, complete): which byte of the array goes to which power, None when the term is not of that form"""
    out = {}

    def go(x, k):
        x = num(x)
        if x[1]:
            return False
        for a, c in x[2]:
            if a[0] == 'op' and a[1] in ('BitOr', 'BitXor'):
                if not all(go(y, k * c) for y in a[2:]):
                    return False
            elif a[0] == 'op' and a[1] == 'Shl' and is_const(num(a[3])):
                if not go(a[2], k * c << num(a[3])[1]):
                    return False
            else:
                i = None
                if a[0] in ('.', 'm', 'phi'):
                    els = a[2][1] if a[0] == 'phi' else a[2]
                    if els and els[-1][0] == 'i':
                        i = num(els[-1][1])
                if a[0] == 'phi' or i is None or not is_const(i):
                    return False
                out[i[1]] = out.get(i[1], 0) + k * c
        return True
    return out if go(v, 1) else None


def main_thread(cr, rep):
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('DivansDecoderCodec::decode_process_output'):
            continue
        w = where(cr, p)
        adt = p.rsplit('::', 1)[0]
        F = fields_named(cr, adt)
        vs = cr.variants('brotli::interface::Command')
        cb = [x for x, ty in F.items() if 'StaticCommand' in ty or 'SlicePlaceholder' in ty]
        cb = 'cmd_buffer' if 'cmd_buffer' in F else (cb + [None])[0]
        rep.anchor('the command buffer of the main thread', cb is not None and 'cmd_buffer_offset' in F)
        ib, S, segs = paths(cr, p, 8000)
        rep.fns.add(p)
        off = (ROOT, fld('cmd_buffer_offset'))
        ln = (ROOT, fld(cb, '1'))
        variants = set()
        cr_res = cr.variants('codec::interface::CommandResult') or cr.variants('interface::CommandResult') or {}
        for x in cr.adts:
            if x.endswith('::CommandResult'):
                cr_res = cr.variants(x)
        tops = outer(S)
        for kind, bi, st, last in segs:
            if kind == 'enter' or kind == 'back' and bi not in tops:
                continue
            start = turn(S, st)
            o0 = start.get(off)
            o0 = num(o0) if o0 is not None else num(('m',) + off)
            o1 = st.mem.get(off)
            o1 = num(o1) if o1 is not None else num(('m',) + off)
            cs = [(cell(st, a, cb), f) for a, f in facts(st)]
            cs = [(c, f[1]) for c, f in cs if c and f[0] == '=']
            evs = st.prev + st.ev
            pulls = [e for e in evs if e[0] == 'snap' and e[1] == 'pull_command_buf']
            for e in pulls:
                mem = e[2]
                n0 = start.get(ln)
                rep.check('taken', p + ':emptied', mem.get(ln) is not None and num(mem[ln]) == K(0) and num(mem.get(off, ('x',))) == K(0), w,
                          'a new batch is fetched without the buffer having been emptied and the cursor put at its start')
                l0 = num(held(st, start, ln))
                ok = atleast0(st, sub(o0, l0))
                rep.check('taken', p + ':used up', ok, w, 'a new batch is fetched although there may be commands left')
                a = e[3]
                rep.check('taken', p + ':batch', a[1] == ('ref', (ROOT, fld(cb))) and a[3] == ('ref', (ROOT, fld('pred_buffer'))), w, 'a batch is not fetched into the command buffer and the maps')
            for a, f in facts(st):
                b = src_of(a[1]) if a[0] == 'disc' else None
                if b is not None and f[0] == '=' and b[0][0] == 'call' and b[0][1].endswith('::pull_command_buf') and all(x[0] == '#' for x in b[1]):
                    nm = cr_res.get(f[1])
                    at = (ROOT, fld('cmd_buffer_contains_eof'))
                    ce = num(st.mem.get(at, ('m',) + at))
                    if nm == 'Eof':
                        rep.check('taken', p + ':end', ce == K(1), w, 'the end of the stream came with the batch and is not noted')
                    elif nm == 'Ok':
                        rep.check('taken', p + ':no end', ce != K(1), w, 'the end of the stream is noted although it has not come')
            for e in (st.prev + st.ev):
                if e[0] == 'snap' and e[1] == 'process_eof':
                    mem = e[2]
                    o, l = num(held(st, mem, off)), num(held(st, mem, ln))
                    flag = any(src_of(a)[1] == fld('eof') and yes(f) for a, f in facts(st) if a[0] in ('m', 'phi')) or \
                        any(a[0] == 'phi' and a[2] == (ROOT, fld('eof')) and yes(f) for a, f in facts(st))
                    rep.check('taken', p + ':to the end', flag or atleast0(st, sub(o, l)), w, 'the stream is finished although there may be commands left')
                    at = (ROOT, fld('cmd_buffer_contains_eof'))
                    v = num(mem.get(at, ('m',) + at))
                    rep.check('taken', p + ':after the end', flag or v == K(1) or any(num(a) == v and yes(f) for a, f in facts(st)), w, 'the stream is finished although its end has not come')
            if not cs:
                if not pulls:
                    rep.check('taken', p + ':kept', o1 == o0, w, 'the cursor moves without a command being taken')
                continue
            (idx, place), d = cs[0]
            src = vs[d]
            variants.add(src)
            n += 1
            k = '%s:%s' % (p, src)
            base = K(0) if pulls else o0
            rep.check('taken', k + ':where', idx == base, w, 'the command taken is not the one the cursor stands at')
            rep.check('taken', k + ':once', sub(o1, idx) == K(1), w, 'the cursor does not move on by the one command taken')
            lv = [num(x) for a, f in facts(st) for x in [a] if False]
            bound = False
            for a, f in facts(st):
                if a[0] == 'op' and a[1] == 'lt0' and repr(cb) in repr(a) and yes(f):
                    e = num(a[2])
                    # idx - len < 0, len being the count field of the buffer
                    rest = sub(e, idx)
                    if not rest[1] and len(rest[2]) == 1 and rest[2][0][1] == -1 and repr(('f', '1')) in repr(rest[2][0][0]) or rest[2] and repr(rest[2][0][0]).endswith("(('f', '1'),))"):
                        bound = True
            rep.check('taken', k + ':there', bound, w, 'a command is taken that may be beyond those that came')
            # the one before it is done
            done = False
            for a, f in facts(st):
                if a[0] == 'disc' and f == ('=', 1):
                    b = src_of(a[1])[0]
                    done = done or b[0] == 'call' and b[1].split('::')[-1] in ('populate_ring_buffer', 'encode_cmd')
                if 'is_populating_ring_buffer' in repr(a) and a[0] in ('m', 'phi') and f == ('=', 0):
                    done = True
            rep.check('taken', k + ':before', done, w, 'a command is taken before the one before it has been written to the output')
            effect(cr, rep, p, k, w, st, src, place)
        rep.check('taken', p + ':all', variants >= set(vs.values()), w, 'kinds of commands with no effect: %s' % ', '.join(sorted(set(vs.values()) - variants)))
        # literals that are complete go to the output as literals
        for kind, bi, st, last in segs:
            for e in (st.prev + st.ev):
                if e[0] == 'call' and e[1].split('::')[-1] == 'encode_or_decode_content_bytes' and disc(st, e[3]) == 1:
                    sn = [x for x in (st.prev + st.ev) if x[0] == 'snap' and x[1] in ('populate_ring_buffer', 'encode_cmd')]
                    mem = sn[0][2] if sn else st.mem
                    v = mem.get((ROOT, (('f', 'state_populate_ring_buffer'), ('#',))))
                    f = mem.get((ROOT, fld('is_populating_ring_buffer')))
                    rep.check('effect', p + ':literals', v == ('var', 'Literal') and f is not None and num(f) == K(1), w, 'literals that have been decoded are not written to the output')
    rep.count('commands taken', n)


def effect(cr, rep, p, k, w, st, src, place):
    pay = ('m', place[0], place[1] + (('d', src), ('f', '0')))
    pop = st.mem.get((ROOT, (('f', 'state_populate_ring_buffer'), ('#',))))
    pop = pop[1] if pop is not None and pop[0] == 'var' else None
    on = st.mem.get((ROOT, fld('is_populating_ring_buffer')))
    on = on is not None and num(on) == K(1)
    failed = ret(st) is not None or (('l', 0), (('d', 'Processed'), ('f', '0'))) in st.mem
    if src in ('Copy', 'Dict', 'BlockSwitchCommand', 'BlockSwitchDistance'):
        v = st.mem.get((ROOT, (('f', 'state_populate_ring_buffer'), ('d', src), ('f', '0'))))
        rep.check('effect', k + ':kind', pop == src, w, 'a %s is written to the output as %s' % (src, pop))
        rep.check('effect', k + ':itself', v is not None and is_payload(v, pay), w, 'what is written to the output is not the %s that came' % src)
        rep.check('effect', k + ':on', on, w, 'a %s that came is never written to the output' % src)
        return
    rep.check('effect', k + ':not written', not on, w, 'a %s is written to the output as %s' % (src, pop)) if src != 'Literal' else None
    if src == 'Literal':
        al = [e for e in calls(st, 'alloc_cell') if repr(place[1])[1:-1] in repr(e[2][1])]
        rep.check('effect', k + ':length', any((atom(num(e[2][1])) or ('',))[0] == 'len' and atom(num(e[2][1]))[1][1][-1] == ('f', 'data') for e in al), w, 'room for literals is made in another size than theirs')
        d = st.mem.get((ROOT, fld('state_lit', 'lc', 'data')))
        rep.check('effect', k + ':room', d is not None and any(e[3] in list(walk(d)) or e[3] == d for e in al), w, 'the literals are not put where room was made for them')
        l8 = st.mem.get((ROOT, fld('ctx', 'lbk', 'last_8_literals')))
        got = calls(st, 'last_8_literals')
        rep.check('effect', k + ':history', l8 is not None and bool(got), w, 'literals are decoded without the last bytes of the output having been looked at')
        if l8 is not None:
            pk = packed(l8, None)
            if pk is not None:
                rep.check('effect', k + ':order', pk == {i: 1 << 8 * i for i in range(8)}, w, 'the last bytes of the output are put together in another order')
        ns = calls(st, 'get_nibble_code_state')
        s = st.mem.get((ROOT, fld('state_lit', 'state')))
        rep.check('effect', k + ':start', any(num(e[2][1]) == K(0) and (s == e[3] or atom(num(s)) == e[3]) for e in ns) if s is not None else False, w, 'literals do not start at their first byte')
        ba = [e for e in calls(st, 'bytes_avail')]
        for e in ns:
            a = atom(num(e[2][3]))
            for b in ba:
                if b[3] == a and b[2][0][0] == 'ref' and b[2][0][1][1] and b[2][0][1][1][-1][0] == 'i':
                    rep.check('effect', k + ':stream', num(b[2][0][1][1][-1][1]) == K(1), w, 'the bytes at hand for literals are counted in another stream')
    elif src == 'PredictionMode':
        sn = [e for e in (st.prev + st.ev) if e[0] == 'snap' and e[1] == 'obs_prediction_mode_context_map']
        rep.check('effect', k + ':noted', len(sn) == 1, w, 'a prediction mode is not taken note of exactly once')
        for e in sn:
            v = e[3][1]
            if v[0] == 'ref':
                x = e[2].get(v[1])
                i = of_field(x, 'pred_buffer') if x is not None else (num(v[1][1][-1][1]) if v[1][0] == ROOT and v[1][1][:1] == fld('pred_buffer') and v[1][1][-1][0] == 'i' else None)
                rep.check('effect', k + ':oldest', i == K(0), w, 'the prediction mode taken note of is not the oldest that came')
            rep.check('effect', k + ':into', e[3][0] == ('ref', (ROOT, fld('ctx', 'lbk'))), w, 'the prediction mode is noted somewhere else')
        obs = calls(st, 'obs_prediction_mode_context_map')
        ok = obs and disc(st, obs[0][3])
        fine = obs and not any(a[0] == 'disc' and obs[0][3] in list(walk(a)) and (f[0] == '!' and 1 in f[1] or f[0] == '=' and f[1] != 1) for a, f in facts(st))
        if fine:
            x = st.mem.get((ROOT, fld('pred_buffer', 0)))
            rep.check('effect', k + ':next', x is not None and of_field(x, 'pred_buffer') == K(1), w, 'the prediction mode that came next does not move up')
            y = st.mem.get((ROOT, fld('pred_buffer', 1)))
            rep.check('effect', k + ':free', y is not None and of_field(y, 'pred_buffer') is None, w, 'a prediction mode stays behind after it was taken')
            ct = st.mem.get((ROOT, fld('codec_traits')))
            cc = [e for e in calls(st, 'construct_codec_trait_from_bookkeeping')]
            after = [e for e in cc if (st.prev + st.ev).index(e) > (st.prev + st.ev).index(obs[0])]
            rep.check('effect', k + ':traits', ct is not None and any(e[3] == ct or e[3] in list(walk(ct)) for e in after), w, 'the way literals are decoded is not brought up to date with the prediction mode')
            rep.check('effect', k + ':back', len(calls(st, 'push_context_map')) == 1, w, 'the map is not handed back to the worker')
    elif src == 'BlockSwitchLiteral':
        ob = calls(st, 'obs_literal_block_switch')
        rep.check('effect', k + ':noted', len(ob) == 1, w, 'a switch of the literal block type is not taken note of exactly once')
        for e in ob:
            rep.check('effect', k + ':itself', repr(place[1])[1:-2] in repr(e[2][1]) or any(repr(place[1])[1:-2] in repr(x[2]) and x[3] in list(walk(e[2][1])) for x in calls(st, 'clone')), w, 'the block type noted is not the one that came')


def populate(cr, rep):
    for p in sorted(cr.fns):
        if not p.endswith('DivansDecoderCodec::populate_ring_buffer'):
            continue
        w = where(cr, p)
        ib, S, segs = paths(cr, p)
        rep.fns.add(p)
        on = ('m', ROOT, fld('is_populating_ring_buffer'))
        for kind, bi, st, last in segs:
            if kind != 'ret':
                continue
            e = calls(st, 'encode_cmd')
            known_on = [yes(f) for a, f in facts(st) if a == on]
            new = st.mem.get((ROOT, fld('is_populating_ring_buffer')))
            cleared = new is not None and num(new) == K(0)
            if not e:
                rep.check('effect', p + ':nothing', known_on == [False] and not cleared, w, 'a command that waits is not written to the output')
                continue
            rep.check('effect', p + ':waiting', known_on == [True], w, 'a command is written to the output although none waits')
            rep.check('effect', p + ':this', all(x[2][1] == ('ref', (ROOT, fld('state_populate_ring_buffer'))) for x in e) and len(e) == 1, w, 'another command is written to the output than the one that waits')
            d = disc(st, e[0][3])
            passed = atom(st.read((('l', 0), ()))) == e[0][3]
            might = d == 1 or d is None and not any(f[0] == '!' and 1 in f[1] for f in discs(st, e[0][3]))
            if ret(st) == 'Success' or passed and d == 1:
                pass
            elif passed and might:
                rep.bad('effect', p + ':passed', w, 'whether a command was written to the output is not looked at')
            if ret(st) == 'Success' or passed and d == 1:
                rep.check('effect', p + ':written', cleared, w, 'a command that was written to the output is written again')
                rep.check('effect', p + ':whole', d == 1, w, 'a command counts as written before all of it is')
            elif ret(st) is None:
                rep.check('effect', p + ':more', not cleared, w, 'a command of which only a part was written is given up')


def counted(cr, rep):
    """buffers on their way to the worker are counted: one up for each accepted, one down for each that comes back"""
    for p in sorted(cr.fns):
        if not re.search(r'DivansDecoderCodec::decode_process_(in|out)put$', p):
            continue
        w = where(cr, p)
        ib, S, segs = paths(cr, p, 8000)
        rep.fns.add(p)
        pl = (ROOT, fld('outstanding_buffer_count'))
        for kind, bi, st, last in segs:
            start = st.start[0] if st.start else {}
            a = num(start.get(pl, ('m',) + pl))
            b = num(st.mem.get(pl, ('m',) + pl))
            up = 0
            for e in [e for e in st.ev if e[0] == 'call' and e[1].split('::')[-1] == 'push']:
                d = disc(st, e[3])
                if d is None:
                    up = None
                    break
                up += d == 0
            if up is None:
                continue
            back = [f for x, f in facts(st) if x[0] == 'op' and x[1] == 'eq0' and 'len' in repr(x) and 'Iterator::next' in repr(x)]
            down = 1 if ('=', 0) in back else 0
            d = sub(b, a)
            if not is_const(d):
                continue
            rep.check('counted', p, d == K(up - down), w, 'the buffers on their way to the worker are counted wrongly (%+d where %d went and %d came back)' % (d[1], up, down))


def forked(cr, rep):
    for p in sorted(cr.fns):
        if p.endswith('codec::DivansCodec::fork'):
            w = where(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                e = [x for x in (st.prev + st.ev) if x[0] == 'call' and x[1].endswith('DivansDecoderCodec::new')]
                ok = len(e) == 1
                rep.check('forked', p + ':one', ok, w, 'the main thread\'s part is not made')
                if not ok:
                    continue
                a = e[0][2]
                rep.check('forked', p + ':context', 'thread_ctx' in repr(a[0]) and 'MainThread' in repr(a[0]), w, 'the main thread does not go on with the context it had')
                rep.check('forked', p + ':checksum', is_payload(a[2], init(ROOT, ('f', 'crc'))) or any(x[3] in list(walk(a[2])) and repr(('f', 'crc')) in repr(x[2]) for x in calls(st, 'clone')), w, 'the checksum does not go on from where it was')
                rep.check('forked', p + ':check', is_payload(a[3], init(ROOT, ('f', 'skip_checksum'))), w, 'whether the checksum is checked is not what the caller asked for')
                v = st.mem.get((ROOT, (('f', 'cross_command_state'), ('f', 'thread_ctx'), ('#',))))
                rep.check('forked', p + ':worker', v == ('var', 'Worker'), w, 'the part that is left does not become a worker')
        elif p.endswith('codec::DivansCodec::join'):
            w = where(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                for f in ('crc', 'skip_checksum', 'frozen_checksum'):
                    v = st.mem.get((ROOT, fld(f)))
                    rep.check('forked', p + ':' + f, v is not None and repr(('f', f)) in repr(v) and "('l', 2)" in repr(v), w, '%s does not come back from the main thread\'s part' % f)
                v = st.mem.get((ROOT, (('f', 'cross_command_state'), ('f', 'thread_ctx'), ('#',))))
                rep.check('forked', p + ':context', v == ('var', 'MainThread'), w, 'the context does not come back from the main thread\'s part')
        elif p.endswith('decoder::DivansDecoderCodec::new'):
            w = where(cr, p)
            ib, S, segs = paths(cr, p)
            rep.fns.add(p)
            want = {'ctx': 1, 'crc': 3, 'skip_checksum': 4}
            zero = ['eof', 'cmd_buffer_offset', 'cmd_buffer_contains_eof', 'outstanding_buffer_count', 'deserialized_crc_count', 'is_populating_ring_buffer']
            for kind, bi, st, last in segs:
                if kind != 'ret':
                    continue
                for f, k in sorted(want.items()):
                    v = st.mem.get((('l', 0), fld(f)))
                    rep.check('forked', p + ':' + f, v is not None and is_payload(v, init(('l', k))), w, 'the main thread\'s part does not start with the %s it was given' % f)
                for f in zero:
                    v = st.mem.get((('l', 0), fld(f)))
                    rep.check('forked', p + ':' + f, v is not None and num(v) == K(0), w, 'the main thread\'s part does not start with %s = 0' % f)
                e = calls(st, 'construct_codec_trait_from_bookkeeping')
                v = st.mem.get((('l', 0), fld('codec_traits')))
                rep.check('forked', p + ':traits', v is not None and any(x[3] == v or x[3] in list(walk(v)) for x in e), w, 'the way literals are decoded does not follow from the context')


def serial(cr, rep):
    """one thread: the same history before literals as with two"""
    n = 0
    for p in sorted(cr.fns):
        if not p.endswith('::encode_or_decode_one_command'):
            continue
        w = where(cr, p)
        ib, S, segs = paths(cr, p, 6000)
        rep.fns.add(p)
        for kind, bi, st, last in segs:
            pc = calls(st, 'push_cmd')
            if not pc:
                continue
            e = pc[0]
            rep.check('serial', p + ':this', e[2][1] == ('ref', (ROOT, fld('state_populate_ring_buffer'))), w, 'another command is handed on than the one that was read')
            d = disc(st, e[3])
            v = [(q, x) for q, x in st.mem.items() if q[1] and q[1][-1] == ('f', 'last_8_literals') and (st.start is None or st.start[0].get(q) != x)]
            got = calls(st, 'last_8_literals')
            if got:
                n += 1
                for q, x in v:
                    pk = packed(x, None)
                    if pk is not None:
                        rep.check('serial', p + ':order', pk == {i: 1 << 8 * i for i in range(8)}, w, 'the last bytes of the output are put together in another order')
                rep.check('serial', p + ':kept', bool(v), w, 'the last bytes of the output are not kept for the literals that follow')
            # success of a single thread with its own output: the history must have been renewed
            if d == 1:
                for a, f in facts(st):
                    if a[0] == 'disc' and 'thread_ctx' in repr(a) and f == ('=', 0) and any('ISOLATED' in repr(b) and g == ('=', 0) for b, g in facts(st)):
                        rep.check('serial', p + ':renewed', bool(got), w, 'a command is written to the output and the history of the literals not renewed')
        for kind, bi, st, last in segs:
            ob = calls(st, 'obs_prediction_mode_context_map')
            if ob:
                cc = [e for e in calls(st, 'construct_codec_trait_from_bookkeeping') if (st.prev + st.ev).index(e) > (st.prev + st.ev).index(ob[0])]
                bad = any(v == ('var', 'Failure') for q, v in st.mem.items() if q[0] == ('l', 0)) or any(a[0] == 'disc' and ob[0][3] in list(walk(a)) and (f[0] == '=' and f[1] != 1) for a, f in facts(st))
                if kind == 'ret' and not bad:
                    rep.check('serial', p + ':traits', bool(cc), w, 'the way literals are decoded is not brought up to date with the prediction mode')
    rep.count('commands handed on by one thread', n)


def check(ctx, rep):
    cr = ctx.lib
    for what in (queue, downcast, wrappers, ready, demuxer, buffered, main_thread, populate, counted, forked, serial):
        try:
            what(cr, rep)
        except sym.TooMany:
            rep.notes.append('%s: too many paths' % what.__name__)
    rep.count('obligations', len(rep.obs))
