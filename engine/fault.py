"""Error propagation: on every path on which a call has returned a failure, the
function ends by reporting a failure (to its caller, to a sink, or by aborting)."""
from . import flow, mir
from .mir import canon, callee, callee_decl, ty_head

FAILV = {'Failure', 'Err'}
RESULT_HEADS = ('DivansResult', 'DivansOutputResult', 'DivansInputResult', 'DivansOpResult',
                'CommandResult', 'DecoderResult', 'CodecTraitResult', 'OneCommandReturn', 'ThreadData', 'Result')


def split_args(s):
    out, d, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in '>)]}' and not (c == '>' and i and s[i - 1] == '-'):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def shapes(crate, ty, depth=0):
    """List of failing shapes of a type: each a tuple of (path elems, failing variant)."""
    ty = ty.strip()
    if depth > 4 or ty.startswith('&') or ty.startswith('*'):
        return []
    if ty.startswith('(') and ty.endswith(')'):
        out = []
        for i, a in enumerate(split_args(ty[1:-1])):
            for sh in shapes(crate, a, depth + 1):
                out.append(tuple(((('f', str(i)),) + p, v) for p, v in sh))
        return out
    h = canon(ty)
    last = h.split('::')[-1]
    if last in ('LockResult', 'TryLockResult'):
        return []
    if h in ('core::result::Result', 'std::result::Result', 'core::fmt::Result', 'std::fmt::Result'):
        args = ty[ty.index('<') + 1:-1] if '<' in ty else ''
        a = split_args(args)
        if len(a) == 2 and ('PoisonError' in a[1] or a[1] == '()'):
            return []       # () carries no error: "queue empty/full", "not this kind"
        if len(a) == 2:
            inner = shapes(crate, a[1], depth + 1)
            if inner:
                return [(((), 'Err'),) + tuple(((('d', 'Err'), ('f', '0')) + p, v) for p, v in sh) for sh in inner]
        return [(((), 'Err'),)]
    adt = crate.adts.get(h)
    if adt is None:
        # result enums of the library seen from the binary
        if last in ('DivansResult', 'DivansOutputResult', 'DivansInputResult', 'DivansOpResult'):
            return [(((), 'Failure'),)]
        return []
    if last not in RESULT_HEADS or adt['kind'] != 'Enum':
        return []
    out = []
    for v in adt['vars']:
        if v['name'] in FAILV:
            out.append((((), v['name']),))
        else:
            for f in v['fields']:
                for sh in shapes(crate, f[1], depth + 1):
                    out.append((((), v['name']),) + tuple(((('d', v['name']), ('f', f[0])) + p, vv) for p, vv in sh))
    return out


def ok_variants(crate, ty):
    h = canon(ty)
    vs = crate.variants(h)
    if vs:
        bad = set()
        for sh in shapes(crate, ty):
            if sh[0][0] == () and sh[0][1] in FAILV:
                bad.add(sh[0][1])
        return frozenset(n for n in vs.values() if n not in bad)
    if h.endswith('result::Result'):
        return frozenset(['Ok'])
    return None


ERRTY = ('ErrMsg', 'io::Error', 'io::error::Error', 'DivansErrMsg')


def is_errty(ty):
    h = ty_head(ty)
    return any(h.endswith(e) for e in ERRTY) or any(h.endswith('::' + r) for r in RESULT_HEADS)


def opt_err(ty):
    return any(e in ty for e in ERRTY) or any(r in ty for r in RESULT_HEADS)


# foreign calls that report failure as an integer: name -> (failure value, success value)
INT_FAIL = {'BrotliEncoderCompressStream': (0, 1)}


class Fault(flow.Monitor):
    init = ()

    def __init__(self, crate, ib, exempt_calls=(), fail_ints=None, sink_calls=(), on_site=None):
        self.crate = crate
        self.ib = ib
        self.exempt = exempt_calls
        self.fail_ints = fail_ints
        self.sinks = sink_calls
        self.sites = {}
        self.bad = []
        self.sunk = set()
        self.cells = {}
        for bi in ib.live_blocks:
            for st in ib.blocks[bi]['s']:
                if st['k'] == '=' and st['r']['k'] == 'agg' and st['r']['a'] == 'closure' and not st['d']['p']:
                    for o in st['r']['o']:
                        if 'pl' in o:
                            tg = ib.target(o)
                            if tg is not None and not tg[1] and opt_err(ib.locals[tg[0]]) and '&mut' in ib.locals[o['pl']['l']]:
                                self.cells.setdefault(st['d']['l'], []).append(tg)

    def key(self, t, bi):
        fn = self.ib.blocks[bi]['fn']
        return (callee_decl(t) or 'indirect').split('::')[-1], fn

    def stmt(self, sim, f, bi, s, mon):
        if mon and s['k'] == '=' and any(e[0] == '*' for e in s['d']['p']):
            ty = sim.place_ty(s['d'])
            if ty is None and len(s['d']['p']) == 1:
                ty = self.ib.locals[s['d']['l']]
            if ty and opt_err(ty):
                r = s['r']
                # storing an error value (or Some(error))
                if self._carries(sim, f, r):
                    self.sunk.add(mon[1])
                    return None
        return mon

    def _carries(self, sim, f, r):
        if r['k'] == 'agg' and r['a'] == 'adt':
            if r['var'] in FAILV:
                return True
            if r['var'] == 'Some':
                for o in r['o']:
                    if 'pl' in o:
                        ty = sim.place_ty(o['pl'])
                        if ty and is_errty(ty):
                            return True
            return False
        if r['k'] == 'use' and 'pl' in r['o']:
            p = self.ib.norm(r['o']['pl'])
            v = f.get(p)
            if v is not None and v[0] == 'var' and v[1] and v[1] <= (FAILV | {'Some'}):
                return True
            ty = sim.place_ty(r['o']['pl'])
            if ty and is_errty(ty):
                return v is None or v[0] != 'var' or bool(v[1] & FAILV)
        return False

    def call(self, sim, f, bi, t, mon):
        c = callee(t) or ''
        d = callee_decl(t) or ''
        last = d.split('::')[-1]
        # Result combinators
        if 'result::Result::' in d:
            p = self.ib.norm(t['a'][0]['pl']) if t['a'] and 'pl' in t['a'][0] else None
            if p is not None and self.ib.is_ref(t['a'][0]['pl']['l']):
                p = self.ib.target(t['a'][0])
            v = f.get(p) if p is not None else None
            vs = v[1] if v is not None and v[0] == 'var' else frozenset(['Ok', 'Err'])
            if last in ('unwrap', 'expect'):
                if vs == frozenset(['Err']):
                    return None
                return mon
            if last in ('is_ok', 'is_err'):
                sim.forks = []
                for x in vs:
                    sim.forks.append((mon, {(): ('int', frozenset([int((x == 'Ok') == (last == 'is_ok'))]))}))
                return mon
            if last in ('map_err', 'map', 'or_else', 'and_then', 'and', 'or'):
                keep = {'map_err': vs, 'map': vs, 'and_then': vs if vs == frozenset(['Err']) else frozenset(['Ok', 'Err']),
                        'and': vs if vs == frozenset(['Err']) else frozenset(['Ok', 'Err'])}.get(last)
                if keep:
                    sim.result = keep
                return mon
            if last in ('ok',):
                sim.forks = [(mon, frozenset(['Some' if x == 'Ok' else 'None'])) for x in vs]
                return mon
            return mon
        if d.endswith('Try::branch') or d.endswith('Try>::branch'):
            p = self.ib.norm(t['a'][0]['pl']) if 'pl' in t['a'][0] else None
            v = f.get(p) if p is not None else None
            vs = v[1] if v is not None and v[0] == 'var' else frozenset(['Ok', 'Err'])
            sim.forks = [(mon, frozenset(['Continue' if x == 'Ok' else 'Break'])) for x in vs]
            return mon
        if d.endswith('from_residual'):
            sim.result = frozenset(['Err'])
            return mon
        fk = sim.eq_forks(f, t)
        if fk is not None:
            sim.forks = [(mon, r, ex) for r, ex in fk]
            return mon
        if mon:
            # Interrupted is a retry, not a failure
            if last in ('kind',) and 'io' in d and 'Error' in d:
                sim.forks = [((), {(): ("var", frozenset(["Interrupted"]))}),
                             (mon, {(): ('var', frozenset(v for v in (self.crate.variants('std::io::ErrorKind') or self.crate.variants('core::io::ErrorKind') or {}).values() if v != 'Interrupted') or frozenset(['Other']))})]
                return mon
            if any(c.endswith(x) or d.endswith(x) for x in self.sinks):
                self.sunk.add(mon[1])
                return None
            loc = self.crate.resolve(t)
            if loc and last not in ('from', 'clone', 'fmt', 'eq', 'ne', 'into', 'description', 'cause'):
                for a in t['a']:
                    if 'pl' in a:
                        ty = self.ib.locals[a['pl']['l']] if not a['pl']['p'] else sim.place_ty(a['pl'])
                        if ty and is_errty(ty) and not ty.startswith('&'):
                            self.sunk.add(mon[1])
                            return None
            return mon
        # a fresh call
        if t['t'] is None:
            return mon
        if last in INT_FAIL:
            site = (self.key(t, bi)[1], last, c)
            self.sites[site] = '%s:%s' % (t['sp'][0], t['sp'][1])
            fv, okv = INT_FAIL[last]
            sim.forks = [((), {(): ('int', frozenset([okv]))}), (('pend', site), {(): ('int', frozenset([fv]))})]
            for a in t['a']:
                tg = self.ib.target(a) if 'pl' in a and self.ib.is_ref(a['pl']['l']) else None
                for cell in self.cells.get(tg[0], ()) if tg is not None and not tg[1] else ():
                    sim.forks.append((('pend', (site[0], 'error stored by the closure passed to ' + last, c)),
                                      {(): ('int', frozenset([okv]))}, {cell: ('var', frozenset(['Err', 'Some']))}))
            return mon
        ty = self.ib.locals[t['d']['l']] if not t['d']['p'] else (sim.place_ty(t['d']) or '')
        sh = shapes(self.crate, ty)
        if not sh or last in ('from', 'clone', 'fmt', 'replace', 'take', 'new', 'into', 'default') and not (self.crate.resolve(t) and last == 'new'):
            return mon
        if d.startswith('core::fmt') or d.startswith('std::fmt'):
            return mon
        k = self.key(t, bi)
        site = (k[1], k[0], mir.callee(t) or '?')
        self.sites[site] = '%s:%s' % (t['sp'][0], t['sp'][1])
        if any(e(site, t) for e in self.exempt):
            return mon
        forks = []
        okv = ok_variants(self.crate, ty)
        forks.append(((), {(): ("var", okv)} if okv else None))
        for s in sh:
            forks.append((('pend', site), {p: ('var', frozenset([v])) for p, v in s}))
        sim.forks = forks
        return mon

    def ret(self, sim, f, bi, mon):
        if not mon:
            return
        for k, v in f.items():
            if k[0] == 0 and v[0] == 'var' and v[1] and v[1] <= FAILV:
                return
            if self.fail_ints is not None and k == (0, ()) and v[0] == 'int' and v[1] <= self.fail_ints:
                return
        self.bad.append((mon[1], sim.trace()))


def inline_policy(crate):
    def want(caller, t, cands, stack):
        if len(cands) != 1:
            return None
        b = cands[0]
        if len(stack) > 4 or len(b.blocks) > 60:
            return None
        for i in range(1, b.argc + 1):
            ty = b.locals[i]
            tt = ty
            while tt.startswith('&'):
                tt = tt[1:].lstrip()
                if tt.startswith('mut '):
                    tt = tt[4:]
            if shapes(crate, tt):
                return b
        return None
    return want


def analyse(crate, body, cap=300, **kw):
    ib = flow.IBody(crate, body, inline_policy(crate))
    m = Fault(crate, ib, **kw)

    def keep(k, v):
        return v[0] in ('var', 'disc') or (v[0] == 'int' and v[1] <= frozenset([0, 1, 2, 3]))
    s = flow.Sim(ib, m, cap=cap, keep=keep).run()
    return m, s
