"""Flow-insensitive backward slices over an (inlined) body: where the value of an
operand comes from, as access paths of parameters, constants and calls."""
from . import flow
from .mir import callee_decl, canon

THROUGH = ('unwrap_or', 'unwrap_or_default', 'unwrap', 'expect', 'from', 'into', 'clone', 'min', 'max', 'borrow', 'as_ref', 'deref', 'map', 'to_owned',
           'cloned', 'copied', 'as_mut', 'borrow_mut', 'deref_mut', 'wrapping_add', 'get')


class Slice(object):
    def __init__(self, ib, stop=None, through=None, control=False):
        self.ib = ib
        self.stop = stop or (lambda p: None)     # access path -> source name or None
        self.through = THROUGH if through is None else through
        self.control = control
        self.fielddefs = None
        self.memo = {}

    def _fd(self):
        """whole writes to places with projections: local -> [(norm path, kind, payload, block)]"""
        if self.fielddefs is None:
            fd = {}
            for bi in self.ib.live_blocks:
                b = self.ib.blocks[bi]
                for s in b['s']:
                    if s['k'] == '=' and s['d']['p']:
                        p = self.ib.norm(s['d'])
                        fd.setdefault(p[0], []).append((p, 'rv', s['r'], bi))
                t = b['t']
                if t['k'] == 'call' and t['d']['p']:
                    p = self.ib.norm(t['d'])
                    fd.setdefault(p[0], []).append((p, 'call', t, bi))
            self.fielddefs = fd
        return self.fielddefs

    def op(self, o):
        """sources of an operand"""
        if 'pl' not in o:
            return frozenset([('const', o['v'] if 'v' in o else canon(o.get('def', o.get('s', '?'))))])
        return self.path(self.ib.norm(o['pl']))

    def path(self, p, seen=None):
        out = set()
        self._walk(p, out, seen if seen is not None else set())
        return frozenset(out)

    def _ops(self, ops, out, seen):
        for o in ops:
            if 'pl' in o:
                self._idx(o['pl'], out, seen)
                self._walk(self.ib.norm(o['pl']), out, seen)
            else:
                out.add(('const', o['v'] if 'v' in o else canon(o.get('def', o.get('s', '?')))))

    def _walk(self, p, out, seen):
        if len(p[1]) > 7:
            p = (p[0], p[1][:7])
        if p in seen:
            return
        seen.add(p)
        st = self.stop(p)
        if st is not None:
            out.add(st)
            return
        l, el = p
        ib = self.ib
        got = False
        if 1 <= l <= ib.argc:
            out.add(('arg', l) + tuple(e[1] for e in el if isinstance(e, tuple) and e[0] == 'f'))
            got = True
        for d in ib.defs.get(l, ()):
            got = True
            if self.control:
                self._ctl(d[2], out, seen)
            if d[0] == 'call':
                self._call(d[1], out, seen)
                continue
            r = d[1]
            self._rv(r, el, out, seen)
        for (q, k, pay, bi) in self._fd().get(l, ()):
            if flow.is_prefix(q, p) or flow.is_prefix(p, q):
                got = True
                if self.control:
                    self._ctl(bi, out, seen)
                if k == 'call':
                    self._call(pay, out, seen)
                else:
                    self._rv(pay, el[len(q[1]):], out, seen)
        if not got:
            out.add(('?', l))

    def _rv(self, r, el, out, seen):
        ib = self.ib
        k = r['k']
        if k == 'agg':
            if el and r['a'] in ('adt', 'tuple'):
                e = next((x for x in el if isinstance(x, tuple) and x[0] == 'f'), None)
                i = self.index(r, e) if e is not None else None
                if i is not None and i < len(r['o']):
                    o = r['o'][i]
                    rest = el[el.index(e) + 1:]
                    if 'pl' in o:
                        n = ib.norm(o['pl'])
                        self._walk((n[0], n[1] + tuple(rest)), out, seen)
                    else:
                        self._ops([o], out, seen)
                    return
            if not r['o']:
                out.add(('const', r.get('var', r['a'])))
            self._ops(r['o'], out, seen)
            return
        if k in ('ref', 'rawptr'):
            n = ib.norm(r['pl'])
            self._idx(r['pl'], out, seen)
            self._walk((n[0], n[1] + tuple(e for e in el if e != '*')), out, seen)
            return
        if k in ('use', 'cast') and 'pl' in r['o']:
            n = ib.norm(r['o']['pl'])
            self._idx(r['o']['pl'], out, seen)
            self._walk((n[0], n[1] + tuple(el)), out, seen)
            return
        if k == 'disc' or k == 'len':
            self._walk(ib.norm(r['pl']), out, seen)
            return
        self._ops(flow.rv_operands(r), out, seen)

    def _idx(self, pl, out, seen):
        for e in pl['p']:
            if e[0] == 'i':
                self._walk((e[1], ()), out, seen)

    def index(self, r, e):
        if r['a'] == 'tuple':
            return int(e[1])
        adt = ib_adt(self.ib.crate, r['adt'])
        if adt is None:
            return int(e[1]) if e[1].isdigit() else None
        for v in adt['vars']:
            if v['name'] == r['var']:
                for i, f in enumerate(v['fields']):
                    if f[0] == e[1]:
                        return i
        return None

    def _call(self, t, out, seen):
        d = callee_decl(t) or '?'
        last = d.split('::')[-1]
        if last in self.through:
            self._ops(t['a'], out, seen)
        else:
            out.add(('call', d))
            self._ops(t['a'], out, seen)

    def _ctl(self, bi, out, seen):
        """the branch closest above bi that does not always lead to bi"""
        ib = self.ib
        x = bi
        vis = set()
        while True:
            ps = [q for q in ib.pred[x] if q in ib.live_blocks]
            if len(ps) != 1 or ps[0] in vis:
                return
            q = ps[0]
            vis.add(q)
            t = ib.blocks[q]['t']
            if t['k'] == 'switch' and len(ib.succ[q]) > 1 and 'pl' in t['o']:
                self._walk(ib.norm(t['o']['pl']), out, seen)
                return
            x = q


def ib_adt(cr, name):
    return cr.adts.get(canon(name))
