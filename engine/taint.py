"""Interprocedural information flow with implicit flows: which stores into caller-visible
memory can depend on given sources.  Per function a summary (is the result tainted,
which parts of the parameters' memory are tainted at return) for a set of tainted inputs."""
from collections import deque, defaultdict
from . import flow
from .flow import is_prefix, rv_operands
from .mir import callee, callee_decl, canon

MAXF = 3


class Policy(object):
    prune = ('Failure', 'Err')     # results after which nothing is compared any more

    def source_call(self, body, t, decl):
        return False

    def source_const(self, body, o):
        return False

    def source_path(self, body, path):
        return False

    def clean_path(self, body, path):
        return False

    def sanitize(self, body, t, decl):
        """None, or (indices of the &mut arguments made clean, indices of the arguments that must be clean)"""
        return None

    def opaque(self, body, t, decl):
        """None, or a set of argument indices whose memory the call may taint (result tainted too)"""
        return None

    def skip_call(self, body, t, decl):
        return False

    def skip_store(self, body, path):
        return False

    def skip_arg(self, body, t, decl, i):
        return False

    def enter(self, body, t, b):
        return True


class Summary(object):
    __slots__ = ('ret', 'outs', 'clean', 'done')

    def __init__(self):
        self.ret = False
        self.outs = {}       # (param, path) -> site
        self.clean = set()   # params whose memory is clean on every return
        self.done = False


class Taint(object):
    def __init__(self, crate, policy, max_depth=14):
        self.cr = crate
        self.p = policy
        self.memo = {}
        self.pre = {}
        self.max_depth = max_depth
        self.fns = set()
        self.calls = 0
        self.stores = 0
        self.sanitized = 0

    # ------------------------------------------------------------ per-body facts
    def body_info(self, b):
        inf = self.pre.get(b.path)
        if inf is None:
            inf = self.pre[b.path] = Info(self.cr, b, self.p)
        return inf

    def summary(self, b, tp, ctl=False, depth=0):
        """tp: frozenset of tainted (param, path) keys"""
        key = (b.path, tp, ctl)
        s = self.memo.get(key)
        if s is None:
            s = self.memo[key] = Summary()
            self.run(b, tp, ctl, s, depth)
            s.done = True
        return s

    def reaches_source(self, b):
        """b or something it calls contains a source of its own"""
        if getattr(self, '_rs', None) is None:
            direct = set()
            for p, f in self.cr.fns.items():
                if self.has_source(f):
                    direct.add(p)
            cg = self.cr.callgraph()
            rev = defaultdict(set)
            for x, ys in cg.items():
                for y in ys:
                    rev[y].add(x)
            q = list(direct)
            while q:
                y = q.pop()
                for x in rev[y]:
                    if x not in direct:
                        direct.add(x)
                        q.append(x)
            self._rs = direct
        return b.path in self._rs

    def has_source(self, f):
        for bi, t in f.calls():
            if self.p.source_call(f, t, callee_decl(t) or ''):
                return True
        for blk in f.blocks:
            if blk['c']:
                continue
            ops = []
            for s in blk['s']:
                if s['k'] == '=':
                    ops += rv_operands(s['r'])
                    if 'pl' in s['r']:
                        ops.append(s['r'])
            t = blk['t']
            if t['k'] == 'switch':
                ops.append(t['o'])
            if t['k'] == 'call':
                ops += t['a']
            for o in ops:
                if 'pl' in o:
                    if self.p.source_path(f, (o['pl']['l'], tuple(flow._el(e) for e in o['pl']['p']))):
                        return True
                elif self.p.source_const(f, o):
                    return True
        return False

    # --------------------------------------------------------------- analysis
    def run(self, b, tp, ctl, summ, depth):
        self.fns.add(b.path)
        inf = self.body_info(b)
        ib = inf.ib
        ctlb = set(ib.live_blocks) if ctl else set()
        sites = {}
        n = len(ib.blocks)
        while True:
            state = {0: frozenset(tp)}
            work = deque([0])
            branch = set()
            while work:
                bi = work.popleft()
                st = set(state[bi])
                self.block(inf, bi, st, ctlb, branch, sites, depth)
                out = frozenset(st)
                for nb in inf.psucc[bi]:
                    old = state.get(nb)
                    new = out if old is None else (old | out)
                    if new != old:
                        state[nb] = new
                        if nb not in work:
                            work.append(nb)
            add = set()
            work = list(branch)
            while work:
                x = work.pop()
                for y in inf.cdep(x):
                    if y not in add:
                        add.add(y)
                        if len(inf.psucc[y]) > 1:
                            work.append(y)
            if add <= ctlb:
                break
            ctlb |= add
        retk = set()
        for bi, st in state.items():
            if ib.blocks[bi]['t']['k'] != 'return' or bi in inf.dead:
                continue
            st = set(st)
            self.block(inf, bi, st, ctlb, set(), sites, depth)
            retk |= st
        for k in retk:
            if k[0] == 0:
                summ.ret = True
            elif 1 <= k[0] <= ib.argc and '*' in k[1]:
                summ.outs.setdefault(k, sites.get(k) or next((v for q, v in sites.items() if is_prefix(q, k) or is_prefix(k, q)), None))
        for p in range(1, ib.argc + 1):
            if not any(k[0] == p and '*' in k[1] for k in retk):
                summ.clean.add(p)
        # stores on paths that do not return here (loops) still count
        for k, v in sites.items():
            if 1 <= k[0] <= ib.argc and '*' in k[1]:
                summ.outs.setdefault(k, v)
        for k in list(summ.outs):
            if any(q != k and is_prefix(q, k) and (summ.outs[q] is not None or summ.outs[k] is None) for q in summ.outs):
                del summ.outs[k]

    # taint keys
    def get(self, st, path):
        return any(is_prefix(k, path) or is_prefix(path, k) for k in st)

    def put(self, inf, st, path, tainted, sites, site, weak=False):
        path = (path[0], path[1][:MAXF])
        if tainted:
            if self.p.skip_store(inf.b, path):
                return
            if not any(is_prefix(k, path) for k in st):
                for k in [k for k in st if is_prefix(path, k)]:
                    st.discard(k)
                st.add(path)
            if path not in sites and site is not None and '*' in path[1] and 1 <= path[0] <= inf.ib.argc:
                sites[path] = site
        elif not weak:
            for k in [k for k in st if is_prefix(path, k)]:
                st.discard(k)

    def rd(self, inf, st, pl):
        p = inf.ib.norm(pl)
        if self.p.clean_path(inf.b, p):
            return False
        if self.p.source_path(inf.b, p):
            return True
        if self.get(st, p):
            return True
        if self.viaptr(st, pl):
            return True
        for e in pl['p']:
            if e[0] == 'i' and self.get(st, (e[1], ())):
                return True
        # through pointers with known targets
        for q in inf.through(p):
            if self.p.clean_path(inf.b, q):
                continue
            if self.get(st, q) or self.p.source_path(inf.b, q):
                return True
        return False

    def viaptr(self, st, pl):
        """reached through a pointer whose own value is tainted"""
        return bool(pl['p']) and any(e[0] == '*' for e in pl['p']) and (pl['l'], ()) in st

    def op(self, inf, st, o):
        if 'pl' in o:
            return self.rd(inf, st, o['pl'])
        return self.p.source_const(inf.b, o)

    def store(self, inf, st, pl, tainted, sites, site):
        ib = inf.ib
        p = ib.norm(pl)
        idx = any(e[0] == 'i' and self.get(st, (e[1], ())) for e in pl['p'])
        tainted = tainted or idx or self.viaptr(st, pl)
        arr = '[]' in p[1]
        # writing through a pointer whose own value is tainted: which place is written depends on the source
        self.stores += 1
        tg = inf.through(p)
        if tg:
            for q in tg:
                self.put(inf, st, q, tainted or self.get(st, (p[0], ())), sites, site, weak=True)
        self.put(inf, st, p, tainted, sites, site, weak=arr)

    def block(self, inf, bi, st, ctlb, branch, sites, depth):
        ib = inf.ib
        b = ib.blocks[bi]
        ctl = bi in ctlb
        for s in b['s']:
            if s['k'] == '=':
                r = s['r']
                k = r['k']
                if k in ('ref', 'rawptr'):
                    # the pointer itself is clean unless computed from something tainted
                    t = any(e[0] == 'i' and self.get(st, (e[1], ())) for e in r['pl']['p']) or self.viaptr(st, r['pl'])
                    base = inf.ib.norm(r['pl'])
                    if '*' in base[1]:
                        t = t or (base[0] > ib.argc and self.get(st, (base[0], ())) and (base[0], ()) in st)
                    if 1 <= base[0] <= ib.argc and (base[0], ()) in st:
                        t = True
                    if self.p.clean_path(inf.b, base):
                        t = False
                    self.store(inf, st, s['d'], t or ctl and len(inf.ib.defs.get(s['d']['l'], ())) > 1, sites, None)
                    continue
                if k in ('disc', 'len'):
                    t = self.rd(inf, st, r['pl'])
                else:
                    t = any(self.op(inf, st, o) for o in rv_operands(r))
                self.store(inf, st, s['d'], t or (ctl and not inf.single(s['d'])), sites, s['sp'])
            elif s['k'] == 'setdisc':
                self.store(inf, st, s['d'], ctl, sites, s['sp'])
            elif s['k'] == 'dead':
                for k in [k for k in st if k[0] == s['l']]:
                    st.discard(k)
        t = b['t']
        if t['k'] == 'switch':
            if len([x for x in inf.psucc[bi]]) > 1 and self.op(inf, st, t['o']):
                branch.add(bi)
        elif t['k'] == 'call':
            self.call(inf, bi, t, st, ctl, sites, depth, branch)
        elif t['k'] == 'drop':
            pass

    # what an argument exposes: list of memory paths it may point at
    def targets(self, inf, o):
        if 'pl' not in o:
            return []
        n = inf.ib.norm(o['pl'])
        out = []
        ty = inf.opty(o)
        if ty is not None and ty.startswith('&'):
            out.append(inf.ib.norm({'l': o['pl']['l'], 'p': list(o['pl']['p']) + [['*']]}))
        out += list(inf.pts_of(n))
        return out

    def call(self, inf, bi, t, st, ctl, sites, depth, branch):
        p = self.p
        b = inf.b
        decl = callee_decl(t) or ''
        self.calls += 1
        site = ('call', t['sp'], decl, b.path)
        args = t['a']
        tg = [self.targets(inf, o) for o in args]
        val = []
        for i, o in enumerate(args):
            v = self.op(inf, st, o) or any(self.get(st, q) and not p.clean_path(b, q) for q in tg[i])
            if p.skip_arg(b, t, decl, i):
                v = False
            val.append(v)
        if p.skip_call(b, t, decl):
            self.store(inf, st, t['d'], False, sites, None)
            return
        if p.source_call(b, t, decl):
            self.store(inf, st, t['d'], True, sites, t['sp'])
            return
        san = p.sanitize(b, t, decl)
        if san is not None:
            clean, need = san
            self.sanitized += 1
            bad = ctl or any(val[i] for i in need)
            if bad:
                for q in tg[0]:
                    self.put(inf, st, q, True, sites, ('coded', t['sp'], decl, b.path))
            for i in clean:
                for q in tg[i]:
                    self.put(inf, st, q, False, sites, None)
            self.store(inf, st, t['d'], False, sites, None)
            return
        cands = [c for c in self.cr.resolve(t) if c.argc == len(args)]
        cands = [c for c in cands if p.enter(b, t, c)]
        if cands and depth < self.max_depth:
            ret = False
            outs = []
            cl = None
            for c in cands:
                tp = set()
                for i, o in enumerate(args):
                    if p.skip_arg(b, t, decl, i):
                        continue
                    if self.op(inf, st, o):
                        tp.add((i + 1, ()))
                    for q in tg[i]:
                        if p.clean_path(b, q):
                            continue
                        for k in st:
                            if is_prefix(k, q):
                                tp.add((i + 1, ('*',)))
                            elif is_prefix(q, k):
                                tp.add((i + 1, (('*',) + k[1][len(q[1]):])[:MAXF]))
                tp = minimal(tp)
                if not tp and not ctl and not self.reaches_source(c):
                    cl = set() if cl is None else cl
                    continue
                s = self.summary(c, frozenset(tp), ctl, depth + 1)
                ret = ret or s.ret
                for (pi, path), sv in s.outs.items():
                    outs.append((pi - 1, path, sv))
                cl = set(s.clean) if cl is None else (cl & s.clean)
            if cl is not None:
                for pi in cl:
                    if pi - 1 < len(args):
                        for q in tg[pi - 1]:
                            if inf.is_local(q):
                                self.put(inf, st, q, False, sites, None)
            for i, path, sv in outs:
                if i >= len(args):
                    continue
                for q in tg[i]:
                    self.put(inf, st, (q[0], q[1] + tuple(path[path.index('*') + 1:])), True, sites, sv or site)
            self.store(inf, st, t['d'], ret or (ctl and not inf.single(t['d'])), sites, t['sp'])
            return
        # unknown code: may write whatever it gets mutably, from anything it gets
        any_t = any(val) or ctl
        for i, o in enumerate(args):
            ty = inf.opty(o)
            if any_t and ty is not None and ty.startswith('&mut'):
                for q in tg[i]:
                    self.put(inf, st, q, True, sites, site)
        self.store(inf, st, t['d'], any(val) or (ctl and not inf.single(t['d'])), sites, t['sp'])


def minimal(tp):
    return set(k for k in tp if not any(q != k and is_prefix(q, k) for q in tp))


class Info(object):
    def __init__(self, crate, b, policy):
        self.b = b
        self.ib = ib = flow.IBody(crate, b)
        self.prune(policy)
        self._cd = None
        self._pts = None

    # blocks that have settled on a failure result, and everything only they reach
    def prune(self, policy):
        ib = self.ib
        fail = set()
        for bi in ib.live_blocks:
            for s in ib.blocks[bi]['s']:
                if s['k'] == '=' and s['d']['l'] == 0 and not s['d']['p']:
                    r = s['r']
                    if r['k'] == 'agg' and r.get('a') == 'adt' and r['var'] in policy.prune:
                        fail.add(bi)
                    elif r['k'] == 'agg' and r.get('a') == 'adt' and self._wraps_failure(r, policy):
                        fail.add(bi)
        good = set()
        # blocks from which a return without a failure is reachable
        pred = defaultdict(list)
        for x in ib.live_blocks:
            if x in fail:
                continue
            for y in ib.succ[x]:
                pred[y].append(x)
        q = [x for x in ib.live_blocks if ib.blocks[x]['t']['k'] == 'return' and x not in fail]
        # a return block is fine in itself: its predecessors decide
        good = set(q)
        while q:
            y = q.pop()
            for x in pred[y]:
                if x not in good:
                    good.add(x)
                    q.append(x)
        # infinite loops never return: keep them out
        self.dead = set(ib.live_blocks) - good
        self.psucc = {x: ([y for y in ib.succ[x] if y in good] if x not in fail else []) for x in ib.live_blocks}
        self.good = good

    def _wraps_failure(self, r, policy):
        for o in r['o']:
            if 'pl' in o and not o['pl']['p']:
                ds = self.ib.defs.get(o['pl']['l'], ())
                if len(ds) == 1 and ds[0][0] == 'rv' and ds[0][1]['k'] == 'agg' and ds[0][1].get('a') == 'adt':
                    if ds[0][1]['var'] in policy.prune or self._wraps_failure(ds[0][1], policy):
                        return True
        return False

    def cdep(self, x):
        """blocks control-dependent on the branch at x"""
        pd = self.pdom()
        out = set()
        stop = pd.get(x)
        for s in self.psucc[x]:
            y = s
            seen = set()
            while y is not None and y != stop and y != -1 and y not in seen:
                seen.add(y)
                out.add(y)
                y = pd.get(y)
        return out

    def pdom(self):
        if self._cd is None:
            succ = {}
            nodes = set(self.good)
            for x in self.good:
                ss = list(self.psucc[x])
                if self.ib.blocks[x]['t']['k'] == 'return':
                    ss = [-1]
                succ[x] = ss
            nodes.add(-1)
            rev = defaultdict(list)
            for x, ss in succ.items():
                for y in ss:
                    rev[y].append(x)
            idom, _ = flow.dominators(rev, -1, nodes)
            self._cd = idom
        return self._cd

    def single(self, pl):
        """a local temporary written once: under a tainted branch its value is still its own"""
        return not pl['p'] and pl['l'] > self.ib.argc and len(self.ib.defs.get(pl['l'], ())) == 1 and pl['l'] not in self.ib.names

    def opty(self, o):
        if 'pl' not in o:
            return None
        if not o['pl']['p']:
            return self.ib.locals[o['pl']['l']]
        return None

    def is_local(self, q):
        return '*' not in q[1] and (q[0] > self.ib.argc or q[0] == 0)

    # ---- points-to, flow-insensitive
    def pts(self):
        if self._pts is not None:
            return self._pts
        ib = self.ib
        P = defaultdict(set)
        edges = defaultdict(set)
        for l in range(1, ib.argc + 1):
            if '&' in ib.locals[l]:
                P[l].add((l, ('*',)))
        for bi in ib.live_blocks:
            b = ib.blocks[bi]
            for s in b['s']:
                if s['k'] != '=':
                    continue
                d = ib.norm(s['d'])[0]
                r = s['r']
                if r['k'] in ('ref', 'rawptr'):
                    n = ib.norm(r['pl'])
                    P[d].add((n[0], n[1][:MAXF]))
                    if '*' in n[1] and n[0] != d:
                        edges[n[0]].add((d, tuple(n[1][n[1].index('*') + 1:])))
                else:
                    for o in rv_operands(r):
                        if 'pl' in o:
                            edges[ib.norm(o['pl'])[0]].add((d, ()))
            t = b['t']
            if t['k'] == 'call':
                d = ib.norm(t['d'])[0]
                if not ptr_type(ib.locals[d]):
                    continue
                for o in t['a']:
                    if 'pl' in o:
                        l = o['pl']['l']
                        edges[ib.norm(o['pl'])[0]].add((d, ()))
        ch = True
        while ch:
            ch = False
            for a, ds in edges.items():
                for d, suf in ds:
                    if not ptr_type(ib.locals[d]):
                        continue
                    new = set((q[0], (q[1] + suf)[:MAXF]) for q in P[a]) - P[d]
                    if new:
                        P[d] |= new
                        ch = True
        self._pts = P
        return P

    def pts_of(self, n):
        if not ptr_type(self.ib.locals[n[0]]):
            return ()
        return [q for q in self.pts().get(n[0], ()) if q[0] != n[0] or n[0] <= self.ib.argc]

    def through(self, p):
        """concrete paths a path through a pointer local may denote"""
        if '*' not in p[1] or (1 <= p[0] <= self.ib.argc and p[1][0] == '*'):
            return ()
        i = p[1].index('*')
        rest = tuple(p[1][i + 1:])
        return [(q[0], q[1] + rest) for q in self.pts().get(p[0], ()) if q[0] != p[0]]


def ptr_type(ty):
    return '&' in ty or '*mut' in ty or 'Iter' in ty or 'closure' in ty or 'Zip' in ty
