"""Named predicates over a path: which way the path went at the branches that matter.

Monitor state = (known, alias, user): known maps predicate name -> truth, alias says which
boolean locals hold which predicate, user is the state of the rule."""
from . import flow

NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}
SWAP = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}


class PredMon(flow.Monitor):
    user = ()

    def __init__(self, ib):
        self.ib = ib
        self.init = (frozenset(), frozenset(), self.user)

    # ---- to override
    def of_cmp(self, op, a, b, s):
        """(name, truth when the comparison is true) or None"""
        return None

    def of_place(self, path):
        """a boolean place read: (name, polarity) or None"""
        return None

    def of_call(self, t):
        """a call returning bool: (name, polarity) or None"""
        return None

    def u_stmt(self, sim, st, bi, s, known, u):
        return u

    def u_call(self, sim, st, bi, t, known, u):
        return u

    def u_ret(self, sim, st, bi, known, u):
        pass

    def u_learn(self, sim, st, name, truth, known, u):
        """returns u or None (infeasible)"""
        return u

    # ---- plumbing
    def stmt(self, sim, st, bi, s, mon):
        known, alias, u = mon
        if s['k'] == '=' and not s['d']['p']:
            l = s['d']['l']
            got = self.rv(s['r'], alias, s) if self.ib.locals[l] == 'bool' else None
            n = frozenset(a for a in alias if a[0] != l)
            if got is not None:
                n |= frozenset([(l,) + got])
            if n != alias:
                alias = n
        u = self.u_stmt(sim, st, bi, s, dict(known), u)
        if u is None:
            return None
        if isinstance(u, tuple) and u and u[0] == '@forget':
            known = frozenset(k for k in known if k[0] not in u[1])
            u = u[2]
        return (known, alias, u)

    def rv(self, r, alias, s):
        k = r['k']
        if k == 'bin' and r['op'] in NEG:
            return self.cmp2(r['op'], r['a'], r['b'], s)
        if k == 'un' and r['op'] == 'Not' and 'pl' in r['o']:
            g = self.place(r['o']['pl'], alias)
            return (g[0], not g[1]) if g else None
        if k == 'use':
            if 'pl' in r['o']:
                return self.place(r['o']['pl'], alias)
            c = self.of_const(r['o'])
            return c
        return None

    def of_const(self, o):
        return None

    def cmp2(self, op, a, b, s):
        g = self.of_cmp(op, a, b, s)
        if g is not None:
            return g
        g = self.of_cmp(SWAP[op], b, a, s)
        return g

    def place(self, pl, alias):
        if not pl['p']:
            for x in alias:
                if x[0] == pl['l']:
                    return x[1:]
        return self.of_place(self.ib.norm(pl))

    def call(self, sim, st, bi, t, mon):
        known, alias, u = mon
        u = self.u_call(sim, st, bi, t, dict(known), u)
        if u is None:
            return None
        if isinstance(u, tuple) and u and u[0] == '@forget':
            known = frozenset(k for k in known if k[0] not in u[1])
            u = u[2]
        if not t['d']['p']:
            l = t['d']['l']
            alias = frozenset(a for a in alias if a[0] != l)
            if self.ib.locals[l] == 'bool':
                g = self.of_call(t)
                if g is not None:
                    alias |= frozenset([(l,) + g])
        if sim.forks is not None:
            sim.forks = [((known, alias, fk[0]),) + tuple(fk[1:]) for fk in sim.forks]
        return (known, alias, u)

    def u_edge(self, sim, st, bi, nb, known):
        """predicates to add to known because of the facts st of the edge"""
        return None

    def edge(self, sim, st, bi, nb, mon):
        mon = self.edge1(sim, st, bi, nb, mon)
        if mon is None:
            return None
        x = self.u_edge(sim, st, bi, nb, mon[0])
        if x:
            mon = (frozenset(dict(dict(mon[0]), **x).items()), mon[1], mon[2])
        live = sim.live[nb]
        if any(a[0] not in live for a in mon[1]):
            mon = (mon[0], frozenset(a for a in mon[1] if a[0] in live), mon[2])
        return mon

    def edge1(self, sim, st, bi, nb, mon):
        t = self.ib.blocks[bi]['t']
        if t['k'] == 'assert' and 'pl' in t.get('o', {}):
            return mon
        if t['k'] != 'switch':
            return mon
        known, alias, u = mon
        g = None
        if 'pl' in t['o']:
            g = self.place(t['o']['pl'], alias)
        else:
            g = self.of_const(t['o'])
        if g is None:
            return mon
        truths = set()
        for v, b in t['v']:
            if b == nb:
                truths.add(bool(v))
        if t['ow'] == nb and not truths:
            listed = set(bool(v) for v, _ in t['v'])
            truths |= {True, False} - listed
        if len(truths) != 1:
            return mon
        tr = truths.pop() == g[1]
        kd = dict(known)
        if kd.get(g[0], tr) != tr:
            return None if self.stable(g[0]) else (frozenset(dict(kd, **{g[0]: tr}).items()), alias, u)
        kd[g[0]] = tr
        u = self.u_learn(sim, st, g[0], tr, kd, u)
        if u is None:
            return None
        return (frozenset(kd.items()), alias, u)

    def stable(self, name):
        """a predicate that cannot change within the function"""
        return False

    def ret(self, sim, st, bi, mon):
        self.u_ret(sim, st, bi, dict(mon[0]), mon[2])
