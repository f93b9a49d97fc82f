"""C17: a setting does what its name says, or is refused."""
import re
from .. import flow
from ..mir import canon, callee, callee_decl
from ..slice import Slice

EXPLAIN = ('Every option selector of the C interface is followed through set_option path by path: on a path that returns success exactly the field of that '
           'option was written, from the value given, and out-of-range values and options set after the first encode write nothing and return failure. '
           'From the options struct on, backward slices show that every field reaches the model setting or the brotli encoder parameter of its name and no other, '
           'that the window written into the header is the one the codec uses, and that constructors hand the options on unchanged. '
           'For the command, each flag changes exactly the options it documents.')
ASSUME = ['brotli::enc::encode::BrotliEncoderSetParameter does what the brotli crate documents']
OPTS = 'interface::DivansCompressorOptions'
# option -> field it sets; and the entry of the adaptation table
FIELD = {
    'QUALITY': 'quality', 'WINDOW_SIZE': 'window_size', 'LGBLOCK': 'lgblock', 'DYNAMIC_CONTEXT_MIXING': 'dynamic_context_mixing',
    'USE_BROTLI_COMMAND_SELECTION': 'use_brotli', 'USE_BROTLI_BITSTREAM': 'use_brotli', 'USE_CONTEXT_MAP': 'use_context_map',
    'FORCE_STRIDE_VALUE': 'force_stride_value', 'STRIDE_DETECTION_QUALITY': 'stride_detection_quality',
    'SPEED_DETECTION_QUALITY': 'speed_detection_quality', 'PRIOR_BITMASK_DETECTION': 'prior_bitmask_detection',
    'PRIOR_DEPTH': 'prior_depth', 'Q9_5': 'q9_5', 'FORCE_LITERAL_CONTEXT_MODE': 'force_literal_context_mode',
    'BROTLI_LITERAL_BYTE_SCORE': 'brotli_literal_byte_score', 'IR_OPTIMIZER': 'divans_ir_optimizer',
    'LITERAL_ADAPTATION_STRIDE_LOW': ('literal_adaptation', 0), 'LITERAL_ADAPTATION_STRIDE_HIGH': ('literal_adaptation', 1),
    'LITERAL_ADAPTATION_CM_LOW': ('literal_adaptation', 2), 'LITERAL_ADAPTATION_CM_HIGH': ('literal_adaptation', 3)}
# enumerated options: value -> what is stored
ENUM = {
    'USE_BROTLI_COMMAND_SELECTION': {0: 'UseInternalCommandSelection', 1: 'UseBrotliCommandSelection', 2: 'UseBrotliBitstream'},
    'USE_BROTLI_BITSTREAM': {1: 'UseBrotliBitstream'},
    'USE_CONTEXT_MAP': {0: 0, 1: 1},
    'FORCE_STRIDE_VALUE': dict([(0, 'PriorDisabled')] + [(i, 'Stride%d' % i) for i in range(1, 9)])}
BROTLI = {
    'BROTLI_PARAM_MODE': 'force_literal_context_mode', 'BROTLI_PARAM_LGWIN': 'window_size', 'BROTLI_PARAM_LGBLOCK': 'lgblock', 'BROTLI_PARAM_QUALITY': 'quality',
    'BROTLI_PARAM_Q9_5': 'q9_5', 'BROTLI_PARAM_CDF_ADAPTATION_DETECTION': 'speed_detection_quality', 'BROTLI_PARAM_STRIDE_DETECTION_QUALITY': 'stride_detection_quality',
    'BROTLI_PARAM_LITERAL_BYTE_SCORE': 'brotli_literal_byte_score', 'BROTLI_PARAM_PRIOR_BITMASK_DETECTION': 'prior_bitmask_detection',
    'BROTLI_PARAM_CM_SPEED': ('literal_adaptation', 3, 'inc'), 'BROTLI_PARAM_CM_SPEED_MAX': ('literal_adaptation', 3, 'lim'),
    'BROTLI_PARAM_CM_SPEED_LOW': ('literal_adaptation', 2, 'inc'), 'BROTLI_PARAM_CM_SPEED_LOW_MAX': ('literal_adaptation', 2, 'lim'),
    'BROTLI_PARAM_SPEED': ('literal_adaptation', 1, 'inc'), 'BROTLI_PARAM_SPEED_MAX': ('literal_adaptation', 1, 'lim'),
    'BROTLI_PARAM_SPEED_LOW': ('literal_adaptation', 0, 'inc'), 'BROTLI_PARAM_SPEED_LOW_MAX': ('literal_adaptation', 0, 'lim')}
DESIRED = {'desired_prior_depth': 'prior_depth', 'desired_literal_adaptation': 'literal_adaptation', 'desired_do_context_map': 'use_context_map',
           'desired_force_stride': 'force_stride_value', 'desired_context_mixing': 'dynamic_context_mixing'}
MODE = {0: 3, 1: 4, 2: 5, 3: 6}     # BROTLI_FORCE_{LSB,MSB,UTF8,SIGNED}_PRIOR
# command flag -> fields it may change
FLAGS = {
    '-bytescore': {'brotli_literal_byte_score'}, '-utf8': {'force_literal_context_mode'}, '-msb': {'force_literal_context_mode'}, '-lsb': {'force_literal_context_mode'},
    '-sign': {'force_literal_context_mode'}, '-lgwin': {'lgblock'}, '-q9.5': {'q9_5', 'quality'}, '-q9.5x': {'q9_5', 'quality'}, '-q': {'quality'}, '-p': {'prior_depth'}, '-w': {'window_size'},
    '-window=': {'window_size'}, '-brotlistride': {'force_stride_value', 'stride_detection_quality'}, '-advbrotlistride': {'force_stride_value', 'stride_detection_quality'},
    '-expbrotlistride': {'force_stride_value', 'stride_detection_quality'}, '-nostride': {'force_stride_value'}, '-stride': {'force_stride_value'}, '-s': {'force_stride_value'},
    '-stride=': {'force_stride_value'}, '-cm': {'use_context_map'}, '-contextmap': {'use_context_map'}, '-nocm': {'use_context_map'}, '-nocontextmap': {'use_context_map'},
    '-O': {'divans_ir_optimizer'}, '-O0': set(), '-nobrotli': {'use_brotli'}, '-findprior': {'prior_bitmask_detection'}, '-defaultprior': {'prior_bitmask_detection'},
    '-mixing=': {'dynamic_context_mixing'}, '-findspeed': {'speed_detection_quality'}, '-speed=': {'literal_adaptation'}, '-speedlow=': {'literal_adaptation'},
    '-cmspeed=': {'literal_adaptation'}, '-cmspeedlow=': {'literal_adaptation'}}

SWITCH = {('-cm', 'use_context_map'): 1, ('-contextmap', 'use_context_map'): 1, ('-nocm', 'use_context_map'): 0, ('-nocontextmap', 'use_context_map'): 0,
          ('-findprior', 'prior_bitmask_detection'): 1, ('-defaultprior', 'prior_bitmask_detection'): 0, ('-nobrotli', 'use_brotli'): 0,
          ('-q9.5', 'q9_5'): 1, ('-O', 'divans_ir_optimizer'): 1}


def optfield(p):
    """field of the options struct an access path goes through"""
    return next((e[1] for e in p[1] if isinstance(e, tuple) and e[0] == 'f' and not e[1].isdigit()), None)


class SetMon(flow.Monitor):
    """mon = frozenset of (field, entry, what was stored)"""
    init = frozenset()

    def __init__(self, ib, sl, sel, val):
        self.ib = ib
        self.sl = sl
        self.sel = sel
        self.val = val
        self.rets = {}
        self.opts = [i for i, ty in enumerate(ib.locals) if ty.startswith('&mut') and canon(ty[5:].strip()).endswith('DivansCompressorOptions')]

    def into_opts(self, p):
        return any(e == ('d', 'OptionStage') for e in p[1])

    def what(self, sim, f, r, dst):
        o = r.get('o')
        if r['k'] == 'use' and 'pl' in o:
            v = f.get(self.ib.norm(o['pl']))
        elif r['k'] == 'use' and 'v' in o:
            v = ('int', frozenset([o['v']]))
        elif r['k'] == 'agg' and not r['o']:
            v = ('var', frozenset([r['var']]))
        else:
            v = None
        return (v[0], v[1]) if v is not None and v[0] in ('var', 'int') else None

    def srcs(self, r):
        out = set()
        self.sl._rv(r, (), out, set())
        return frozenset(out)

    def stmt(self, sim, f, bi, s, mon):
        if s['k'] == '=' and s['d']['p']:
            p = self.ib.norm(s['d'])
            if self.into_opts(p):
                fl = optfield(p)
                entry = None
                if '[]' in p[1]:
                    e = s['d']['p'][-1]
                    entry = e[1] if e[0] == 'c' else self.idx(sim, f, e)
                return mon | frozenset([(fl, entry, self.what(sim, f, s['r'], p), self.srcs(s['r']))])
        return mon

    def idx(self, sim, f, e):
        if e[0] == 'i':
            v = f.get((e[1], ()))
            if v is not None and v[0] == 'int' and len(v[1]) == 1:
                return list(v[1])[0]
        return '?'

    def ret(self, sim, f, bi, mon):
        rv = f.get((0, ()))
        sel = f.get((self.sel, ()))
        val = f.get((self.val, ()))
        st = f.get((1, ('*',)))
        key = (rv[1] if rv and rv[0] == 'int' else None, sel[1] if sel and sel[0] == 'int' else None,
               val[1] if val and val[0] == 'int' else None, st[1] if st and st[0] == 'var' else None, mon)
        if key not in self.rets:
            self.rets[key] = sim.trace()

    def call(self, sim, f, bi, t, mon):
        # a bound check of the value through a helper keeps no facts
        for a in t['a']:
            p = self.ib.target(a) if 'pl' in a else None
            if p is not None and self.into_opts(p) and 'mut' in (self.ib.locals[a['pl']['l']][:8]):
                return mon | frozenset([(optfield(p), None, None, frozenset([('call', callee_decl(t))]))])
        return mon


def set_option(ctx, rep):
    cr = ctx.lib
    bs = [b for p, b in cr.fns.items() if b.argc == 3 and 'CompressorState' in b.locals[1] and b.locals[2] == 'u8' and b.locals[3] == 'u32']
    ex = [b for b in cr.fns.values() if b.path == 'ffi::divans_set_option']
    if not rep.anchor('divans_set_option', len(ex) == 1):
        return
    # the method the exported function calls
    tgt = [x for _, t in ex[0].calls() for x in cr.resolve(t) if x.argc == 3 and x.locals[2] in ('u8', 'u32')]
    b = tgt[0] if tgt else (bs[0] if bs else None)
    if not rep.anchor('the function that stores options', b is not None):
        return
    codes = {}
    for n, v in cr.consts.items():
        m = re.match(r'.*DIVANS_OPTION_(\w+)$', n)
        if m:
            codes[v] = m.group(1)
    rep.check('selector', 'all known', set(codes.values()) <= set(FIELD), 'src/ffi/interface.rs', 'option without a rule: %s' % sorted(set(codes.values()) - set(FIELD)))
    ib = flow.IBody(cr, b, want=lambda c, t, cands, stack: cands[0] if len(cands) == 1 and len(cands[0].blocks) < 60 else None)
    rep.fns.add(b.path)
    sl = Slice(ib, control=False)
    mon = SetMon(ib, sl, 2, 3)
    sim = flow.Sim(ib, mon, cap=4000).run()
    seen = {}
    for (rc, sel, val, st, w), tr in mon.rets.items():
        names = sorted(codes.get(v, '?%s' % v) for v in sel) if sel is not None else ['any other']
        nm = names[0] if len(names) == 1 else '/'.join(names)
        rep.count('paths of set_option')
        if rc != frozenset([0]):
            rep.check('refuse', nm, not w, 'src/ffi/compressor.rs', 'an option that is refused was stored', tr)
            rep.check('refuse', 'code ' + nm, rc is not None and 0 not in rc, 'src/ffi/compressor.rs', 'the return code on this path is not certain', tr)
            continue
        rep.check('late', nm, st == frozenset(['OptionStage']), 'src/ffi/compressor.rs', 'success is returned although encoding may have begun', tr)
        if len(names) != 1 or nm not in FIELD:
            rep.bad('selector', nm, 'src/ffi/compressor.rs', 'success is returned for an unknown option', tr)
            continue
        fl = FIELD[nm]
        entry = None
        if isinstance(fl, tuple):
            fl, entry = fl
        rep.check('selector', '%s stores' % nm, len(w) >= 1, 'src/ffi/compressor.rs', 'option %s is accepted and stored nowhere' % nm, tr)
        for (wf, we, what, src) in w:
            if not rep.check('selector', '%s -> %s' % (nm, fl), wf == fl, 'src/ffi/compressor.rs', 'option %s changes %s' % (nm, wf), tr):
                continue
            if entry is not None and we is not None:
                rep.check('selector', '%s entry' % nm, we == entry, 'src/ffi/compressor.rs', 'option %s changes entry %s of the adaptation table' % (nm, we), tr)
            if nm in ENUM:
                if val is None or len(val) != 1:
                    rep.bad('range', nm, 'src/ffi/compressor.rs', 'option %s accepts a value it does not define' % nm, tr)
                    continue
                v = list(val)[0]
                seen.setdefault(nm, set()).add(v)
                exp = ENUM[nm].get(v)
                rep.check('value', '%s=%s' % (nm, v), exp is not None and what is not None and what[1] == frozenset([exp]),
                          'src/ffi/compressor.rs', 'option %s = %s stores %s' % (nm, v, sorted(what[1]) if what else 'something else'), tr)
            else:
                rep.check('value', nm, ('arg', 3) in src, 'src/ffi/compressor.rs', 'what option %s stores does not come from the value given' % nm, tr)
    for nm, e in ENUM.items():
        rep.check('range', '%s complete' % nm, seen.get(nm) == set(e), 'src/ffi/compressor.rs', 'option %s takes %s' % (nm, sorted(seen.get(nm, ()))))
    got = set()
    for (rc, sel, val, st, w) in mon.rets:
        if rc == frozenset([0]) and sel:
            got |= set(codes.get(v) for v in sel)
    for nm in codes.values():
        rep.check('selector', '%s accepted' % nm, nm in got, 'src/ffi/compressor.rs', 'option %s is always refused' % nm)
    # a table lookup by the value needs its bound
    for bi in sorted(ib.live_blocks):
        t = ib.blocks[bi]['t']
        if t['k'] == 'assert' and t['m'].startswith('Bounds') or (t['k'] == 'assert' and 'idx' in t):
            rep.count('table lookups')
            idx, ln = t.get('idx'), t.get('len')
            ok = idx is not None and guarded(ib, bi, idx, ln)
            rep.check('range', 'table %d' % rep.counts['table lookups'], ok, '%s:%s' % tuple(t['sp'][:2]), 'the value indexes a table without having been compared with its length')


def guarded(ib, bi, idx, ln):
    """every path to bi passes a comparison of the same value with something, on the small side"""
    sl = Slice(ib)
    src = sl.op(idx)
    if not src & frozenset([('arg', 3)]):
        return True
    dom, _ = flow.dominators(ib.succ, 0, ib.live_blocks)
    x = bi
    while x != 0:
        y = dom[x]
        t = ib.blocks[y]['t']
        if t['k'] == 'switch' and 'pl' in t['o'] and t['ty'] == 'bool':
            for d in ib.defs.get(t['o']['pl']['l'], ()):
                if d[0] == 'rv' and d[1]['k'] == 'bin' and d[1]['op'] in ('Lt', 'Ge', 'Le', 'Gt'):
                    a, b2, op = d[1]['a'], d[1]['b'], d[1]['op']
                    sa, sb = sl.op(a), sl.op(b2)
                    if ('arg', 3) in sb and ('arg', 3) not in sa:
                        op = {'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge', 'Gt': 'Lt'}[op]
                        sa, sb = sb, sa
                    if ('arg', 3) in sa and op in ('Lt', 'Ge'):
                        false = [b for v, b in t['v'] if v == 0]
                        inside = t['ow'] if op == 'Lt' else (false[0] if false else None)
                        z = x
                        # x is dominated by the side on which the value is smaller
                        while z != y:
                            if z == inside:
                                return True
                            z = dom[z]
        x = y
    return False


def field_sources(src, arg):
    """fields of options parameter `arg` among the sources"""
    out = set()
    for s in src:
        if s[0] == 'arg' and s[1] == arg:
            out.add(s[2] if len(s) > 2 else '*')
    return out


def small(limit):
    def want(caller, t, cands, stack):
        if len(cands) != 1:
            return None
        c = cands[0]
        return c if len(c.blocks) < limit and len(stack) < 8 and not c.path.split('::')[-1] in ('inc', 'lim') else None
    return want


def factory(ctx, rep, b):
    """one way to build a compressor: which option reaches which setting"""
    cr = ctx.lib
    ib = flow.IBody(cr, b, want=small(90))
    rep.fns.add(b.path)
    opt = [i for i in range(1, ib.argc + 1) if canon(ib.locals[i]).endswith('DivansCompressorOptions')]
    if not rep.anchor('options of %s' % b.path, len(opt) == 1):
        return
    opt = opt[0]
    name = b.path
    sl = Slice(ib)
    got = {}
    for bi in sorted(ib.live_blocks):
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['d']['p']:
                p = ib.norm(s['d'])
                if p[0] == opt:
                    rep.bad('plumb', '%s changes the options' % name, '%s:%s' % tuple(s['sp'][:2]), 'the options are changed before use')
            if s['k'] != '=' or s['r']['k'] != 'agg' or s['r']['a'] != 'adt':
                continue
            adt = cr.adts.get(canon(s['r']['adt']))
            if adt is None:
                continue
            for v in adt['vars']:
                if v['name'] != s['r']['var']:
                    continue
                for i, fl in enumerate(v['fields']):
                    if i < len(s['r']['o']):
                        if fl[0] in DESIRED:
                            got.setdefault(fl[0], []).append((field_sources(sl.op(s['r']['o'][i]), opt), s['sp']))
                        if fl[0] == 'window_size' and not canon(s['r']['adt']).endswith('Options'):
                            got.setdefault('window_size', []).append((field_sources(sl.op(s['r']['o'][i]), opt), s['sp']))
    for d, f in sorted(DESIRED.items()):
        vals = got.get(d, [])
        rep.check('plumb', '%s: %s' % (name, d), len(vals) >= 1, b.file, 'the model setting %s is not made from the options' % d)
        for src, sp in vals:
            rep.count('model settings traced')
            rep.check('plumb', '%s: %s <- %s' % (name, f, d), src == set([f]), '%s:%s' % tuple(sp[:2]), 'the setting %s comes from %s instead of the option %s' % (d, sorted(src) or 'no option', f))
    if 'window_size' in got or 'ir_optimize' not in name:
        for src, sp in got.get('window_size', [(set(), (b.file, b.line))]):
            rep.check('plumb', '%s: window' % name, src == set(['window_size']), '%s:%s' % tuple(sp[:2]), 'the window of the header comes from %s' % (sorted(src) or 'no option'))
    brotli_params(rep, cr, ib, opt, name, sl)
    window(rep, cr, ib, b, opt, name, sl)


def window(rep, cr, ib, b, opt, name, sl):
    """the window of the header and of the codec are one clamped value"""
    hdr = []
    rb = []
    for bi in sorted(ib.live_blocks):
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['r']['k'] == 'agg' and s['r']['a'] == 'adt':
                adt = cr.adts.get(canon(s['r']['adt']))
                if adt is None or canon(s['r']['adt']).endswith('Options'):
                    continue
                for i, fl in enumerate(adt['vars'][0]['fields']):
                    if i < len(s['r']['o']) and fl[0] == 'window_size':
                        hdr.append(s['r']['o'][i])
    # the two-sided clamp: both bounds appear among the constants of the slice
    for o in hdr:
        src = sl.op(o)
        cst = set(v for k, *r in src for v in r if k == 'const')
        cal = set(r[0] for k, *r in src if k == 'call')
        rep.check('window', '%s clamp' % name, 10 in cst and 24 in cst, b.file, 'the window of the header is not limited to 10..24')
    # every shift by a window amount and every ring buffer size takes the same value
    for bi in sorted(ib.live_blocks):
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['r']['k'] == 'bin' and s['r']['op'].startswith('Shl') and s['r']['a'].get('v') == 1:
                src = sl.op(s['r']['b'])
                if not field_sources(src, opt):
                    continue
                rep.count('ring buffer sizes')
                rep.check('window', '%s ring buffer' % name, all(src == sl.op(o) for o in hdr), '%s:%s' % tuple(s['sp'][:2]),
                          'a ring buffer is sized by something other than the window of the header')


class ParamMon(flow.Monitor):
    """mon = (brotli parameters set, literal context mode found)"""
    init = (frozenset(), None)

    def __init__(self, ib, opt):
        self.ib = ib
        self.opt = opt
        self.rets = {}
        self.vals = {}
        self.modes = {}

    def edge(self, sim, f, bi, nb, mon):
        t = self.ib.blocks[bi]['t']
        if t['k'] != 'switch' or 'pl' not in t['o']:
            return mon
        k0 = self.ib.norm(t['o']['pl'])
        if not k0[1] or not (optfield(k0) == 'force_literal_context_mode' or canon(self.ib.locals[k0[0]]).endswith('LiteralPredictionModeNibble')):
            return mon
        v = f.get(k0)
        return (mon[0], list(v[1])[0] if v is not None and v[0] == 'int' and len(v[1]) == 1 else None)

    def call(self, sim, f, bi, t, mon):
        if (callee_decl(t) or '').endswith('BrotliEncoderSetParameter'):
            pv = f.get(self.ib.norm(t['a'][1]['pl'])) if 'pl' in t['a'][1] else None
            nm = list(pv[1])[0] if pv and pv[0] == 'var' and len(pv[1]) == 1 else '?'
            self.vals.setdefault(nm, {})[(bi, self.fact(f, t['a'][2]))] = (t, dict((k, v) for k, v in f.items() if k[0] == self.opt), sim.trace())
            if nm == 'BROTLI_PARAM_MODE' and mon[1] is not None:
                self.modes.setdefault(mon[1], set()).add((self.fact(f, t['a'][2]), '%s:%s' % tuple(t['sp'][:2])))
            return (mon[0] | frozenset([nm]), None)
        return mon

    def fact(self, f, o):
        if 'v' in o:
            return o['v']
        v = f.get(self.ib.norm(o['pl'])) if 'pl' in o else None
        return v[1] if v and v[0] in ('int', 'var') else None

    def ret(self, sim, f, bi, mon):
        self.rets[(mon[0], frozenset((k, v) for k, v in f.items() if k[0] == self.opt))] = sim.trace()


def brotli_params(rep, cr, ib, opt, name, sl):
    calls = [bi for bi in ib.live_blocks if ib.blocks[bi]['t']['k'] == 'call' and (callee_decl(ib.blocks[bi]['t']) or '').endswith('BrotliEncoderSetParameter')]
    if not calls:
        return
    rep.anchor('brotli parameters of %s' % name, True)
    mon = ParamMon(ib, opt)
    flow.Sim(ib, mon, cap=3000).run()
    for v, xs in sorted(mon.modes.items()):
        for x, w in xs:
            rep.count('context modes')
            rep.check('brotli', 'mode %s' % v, x == frozenset([MODE.get(v, 6)]), w, 'the literal context mode %s is handed to brotli as %s' % (v, sorted(x) if x else 'something else'))
    cs = Slice(ib, control=True)
    for nm, uses in sorted(mon.vals.items()):
        exp = BROTLI.get(nm)
        for (bi, fact), (t, facts, tr) in uses.items():
            if nm == 'BROTLI_METABLOCK_CALLBACK':
                rep.check('brotli', 'callback on', fact == 1, 'src/brotli_ir_gen.rs', 'the metablock callback is not switched on', tr)
                continue
            rep.count('brotli parameters')
            src = sl.op(t['a'][2])
            fs = field_sources(src, opt)
            if exp is None:
                rep.bad('brotli', nm, 'src/brotli_ir_gen.rs', 'a brotli parameter without a rule', tr)
                continue
            w = '%s:%s' % tuple(t['sp'][:2])
            if isinstance(exp, tuple):
                fld, entry, half = exp
                calls_ = set(s[1].split('::')[-1] for s in src if s[0] == 'call')
                ent = entries(ib, sl, t['a'][2])
                rep.check('brotli', '%s <- %s' % (nm, fld), fs == set([fld]), w, '%s is set from %s' % (nm, sorted(fs) or 'no option'), tr)
                rep.check('brotli', '%s half' % nm, half in calls_, w, '%s is not the %s of the speed' % (nm, half), tr)
                rep.check('brotli', '%s entry' % nm, ent == set([entry]), w, '%s is set from entry %s of the adaptation table' % (nm, sorted(map(str, ent))), tr)
            elif nm in ('BROTLI_PARAM_MODE', 'BROTLI_PARAM_Q9_5'):
                full = field_sources(cs.op(t['a'][2]), opt) | set(k[1][0][1] for k in facts if k[1] and isinstance(k[1][0], tuple) and k[1][0][0] == 'f')
                rep.check('brotli', '%s <- %s' % (nm, exp), exp in full and not (fs - set([exp])), w, '%s does not depend on %s' % (nm, exp), tr)
                if nm == 'BROTLI_PARAM_Q9_5':
                    on = [v for k, v in facts.items() if optfield(k) == exp]
                    rep.check('brotli', 'Q9_5 when asked', fact == 1 and on == [('int', frozenset([1]))] or exp in fs, w, 'Q9_5 is not switched on exactly when the option asks for it', tr)
            else:
                rep.check('brotli', '%s <- %s' % (nm, exp), fs == set([exp]), w, '%s is set from %s' % (nm, sorted(fs) or 'no option'), tr)
    # every path sets every parameter, unless its own option says not to
    for (done, facts), tr in mon.rets.items():
        fd = dict(facts)
        for nm, exp in sorted(BROTLI.items()):
            fld = exp[0] if isinstance(exp, tuple) else exp
            if nm in done:
                rep.ok('brotli', '%s set' % nm)
                continue
            off = [v for k, v in fd.items() if optfield(k) == fld and (v == ('var', frozenset(['None'])) or v == ('int', frozenset([0])))]
            rep.check('brotli', '%s set' % nm, len(off) > 0, 'src/brotli_ir_gen.rs', '%s is not set on a path on which the option %s may have a value' % (nm, fld), tr)


def entries(ib, sl, o):
    """constant indexes used on the way to an operand"""
    out = set()
    seen = set()
    work = [o['pl']] if 'pl' in o else []
    while work:
        pl = work.pop()
        for e in pl['p']:
            if e[0] == 'c':
                out.add(e[1])
            elif e[0] == 'i':
                v = [d[1]['o'].get('v') for d in ib.defs.get(e[1], ()) if d[0] == 'rv' and d[1]['k'] == 'use']
                out.add(v[0] if len(v) == 1 and v[0] is not None else '?')
        if pl['l'] in seen:
            continue
        seen.add(pl['l'])
        for d in ib.defs.get(pl['l'], ()):
            if d[0] == 'call':
                work += [a['pl'] for a in d[1]['a'] if 'pl' in a]
            else:
                r = d[1]
                work += [x['pl'] for x in flow.rv_operands(r) if 'pl' in x]
                if 'pl' in r:
                    work.append(r['pl'])
    return out


def handed_on(ctx, rep):
    """callers of the factories pass the options they were given, unchanged"""
    for cr in (ctx.lib, ctx.bin):
        for p, b in sorted(cr.fns.items()):
            calls = [(bi, t) for bi, t in b.calls() if (callee_decl(t) or '').endswith('DivansCompressorFactory::new')
                     or (callee_decl(t) or '').endswith('DivansCompressorFactoryStruct as interface::DivansCompressorFactory>::new')]
            if not calls or p.endswith('::main'):
                continue
            ib = flow.IBody(cr, b)
            rep.fns.add(p)
            params = [i for i in range(1, ib.argc + 1) if canon(ib.locals[i]).endswith('DivansCompressorOptions')]
            sl = Slice(ib)
            for bi, t in calls:
                for a in t['a']:
                    if 'pl' not in a or not canon(ib.locals[a['pl']['l']]).endswith('DivansCompressorOptions'):
                        continue
                    src = sl.op(a)
                    rep.count('constructors that hand on the options')
                    ok = [s for s in src if s[0] == 'arg' and s[1] in params and len(s) == 2]
                    rest = [s for s in src if s not in ok and not (s[0] == 'arg' and s[1] in params)]
                    fields = [s for s in src if s[0] == 'arg' and s[1] in params and len(s) > 2]
                    if cr.name != 'divans' or 'bin' in b.file:
                        # the text format of the command names its own window
                        changed = [optfield(q) for bi2 in ib.live_blocks for s2 in ib.blocks[bi2]['s'] if s2['k'] == '=' and s2['d']['p'] for q in [ib.norm(s2['d'])] if q[0] in params]
                        rep.check('handed', '%s' % p, len(ok) > 0 and set(changed) <= set(['window_size']), '%s:%s' % tuple(t['sp'][:2]), 'the options of the caller do not reach the compressor as given')
                    else:
                        rep.check('handed', '%s' % p, (len(ok) > 0 and not rest and not fields), '%s:%s' % tuple(t['sp'][:2]), 'the options of the caller do not reach the compressor as given')


def coded(ctx, rep):
    """every model setting decides a value that is coded into the stream"""
    cr = ctx.lib
    hit = {}
    for p, b in sorted(cr.fns.items()):
        rd = set()
        for blk in b.blocks:
            if blk['c']:
                continue
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                pls = [o['pl'] for o in flow.rv_operands(s['r']) if 'pl' in o]
                if 'pl' in s['r']:
                    pls.append(s['r']['pl'])
                for pl in pls:
                    for e in pl['p']:
                        if e[0] == 'f' and e[1] in DESIRED:
                            rd.add(e[1])
            t = blk['t']
            if t['k'] == 'call':
                for a in t['a']:
                    for e in (a['pl']['p'] if 'pl' in a else ()):
                        if e[0] == 'f' and e[1] in DESIRED:
                            rd.add(e[1])
        if not rd:
            continue
        ib = flow.IBody(cr, b)
        sl = Slice(ib, stop=lambda q: next((('set', e[1]) for e in q[1] if isinstance(e, tuple) and e[0] == 'f' and e[1] in DESIRED), None), control=True)
        for bi in ib.live_blocks:
            t = ib.blocks[bi]['t']
            if t['k'] == 'call' and (callee_decl(t) or '').split('::')[-1] == 'get_or_put_nibble' and len(t['a']) > 1:
                q = ib.target(t['a'][1])
                if q is None:
                    continue
                src = sl.path(q)
                for x in src:
                    if x[0] == 'set':
                        hit.setdefault(x[1], set()).add(p)
                        if x[1] in ('desired_prior_depth', 'desired_force_stride'):
                            rep.check('coded', '%s as it is' % x[1], not arithmetic(ib, q[0], x[1]), '%s:%s' % tuple(t['sp'][:2]), 'the value coded for %s is not the setting itself' % x[1])
    for d, f in sorted(DESIRED.items()):
        rep.count('settings that decide a coded value', 1 if d in hit else 0)
        rep.check('coded', d, d in hit, 'src/codec', 'no coded value depends on %s: the option %s has no effect' % (d, f))


def arithmetic(ib, l, fld):
    """an arithmetic step between a setting and the value coded for it"""
    seen = set()
    work = [(l, False)]
    while work:
        l, bad = work.pop()
        if (l, bad) in seen:
            continue
        seen.add((l, bad))
        for d in ib.defs.get(l, ()):
            if d[0] == 'call':
                ops, b2 = d[1]['a'], bad
                pls = [a['pl'] for a in ops if 'pl' in a]
            else:
                r = d[1]
                b2 = bad or r['k'] in ('bin', 'un')
                pls = [o['pl'] for o in flow.rv_operands(r) if 'pl' in o] + ([r['pl']] if 'pl' in r else [])
            for pl in pls:
                if any(e[0] == 'f' and e[1] == fld for e in pl['p']) and b2:
                    return True
                work.append((pl['l'], b2))
    return False


def dispatch(ctx, rep):
    """use_brotli selects the compressor"""
    cr = ctx.lib
    b = next((b for b in cr.fns.values() if b.path.endswith('CompressorState::encode')), None)
    if not rep.anchor('CompressorState::encode', b is not None):
        return
    starts = [x for p, x in cr.fns.items() if any((callee_decl(t) or '').endswith('DivansCompressorFactory::new') or 'DivansCompressorFactory>::new' in (callee(t) or '') for _, t in x.calls()) and p.startswith('ffi::')]
    rep.anchor('the C interface builds compressors', len(starts) >= 1)
    for s in starts:
        ib = flow.IBody(cr, s)
        rep.fns.add(s.path)

        class M(flow.Monitor):
            init = ()

            def call(self, sim, f, bi, t, mon):
                c = (callee(t) or '')
                if 'DivansCompressorFactory>::new' in c or (callee_decl(t) or '').endswith('DivansCompressorFactory::new'):
                    internal = 'DivansCompressorFactoryStruct' in c
                    setting = None
                    for k, v in f.items():
                        if optfield(k) == 'use_brotli' and v[0] == 'var':
                            setting = v[1]
                    exp = frozenset(['UseInternalCommandSelection'])
                    rep.count('compressors chosen')
                    ok = setting is not None and ((setting == exp) if internal else not (setting & exp))
                    rep.check('dispatch', 'internal' if internal else 'brotli', ok, '%s:%s' % tuple(t['sp'][:2]),
                              'the %s compressor is built for the setting %s' % ('internal' if internal else 'brotli', sorted(setting) if setting else 'unknown'), sim.trace())
                return mon
        flow.Sim(ib, M()).run()


def decoder_opts(ctx, rep):
    """skip_crc and multithread of every constructor reach the header parser's fields of the same name"""
    cr = ctx.lib
    # 1. the factory
    fs = [b for p, b in cr.fns.items() if b.path.split('::')[-1] == 'new' and ('DivansDecompressorFactory::' in p or 'DivansDecompressorFactory>::' in p)]
    if not rep.anchor('decompressor factory', len(fs) >= 1):
        return
    role = {}
    for b in fs:
        ib = flow.IBody(cr, b, want=small(60))
        sl = Slice(ib)
        rep.fns.add(b.path)
        for bi in ib.live_blocks:
            for s in ib.blocks[bi]['s']:
                if s['k'] == '=' and s['r']['k'] == 'agg' and s['r']['a'] == 'adt' and s['r']['adt'].endswith('HeaderParser'):
                    adt = cr.adts[canon(s['r']['adt'])]
                    for i, fl in enumerate(adt['vars'][0]['fields']):
                        if fl[0] in ('skip_crc', 'multithread'):
                            src = [x for x in sl.op(s['r']['o'][i]) if x[0] == 'arg']
                            ok = len(src) == 1 and ib.locals[src[0][1]] == 'bool'
                            rep.check('decoder', 'factory %s' % fl[0], ok and not negated(ib, s['r']['o'][i]), '%s:%s' % tuple(s['sp'][:2]), '%s is not taken from a parameter as given' % fl[0])
                            if ok:
                                role[src[0][1] - 1] = fl[0]
        rep.check('decoder', 'factory roles', set(role.values()) == set(['skip_crc', 'multithread']), b.file, 'skip_crc and multithread do not both reach the header parser')
        names = dict((i - 1, ib.names.get(i)) for i in range(1, ib.argc + 1))
    # 2. its callers: by parameter name, across the library
    for p, b in sorted(cr.fns.items()):
        for bi, t in b.calls():
            if not ((callee_decl(t) or '').endswith('DivansDecompressorFactory::new') or 'DivansDecompressorFactory>::new' in (callee(t) or '')):
                continue
            ib = flow.IBody(cr, b)
            sl = Slice(ib)
            rep.fns.add(p)
            for i, r in role.items():
                src = [x for x in sl.op(t['a'][i]) if x[0] == 'arg']
                rep.count('constructors of decompressors')
                nm = ib.names.get(src[0][1]) if len(src) == 1 else None
                ok = len(src) == 1
                # a parameter of the other role's name is the mix-up this looks for
                other = 'multithread' if r == 'skip_crc' else 'skip_crc'
                rep.check('decoder', '%s %s' % (p, r), ok and nm != other and not negated(ib, t['a'][i]), '%s:%s' % tuple(t['sp'][:2]), '%s is made from %s' % (r, nm or 'no parameter'))


def negated(ib, o, d=0):
    """an odd number of negations between a flag and its parameter"""
    if 'pl' not in o or d > 20:
        return 'pl' not in o
    l = o['pl']['l']
    if 1 <= l <= ib.argc:
        return False
    ds = ib.defs.get(l, ())
    if len(ds) != 1 or ds[0][0] != 'rv':
        return True
    r = ds[0][1]
    if r['k'] in ('use', 'cast'):
        return negated(ib, r['o'], d + 1)
    if r['k'] == 'un' and r['op'] == 'Not':
        return not negated(ib, r['o'], d + 1)
    if r['k'] == 'bin' and 'v' in r['b']:
        pos = (r['op'] == 'Ne' and r['b']['v'] == 0) or (r['op'] == 'Gt' and r['b']['v'] == 0)
        neg = r['op'] == 'Eq' and r['b']['v'] == 0
        if pos or neg:
            x = negated(ib, r['a'], d + 1)
            return x if pos else not x
    return True


def str_of(cr, ib, o):
    """the literal a &str (or &&str) operand is"""
    if 'promoted' not in o and 's' in o and o.get('ty', '').endswith('str'):
        return o['s'].strip('"')
    if 'promoted' in o:
        b = cr.bodies.get('%s::promoted[%d]' % (canon(o['def']), o['promoted']))
        if b is not None:
            for blk in b.blocks:
                for s in blk['s']:
                    if s['k'] == '=' and s['r']['k'] == 'use' and 's' in s['r']['o'] and '"' in s['r']['o']['s']:
                        return s['r']['o']['s'].strip('"')
        return None
    if 'pl' in o and not [e for e in o['pl']['p'] if e[0] != '*']:
        ds = ib.defs.get(o['pl']['l'], ())
        if len(ds) == 1 and ds[0][0] == 'rv':
            r = ds[0][1]
            if r['k'] in ('use', 'cast'):
                return str_of(cr, ib, r['o'])
            if r['k'] == 'ref':
                return str_of(cr, ib, {'pl': r['pl']})
    return None


def command(ctx, rep):
    cr = ctx.bin
    b = cr.fns.get('main')
    if not rep.anchor('main of the command', b is not None):
        return
    ib = flow.IBody(cr, b, want=lambda c, t, cands, stack: cands[0] if len(cands) == 1 and any(canon(ty).endswith('DivansCompressorOptions') for ty in cands[0].locals[:1]) else None)
    rep.fns.add('divans.rs: main')
    # which variable becomes which field
    agg = None
    for bi in ib.live_blocks:
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and s['r']['k'] == 'agg' and s['r'].get('adt', '').endswith('DivansCompressorOptions') and s['r']['o']:
                agg = (bi, s)
    if not rep.anchor('options of the command', agg is not None):
        return
    fields = [f[0] for f in ctx.lib.adts[OPTS]['vars'][0]['fields']]
    var = {}
    for i, f in enumerate(fields):
        for l in roots(ib, agg[1]['r']['o'][i]):
            var.setdefault(l, set()).add(f)
    used = {}
    for l, f in var.items():
        for x in f:
            used.setdefault(x, set()).add(l)
    for l, fs in sorted(var.items()):
        rep.check('command', 'one option per variable %s' % sorted(fs)[0], len(fs) == 1, 'src/bin/divans.rs', 'one variable feeds the options %s' % sorted(fs))
    # flags
    tests = {}
    for bi in ib.live_blocks:
        t = ib.blocks[bi]['t']
        if t['k'] != 'call':
            continue
        d = callee_decl(t) or ''
        lit = None
        if d.endswith('starts_with') or d.endswith('PartialEq::eq') or d.endswith('PartialEq::ne'):
            lit = str_of(cr, ib, t['a'][1])
        if lit is None or not lit.startswith('-'):
            continue
        sw = ib.blocks[t['t']]['t']
        if sw['k'] != 'switch':
            continue
        no = [x for v, x in sw['v'] if v == 0][0]
        yes = sw['ow']
        if d.endswith('::ne'):
            yes, no = no, yes
        tests.setdefault(lit, []).append((t['t'], yes, no))
    idom, _ = flow.dominators(ib.succ, 0, ib.live_blocks)

    def dominated(a, x):
        while True:
            if x == a:
                return True
            if x == 0 or x not in idom:
                return False
            x = idom[x]
    hit = {}
    for bi in sorted(ib.live_blocks):
        w = set()
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=':
                l = ib.norm(s['d'])[0]
                w |= var.get(l, set())
        t = ib.blocks[bi]['t']
        if t['k'] == 'call':
            w |= var.get(ib.norm(t['d'])[0], set())
        if not w or dominated(agg[0], bi):
            continue
        # the literals matched on the way here
        flags = set(lit for lit, ts in tests.items() for (sw, yes, no) in ts if dominated(yes, bi) and not dominated(no, bi))
        if not flags:
            # `a == x || a == y`: the join of several tests
            x = bi
            while x in idom and x != 0 and not flags:
                flags = set(lit for lit, ts in tests.items() for (sw, yes, no) in ts if straight(ib, yes, x))
                x = idom[x]
        known = [fl for fl in flags if fl in FLAGS]
        if not known:
            continue
        rep.count('assignments of options in the command')
        allow = set().union(*[FLAGS[fl] for fl in known])
        for s in ib.blocks[bi]['s']:
            if s['k'] == '=' and not s['d']['p'] and s['d']['l'] in var and s['r']['k'] == 'use' and s['r']['o'].get('v') in (0, 1):
                for fl in known:
                    x = list(var[s['d']['l']])[0]
                    if (fl, x) in SWITCH:
                        rep.check('command', 'flag %s value' % fl, s['r']['o']['v'] == SWITCH[(fl, x)], '%s:%s' % tuple(t['sp'][:2]), 'the flag %s switches %s the wrong way' % (fl, x))
        rep.check('command', 'flag %s' % '/'.join(sorted(known)), w <= allow, '%s:%s' % tuple(t['sp'][:2]), 'the flag %s changes %s' % ('/'.join(sorted(known)), sorted(w - allow)))
        for fl in known:
            hit.setdefault(fl, set()).update(w)
    for fl in sorted(tests):
        if fl in FLAGS:
            rep.check('command', 'flag %s sets' % fl, hit.get(fl, set()) >= FLAGS[fl], 'src/bin/divans.rs', 'the flag %s does not set %s' % (fl, sorted(FLAGS[fl] - hit.get(fl, set()))))
    rep.count('flags of the command', len([fl for fl in tests if fl in FLAGS]))


def straight(ib, a, x, n=12):
    while n:
        if a == x:
            return True
        t = ib.blocks[a]['t']
        if t['k'] in ('goto', 'drop'):
            a = t['t']
        else:
            return False
        n -= 1
    return False


def roots(ib, o, d=0):
    """user variables an operand is made from"""
    out = set()
    seen = set()
    work = [o['pl']['l']] if 'pl' in o else []
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        ds = ib.defs.get(l, ())
        if l in ib.names and (len(ds) > 1 or not ds):
            out.add(l)
            continue
        for x in ds:
            if x[0] == 'rv':
                if x[1]['k'] == 'use' and 'pl' not in x[1]['o'] or (x[1]['k'] == 'agg' and not x[1]['o']):
                    # a constant chosen by a test
                    p = ib.pred[x[2]]
                    for q in p:
                        t = ib.blocks[q]['t']
                        if t['k'] == 'switch' and 'pl' in t['o']:
                            work.append(t['o']['pl']['l'])
                work += flow.rv_locals(x[1])
            else:
                for a in x[1]['a']:
                    work += flow.op_locals(a)
    return out


def check(ctx, rep):
    rep.rule('selector', 'on every path of set_option that returns DIVANS_SUCCESS the field of the selected option, and only that field, is stored; every option of the header is accepted for some value')
    rep.rule('value', 'what is stored is the value given, or, for the enumerated options, the setting that value stands for')
    rep.rule('range', 'values an enumerated option does not define are refused; a table is indexed by the value only after comparing it with the length')
    rep.rule('refuse', 'a path that returns DIVANS_FAILURE stores nothing')
    rep.rule('late', 'success is returned only while the state is still collecting options')
    rep.rule('plumb', 'in every place that builds an encoder from the options, each model setting comes from the option of its name and from no other')
    rep.rule('brotli', 'each brotli parameter is set from the option of its name, on every path on which that option has a value')
    rep.rule('window', 'header window and ring buffer sizes are one value, limited to 10..24')
    set_option(ctx, rep)
    cr = ctx.lib
    fs = cr.trait_impls.get('interface::DivansCompressorFactory::new', [])
    rep.anchor('compressor factories', len(fs) >= 2)
    for b in fs:
        factory(ctx, rep, b)
    rep.rule('handed', 'constructors of readers, writers and the C interface pass the options they were given to the factory, unchanged')
    rep.rule('coded', 'each model setting decides a value the encoder writes into the stream')
    rep.rule('dispatch', 'the command selector of the options decides which compressor the C interface builds')
    rep.rule('decoder', 'skip_crc and multithread reach the header parser from the parameters of those names, not negated, in every constructor')
    rep.rule('command', 'each flag of the command assigns only the options it stands for, and each option of the struct is filled from its own variable')
    handed_on(ctx, rep)
    coded(ctx, rep)
    dispatch(ctx, rep)
    decoder_opts(ctx, rep)
    command(ctx, rep)
