"""C01: the model of encoder and decoder never diverges."""
from .. import taint, flow
from ..mir import ty_head, canon, callee_decl
from ..slice import Slice
from ..taint import Taint

EXPLAIN = ('Interprocedural information flow with implicit flows over the coding state machines. Sources are what only the encoder knows: '
           'the command it is given, the settings it was created with (desired_*), and constants of its specialization. A nibble becomes common knowledge '
           'when it passes through get_or_put_nibble. Nothing that survives the call (priors, book keeping, coder, state, recoder) and no '
           'probability or call of the coder may depend on a source in any other way, and the initial model may not depend on the settings.')
ASSUME = ['paths that have settled on a Failure are cut off: nothing is decoded after them',
          'get_or_put_nibble leaves the same nibble on both sides (the entropy coder itself is not part of this property)',
          'LiteralCommand::prob is the empty placeholder of the default configuration (feature external-literal-probability off), so ecdf_write_nibble is not reached',
          'heap cells behind a type parameter are the cells of their owner']
COMMANDS = tuple('brotli::interface::' + x for x in ('CopyCommand', 'DictCommand', 'LiteralCommand', 'PredictionModeContextMap', 'BlockSwitch', 'LiteralBlockSwitch', 'Command'))
SPEC = 'codec::interface::EncoderOrDecoderSpecialization::'
CODE = 'ArithmeticEncoderOrDecoder::get_or_put_nibble'


def is_f(e, pred):
    return isinstance(e, tuple) and e[0] == 'f' and pred(e[1])


class Pol(taint.Policy):
    def __init__(self, cr):
        self.cr = cr
        self.differs = {}
        self.used = set()

    def source_const(self, b, o):
        d = str(o.get('def') or o.get('s') or '')
        return 'IS_DECODING_FILE' in d

    def source_path(self, b, p):
        return any(is_f(e, lambda n: n.startswith('desired_')) for e in p[1])

    def source_call(self, b, t, decl):
        # a scalar asked of the specialization differs between the sides unless both use the one default body
        if decl.startswith(SPEC) and not t.get('dty', '').startswith('&') and len(t['a']) == 1:
            return self.side(decl)
        return False

    def side(self, decl):
        v = self.differs.get(decl)
        if v is None:
            impls = [c for c in self.cr.trait_impls.get(decl, ())]
            impls = [c.path for c in impls]
            mine = [c for c in impls if c.split(' as ')[0].endswith(('::EncoderSpecialization', '::DecoderSpecialization'))]
            v = self.differs[decl] = bool(mine)
        return v

    def clean_path(self, b, p):
        return any(is_f(e, lambda n: n == 'prob') for e in p[1])

    def skip_call(self, b, t, decl):
        return decl.endswith('::ecdf_write_nibble')

    def sanitize(self, b, t, decl):
        if decl.endswith(CODE):
            self.used.add((b.path, '%s:%s' % tuple(t['sp'][:2])))
            return ((1,), (0, 2))
        return None


def site(v):
    if v is None:
        return '?'
    if v[0] in ('call', 'coded'):
        return '%s:%s' % tuple(v[1][:2])
    return '%s:%s' % tuple(v[:2])


def fmt(k):
    return ''.join('*' if e == '*' else '[]' if e == '[]' else '.' + e[1] for e in k)


def roots(cr):
    out = []
    for p, b in sorted(cr.fns.items()):
        if not p.startswith('codec::') or '{' in p:
            continue
        src = frozenset((i, q) for i in range(1, b.argc + 1) for q in ((), ('*',)) if ty_head(b.locals[i]) in COMMANDS)
        if not src:
            continue
        if p.split('::')[-1].startswith('encode_or_decode'):
            out.append((p, b, src))
    # the whole step last: what is wrong inside a part is reported where it is
    return sorted(out, key=lambda r: (any(x.startswith('brotli::interface::Command') for x in [ty_head(r[1].locals[i]) for i, _ in r[2]]), r[0]))


def check(ctx, rep):
    cr = ctx.lib
    rep.rule('flow', 'nothing that outlives the call depends on the command being encoded except through a coded nibble')
    rep.rule('coded', 'which nibbles are coded, and with which probabilities, does not depend on the command being encoded except through coded nibbles')
    rep.rule('result', 'the result of a coding step does not depend on the command being encoded except through coded nibbles')
    rep.rule('init', 'no part of the initial model depends on a setting only the encoder has')
    rep.rule('side', 'the constants and switches of the two specializations that the model sees are the same')
    pol = Pol(cr)
    T = Taint(cr, pol)
    rs = roots(cr)
    top = 0
    for p, b, src in rs:
        rep.count('coding state machines')
        src = frozenset((i, q) for i, q in src if not (i == 1 and b.names.get(1) == 'self'))
        s = T.summary(b, src)
        params = set(i for i, _ in src)
        rep.check('result', p, not s.ret, p, '%s returns something that depends on the command being encoded' % p)
        bad = [(k, v) for k, v in sorted(s.outs.items(), key=str) if k[0] not in params]
        if not bad:
            rep.ok('flow', p)
            rep.ok('coded', p)
        for k, v in bad[:6]:
            name = b.names.get(k[0], str(k[0]))
            if v is not None and v[0] == 'coded':
                rep.bad('coded', '%s:%s%s' % (p, name, fmt(k[1])), site(v),
                        '%s: the probability or the call of get_or_put_nibble in %s depends on what only the encoder knows' % (p, v[3]))
            else:
                rep.bad('flow', '%s:%s%s' % (p, name, fmt(k[1])), site(v),
                        '%s: %s%s depends on what only the encoder knows (stored %s)' % (p, name, fmt(k[1]), ('in ' + v[3]) if v and v[0] == 'call' else 'here'))
    rep.count('functions analysed', len(T.fns))
    rep.count('coded nibbles', len(pol.used))
    rep.count('stores', T.stores)
    rep.fns |= T.fns
    rep.floor('coding state machines', 6)
    rep.floor('coded nibbles', 20)
    # settings may not steer the model outside the coding steps either (encode_or_decode without a command, observers)
    for p, b in sorted(cr.fns.items()):
        if not p.startswith('codec::') or '{' in p or p in set(r[0] for r in rs):
            continue
        if not (p.split('::')[-1].startswith(('obs_', 'push_literal', 'get_', 'next_', 'read_', 'update_', 'clear_', 'reset_', 'construct_', 'materialized_', 'mnemonic_', '_get'))):
            continue
        s = T.summary(b, frozenset())
        rep.count('observers')
        rep.check('flow', p, not s.ret and not s.outs, p, '%s uses a setting only the encoder has' % p)
    init(cr, rep)
    for d, v in sorted(pol.differs.items()):
        rep.check('side', d.split('::')[-1], not v, d, 'encoder and decoder specialization answer %s differently' % d.split('::')[-1])


OPTION_TY = ('u8', 'core::option::Option<u8>', 'bool', 'codec::interface::StrideSelection', 'core::option::Option<[probability::interface::Speed; 4]>')
MODEL = ('codec::interface::CrossCommandBookKeeping', 'codec::interface::LiteralBookKeeping', 'codec::interface::MainThreadContext',
         'codec::interface::CrossCommandState', 'codec::DivansCodec')


def init(cr, rep):
    b = cr.fns.get('codec::DivansCodec::new')
    if not rep.anchor('DivansCodec::new', b is not None):
        return

    def want(caller, t, cands, stack):
        c = [x for x in cands if x.path.startswith('codec::')]
        return c[0] if len(c) == 1 and len(stack) < 6 else None
    ib = flow.IBody(cr, b, want)
    opts = set(i for i in range(1, b.argc + 1) if b.locals[i].replace(' ', '') in [o.replace(' ', '') for o in OPTION_TY])
    rep.count('settings', len(opts))
    rep.floor('settings', 4)
    sl = Slice(ib, control=True)

    def dep(o):
        return sorted(b.names.get(a[1], '?') for a in sl.op(o) if a[0] == 'arg' and a[1] in opts)
    n = 0
    for bi in sorted(ib.live_blocks):
        for s in ib.blocks[bi]['s']:
            if s['k'] != '=':
                continue
            r = s['r']
            if r['k'] == 'agg' and r.get('a') == 'adt' and canon(r['adt']) in MODEL:
                adt = cr.adts.get(canon(r['adt']))
                v = next((x for x in adt['vars'] if x['name'] == r['var']), adt['vars'][0])
                for f, o in zip(v['fields'], r['o']):
                    name = f[0]
                    if name.startswith('desired_') or name == 'skip_checksum' or any(f[1].startswith(m) for m in MODEL) or 'ThreadContext' in f[1]:
                        continue
                    n += 1
                    d = dep(o)
                    rep.check('init', '%s.%s' % (canon(r['adt']).split('::')[-1], name), not d, '%s:%s' % tuple(s['sp'][:2]),
                              'the initial %s depends on the setting %s, which the decoder does not have' % (name, ', '.join(d)))
            elif s['d']['p']:
                q = ib.norm(s['d'])
                fs = [e[1] for e in q[1] if isinstance(e, tuple) and e[0] == 'f']
                if not fs or any(x.startswith('desired_') for x in fs) or fs[-1] == 'skip_checksum':
                    continue
                if not (ty_head(ib.locals[q[0]]) in MODEL):
                    continue
                n += 1
                d = []
                for o in flow.rv_operands(r):
                    d += dep(o)
                rep.check('init', '%s.%s' % (ty_head(ib.locals[q[0]]).split('::')[-1], fs[-1]), not d, '%s:%s' % tuple(s['sp'][:2]),
                          'the initial %s depends on the setting %s, which the decoder does not have' % (fs[-1], ', '.join(d)))
    rep.count('initial fields', n)
    rep.floor('initial fields', 25)
