"""The compression layer: what goes into the coder, what comes out, and when it starts over."""
from common import *
from frames import None_fr

UNITS = ['compress', 'protocol']
CLS = 'stored::CompressLayer'
HS = re.compile(r'heatshrink_(encoder|decoder)_(sink|poll|finish|reset|alloc|free)$')
GP, GT, GO, GR, GF = [('ghost', x) for x in ('pos', 'total', 'out', 'poll', 'fin')]
EMPTY, MORE, DONE = 0, 1, 0     # heatshrink's result codes


class Coder(Rule):
    maxdepth = 8
    K = 14

    def __init__(self, m, enc):
        self.m, self.enc = m, enc
        self.root = ids(m, PL, 'encode' if enc else 'decode')
        self.n = self.events = self.fwd = 0

    def templates(self, E, env):
        yield env[GP] - self.len
        ln = [v for k, v in env.items() if k[0] == 'loc' and v.__class__ is Lin and len(v.t) <= 2]
        for v in ln[:12]:
            yield v + env[GP] - self.len
            yield self.len - v - env[GP]
            yield v - env[GP]
            yield env[GP] - v
            yield v - self.len
        b = env.get(('fld', ('this', CLS), 'm_decodeBufferSize'))
        if b is not None and b.__class__ is Lin:
            yield b - env[GT]
            yield env[GT] - b

    def flushed(self, E, st, fr, node, what):
        """All output of the last poll went on."""
        self.n += 1
        if self.enc and not st.cons.proves_le(st.env[GO]):
            E.report(fr, node, '%s, while up to %r bytes of output of the coder were not passed down' % (what, st.env[GO]), st, key='lost ' + what)

    def drained(self, E, st, fr, node, what):
        self.n += 1
        if not st.cons.proves_eq(st.env[GR] - L(EMPTY)):
            E.report(fr, node, '%s, while the coder may still have output' % what, st, key='undrained ' + what)

    def pre_call(self, E, st, fr, node, ci):
        h = HS.match(ci.fn or '')
        if h and ci.target is None:
            which, op = h.groups()
            if (which == 'encoder') != self.enc:
                return None
            self.events += 1
            if op == 'alloc':
                st.g['dirty'] = 0
                return None
            if op == 'free':
                return None
            if op == 'sink':
                self.flushed(E, st, fr, node, 'input is added')
                self.drained(E, st, fr, node, 'input is added')
                p, n = E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
                if p.base != self.inbase or not st.cons.proves_eq(p.off - st.env[GP]):
                    E.report(fr, node, 'input at offset %r is given to the coder, while %r bytes were taken' % (p.off, st.env[GP]), st, key='in-order')
                if st.g.get('fin'):
                    E.report(fr, node, 'input is added to a finished stream', st, key='fin-sink')
                o = E.fresh('sunk', 'unsigned long', 64, True)
                st.cons.add_le(o - n)
                st.env[GP] = st.env[GP] + o
                E.store(st, E.as_ptr(st, ci.args[3], None), o, 'unsigned long', 64, True)
                st.g['dirty'] = 1
                st.env[GR] = L(MORE)
                return [(st, Z)]       # HSxR_SINK_OK: the arguments are valid
            if op == 'poll':
                self.flushed(E, st, fr, node, 'more output is taken')
                p, n = E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
                if not self.enc:
                    if p.base != ('buf', ('fld', ('this', CLS), 'm_decodeBuffer')) or not st.cons.proves_eq(p.off - st.env[GT]):
                        E.report(fr, node, 'output goes to offset %r, but %r bytes were decoded already' % (p.off, st.env[GT]), st, key='out-order')
                else:
                    st.env[('outp',)] = p
                o = E.fresh('polled', 'unsigned long', 64, True)
                st.cons.add_le(o - n)
                st.env[GO] = o
                st.env[GT] = st.env[GT] + o
                E.store(st, E.as_ptr(st, ci.args[3], None), o, 'unsigned long', 64, True)
                r = E.fresh('res', None, None, None, 0, 1)
                st.env[GR] = r
                return [(st, r)]
            if op == 'finish':
                if not st.cons.proves_eq(st.env[GP] - self.len):
                    E.report(fr, node, 'the stream is finished after %r of %r bytes' % (st.env[GP], self.len), st, key='fin-early')
                self.drained(E, st, fr, node, 'the stream is finished')
                st.g['fin'] = 1
                r = E.fresh('fin', None, None, None, 0, 1)
                st.env[GF] = r
                outs = []
                s2 = st.copy()
                for s in E.assume(st, B('eq', r - L(MORE))):
                    s.env[GR] = L(MORE)
                    s.g['fin'] = 1
                    outs.append((s, r))
                for s in E.assume(s2, B('eq', r)):
                    s.g['fin'] = 2
                    outs.append((s, r))
                return outs
            if op == 'reset':
                self.flushed(E, st, fr, node, 'the coder is reset')
                self.drained(E, st, fr, node, 'the coder is reset')
                if st.g.get('dirty') and st.g.get('fin') != 2 and self.closing:
                    E.report(fr, node, 'the coder is reset before it finished', st, key='unfinished')
                st.g['dirty'] = 0
                st.g['fin'] = 0
                return [(st, Z)]
        if ci.short == ('encode' if self.enc else 'decode') and overroot(self.m, ci.fid, self.root) and (ci.virt and ci.target is None or ci.cls == PL):
            self.fwd += 1
            p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
            self.n += 1
            if self.enc:
                if not st.cons.proves_eq(n):
                    if not st.cons.proves_eq(n - st.env[GO]) or p != st.env.get(('outp',)):
                        E.report(fr, node, '%r bytes are passed down, the coder produced %r' % (n, st.env[GO]), st, key='fwd')
                    st.env[GO] = Z
            else:
                if st.g.get('up'):
                    E.report(fr, node, 'a message is delivered twice', st, key='twice')
                st.g['up'] = 1
                self.drained(E, st, fr, node, 'the message is delivered')
                if p.base != ('buf', ('fld', ('this', CLS), 'm_decodeBuffer')) or not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n - st.env[GT]):
                    E.report(fr, node, '%r bytes are delivered, the coder produced %r' % (n, st.env[GT]), st, key='deliver')
            return [(st, Z)]
        return None


def run_coder(ctx, what):
    m = model('std', UNITS)
    enc = what != 'decode'
    f = own_methods(m, CLS, 'encode' if enc else 'decode', 3 if enc else 2)
    ctx.need(f, CLS + '::' + what)
    f = f[0]
    reset_atoms()
    r = Coder(m, enc)
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.inbase = args[0].base
    r.closing = what != 'chunk'
    bind_buffer(E, st, f, args)
    r.len = E.lin(st, args[1])
    for g in (GP, GT, GO, GR):
        st.env[g] = Z
    st.env[GF] = Z
    st.g['dirty'] = 0 if not enc else 1
    if enc:
        st.cons.add_eq(E.lin(st, args[2]) - L(1 if what == 'last' else 0))
    # a null buffer comes with no bytes
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        ctx.count('exit_states')
        r.n += 1
        isnull = A(r.inbase[1])
        if s.cons.proves_eq(isnull) or s.cons.proves_eq(r.len) and not enc:
            continue
        if not s.cons.proves_eq(s.env[GP] - r.len):
            E.report(None_fr(f), None, 'returns after %r of %r bytes went to the coder' % (s.env[GP], r.len), s, key='rest')
        r.flushed(E, s, None_fr(f), None, 'returns')
        r.drained(E, s, None_fr(f), None, 'returns')
        if what == 'decode' and not s.g.get('up'):
            E.report(None_fr(f), None, 'a message is not delivered', s, key='nodeliver')
        if r.closing and s.g.get('dirty'):
            E.report(None_fr(f), None, 'returns at the end of a message without a reset of the coder: it goes on where this message left it', s, key='noreset')
    ctx.need(r.events >= 3 and r.fwd, 'coder calls in ' + f.name)
    ctx.count('obligations', r.n)
    ctx.count('coder_calls', r.events)
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'compress', x['msg'], x['via'], x['trace'])


class ResetRule(Rule):
    def pre_call(self, E, st, fr, node, ci):
        h = HS.match(ci.fn or '')
        if h and h.group(2) == 'reset':
            st.g[h.group(1)] = 1
            return [(st, Z)]
        return None


def run_creset(ctx):
    m = model('std', UNITS)
    f = own_methods(m, CLS, 'reset', 0)
    if not f:
        ctx.finding('include/libstored/compress.h:1', CLS, 'compress', 'has no reset(): a partial message stays in the coders')
        return
    f = f[0]
    reset_atoms()
    E = Engine(m, ResetRule())
    st, this, args = start(E, f)
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        for c, n in (('encoder', 'm_encoder'), ('decoder', 'm_decoder')):
            ctx.count('obligations')
            p = E.load(s, Ptr(('fld', this, n), Z), 'void *')
            null = p == NULL or p.__class__ is Ptr and p.base[0] == 'sym' and s.cons.proves_eq(A(p.base[1]))
            if not s.g.get(c) and not null:
                E.report(None_fr(f), None, 'the %s is not reset' % c, s, key='creset ' + c)
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'compress', x['msg'], x['via'], x['trace'])


def p08(ctx):
    ctx.rule('the bytes given to the coder are adjacent, in order, start at 0 and end at the length of the chunk; output is taken until the coder has no more, '
             'and all of it is forwarded; the stream is finished, then the coder reset, at the end of every message; reset() resets both coders')
    ctx.assumptions.append('heatshrink: sink takes at most what it is given, poll gives at most what fits and returns MORE or EMPTY, finish returns MORE or DONE')
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), [(run_coder, 'decode'), (run_coder, 'last'), (run_coder, 'chunk'), (run_creset,)])
