"""Sequence numbers and acknowledges."""
from common import *
from frames import None_fr

UNITS = ['protocol']
DARQ = 'stored::DebugArqLayer'
LIMIT = 0x8000000


class Seq(Rule):
    maxdepth = 8
    K = 40
    unroll = 6


def fresh_seq(E, st, t, lo, hi):
    return L(lo) if lo == hi else E.fresh('seq', None, None, None, lo, hi)


def run_codec(ctx, lo, hi):
    """decodeSeq(encodeSeq(x)) == x, and both agree on the length."""
    m = model('std', UNITS)
    enc = own_methods(m, DARQ, 'encodeSeq', 2)
    dec = own_methods(m, DARQ, 'decodeSeq', 2)
    ctx.need(enc and dec, 'encodeSeq and decodeSeq')
    enc, dec = enc[0], dec[0]
    reset_atoms()
    r = Seq()
    E = Engine(m, r)
    st, this, _ = start(E, enc)
    seq = fresh_seq(E, st, 'unsigned int', lo, hi)
    buf = ('arg', 'seqbuf')
    E.ext[buf] = 4
    E.basetype[buf] = 'unsigned char[4]'
    args = [None, None]
    for i, p in enumerate(enc.params):
        args[i] = Ptr(buf, Z) if unq(p['t']).endswith('*') else seq
    n = 0
    for s, v in E.exec_fn(enc, st, None, ('enc',), args, this, this):
        used = E.lin(s, v)
        # the buffer may hold more: payload
        plen = E.fresh('payload', None, None, None, 0, 1 << 40)
        pp, lp = ('arg', 'bufptr'), ('arg', 'lenvar')
        E.basetype[pp], E.basetype[lp] = 'unsigned char *', 'unsigned long'
        E.store(s, Ptr(pp, Z), Ptr(buf, Z), 'unsigned char *', None, None)
        E.store(s, Ptr(lp, Z), used + plen, 'unsigned long', 64, True)
        a2 = []
        for p in dec.params:
            t = p['t'].replace(' ', '')
            a2.append(Ptr(lp, Z) if 'long' in t or 'size_t' in t else Ptr(pp, Z))
        for s2, v2 in E.exec_fn(dec, s, None, ('dec',), a2, this, this):
            if s2.cons.bot:
                continue
            n += 1
            ctx.count('obligations', 3)
            got = E.lin(s2, v2)
            if not s2.cons.proves_eq(got - seq):
                E.report(None_fr(enc), None, 'a sequence number in [%#x,%#x], encoded and decoded, is %r instead of %r' % (lo, hi, got, seq), s2, key='codec')
            left = E.load(s2, Ptr(lp, Z), 'unsigned long', 64, True)
            if not s2.cons.proves_eq(E.lin(s2, left) - plen):
                E.report(None_fr(dec), None, '%r bytes are left after a sequence number of %r bytes, not the payload of %r' % (left, used, plen), s2, key='codec-len')
            ptr = E.load(s2, Ptr(pp, Z), 'unsigned char *', None, None)
            if ptr.__class__ is not Ptr or ptr.base != buf or not s2.cons.proves_eq(ptr.off - used):
                E.report(None_fr(dec), None, 'after the sequence number of %r bytes, the payload is taken from %r' % (used, ptr), s2, key='codec-ptr')
    ctx.need(n, 'paths through encodeSeq and decodeSeq')
    ctx.count('codec_paths', n)
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'seq-codec', x['msg'], x['via'], x['trace'])


def run_next(ctx, cls, lo, hi):
    """The successor: one more, except at the end of the range, where it starts over at lo."""
    m = model('std', UNITS)
    f = own_methods(m, cls, 'nextSeq', 1)
    ctx.need(f, cls + '::nextSeq')
    f = f[0]
    for a, b, exp in ((lo, hi - 1, None), (hi, hi, lo)):
        reset_atoms()
        r = Seq()
        E = Engine(m, r)
        st, this, _ = start(E, f)
        seq = fresh_seq(E, st, f.params[0]['t'], a, b)
        for s, v in E.exec_fn(f, st, None, ('next',), [seq], this, this):
            if s.cons.bot:
                continue
            ctx.count('obligations')
            e = seq + 1 if exp is None else L(exp)
            if not s.cons.proves_eq(E.lin(s, v) - e):
                E.report(None_fr(f), None, 'the successor of a sequence number in [%#x,%#x] is %r' % (a, b, v), s, key='next')
        for x in E.reports.values():
            ctx.finding(x['where'], x['func'], 'seq-next', x['msg'], x['via'], x['trace'])


def p06(ctx):
    ctx.rule('for every sequence number of the debug ARQ layer, decoding its encoding gives the number back, consumes what was written, and leaves the payload')
    ctx.rule('the successor of a sequence number is one more, or 1 after the last')
    jobs = [(run_codec, a, b) for a, b in ((1, 0x3f), (0x40, 0x1fff), (0x2000, 0xfffff), (0x100000, LIMIT - 1))]
    jobs += [(run_next, DARQ, 1, LIMIT - 1), (run_next, 'stored::ArqLayer', 1, 0x3f)]
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
