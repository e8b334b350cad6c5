"""The CRC layers: what is summed, what is compared, what is delivered."""
import ast
from common import *
from frames import None_fr

GC = ('ghost', 'crc')
GP = ('ghost', 'pos')
CRC = {'stored::Crc8Layer': 8, 'stored::Crc16Layer': 16}
UNITS = ['protocol']


def params(m, cls):
    for e in m.enums.values():
        if e.get('cls') == cls and 'polynomial' in e['v'] and 'init' in e['v']:
            return e['v']['polynomial'], e['v']['init']
    p = [m.vars.get('%s::%s' % (cls, x), {}).get('v') for x in ('polynomial', 'init')]
    if None in p:
        raise Broken('anchor vanished: polynomial and init of ' + cls)
    return tuple(p)


class Crc(Rule):
    maxdepth = 8
    K = 12

    def __init__(self, m, cls, f, enc):
        self.m, self.cls, self.f, self.enc = m, cls, f, enc
        self.bits = CRC[cls]
        self.up = ids(m, PL, 'decode')
        self.down = ids(m, PL, 'encode')
        self.n = 0
        self.ncomp = self.nout = 0

    def templates(self, E, env):
        yield env[GP] - self.len
        yield env[GP] - self.len + self.bits // 8

    def is_compute(self, ci, node):
        t = ci.target
        return t is not None and t.cls == self.cls and len(ci.args) == 2 and t.d.get('rt', '') in ('unsigned char', 'unsigned short') and \
            all(p.get('w') in (8, 16) and p.get('u') for p in t.params)

    def byte_at(self, E, st, v):
        """The offset in the input a value was read from."""
        if v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            k = ATOMS[v.t[0][0]].key
            if k and k[0] == 'init':
                if k[1] == self.inbase:
                    return Z
                if k[1][0] == 'elem' and k[1][1] == self.inbase:
                    return k[1][2]
        return None

    def pre_call(self, E, st, fr, node, ci):
        if self.is_compute(ci, node):
            self.ncomp += 1
            self.n += 1
            a = [E.lin(st, x) for x in ci.args]
            ws = [p.get('w') for p in ci.target.params]
            cand = [(0, 1), (1, 0)] if ws[0] == ws[1] else [(ws.index(8), ws.index(16))]
            ok = False
            for bi, cix in cand:
                o = self.byte_at(E, st, a[bi])
                if o is not None and st.cons.proves_eq(o - st.env[GP]) and st.cons.proves_eq(a[cix] - st.env[GC]):
                    ok = True
            if not ok:
                E.report(fr, node, 'the CRC is continued with %r and %r, not with the next byte (offset %r) and the CRC so far' % (a[0], a[1], st.env[GP]), st, key='chain')
            r = E.fresh('crc', None, self.bits, True)
            st.env[GC] = r
            st.env[GP] = st.env[GP] + 1
            return [(st, r)]
        if self.enc:
            if ci.short == 'encode' and len(ci.args) == 3 and overroot(self.m, ci.fid, self.down) and (ci.virt and ci.target is None or ci.cls == PL):
                return self.lower(E, st, fr, node, ci)
        elif ci.short == 'decode' and len(ci.args) == 2 and overroot(self.m, ci.fid, self.up) and (ci.virt and ci.target is None or ci.cls == PL):
            return self.upper(E, st, fr, node, ci)
        return None

    def lower(self, E, st, fr, node, ci):
        self.nout += 1
        p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
        if p.base == self.inbase or st.cons.proves_eq(n):
            return [(st, Z)]
        # the trailer
        self.n += 1
        nb = self.bits // 8
        if not st.cons.proves_eq(n - L(nb)):
            E.report(fr, node, 'a trailer of %r bytes' % n, st, key='trailer-len')
        v = Z
        for i in range(nb):
            v = v.scale(256) + self.byte(E, st, Ptr(p.base, p.off + i))
        if p.off == Z and nb == 1:
            v = E.lin(st, E.load(st, p, 'unsigned char', 8, True))
        if not st.cons.proves_eq(v - st.env[GC]):
            E.report(fr, node, 'the trailer %r is not the CRC %r' % (v, st.env[GC]), st, key='trailer')
        if not st.cons.proves_eq(st.env[GP] - self.len):
            E.report(fr, node, 'the trailer is sent after %r of %r bytes were summed' % (st.env[GP], self.len), st, key='trailer-pos')
        st.g['trailer'] = 1
        return [(st, Z)]

    def byte(self, E, st, p):
        v = E.load(st, p, 'unsigned char', 8, True)
        return E.fit(st, E.lin(st, v), 'unsigned char', 8, True)

    def trailer_in(self, E, st, off):
        v = Z
        for i in range(self.bits // 8):
            v = v.scale(256) + self.byte(E, st, Ptr(self.inbase, off + i))
        return v

    def upper(self, E, st, fr, node, ci):
        self.nout += 1
        self.n += 1
        nb = self.bits // 8
        p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
        if p.base != self.inbase or not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n + nb - self.len):
            E.report(fr, node, 'delivers %r bytes at offset %r of a frame of %r bytes' % (n, p.off, self.len), st, key='slice')
        if not st.cons.proves_eq(st.env[GP] - n):
            E.report(fr, node, 'delivers %r bytes after %r bytes were summed' % (n, st.env[GP]), st, key='summed')
        if not st.cons.proves_eq(st.env[GC] - self.trailer_in(E, st, self.len - nb)):
            E.report(fr, node, 'delivers a frame although its CRC may differ from its trailer', st, key='guard')
        if st.g.get('up'):
            E.report(fr, node, 'delivers a frame twice', st, key='twice')
        st.g['up'] = 1
        return [(st, Z)]


def field_of(m, cls, bits):
    t = {8: 'unsigned char', 16: 'unsigned short'}[bits]
    fs = [dict(x, w=bits, u=True) for c, x in m.fields(cls) if c == cls and unq(x['t']) == t]
    if len(fs) != 1:
        raise Broken('anchor vanished: the CRC member of ' + cls)
    return fs[0]


def run_crc(ctx, cls):
    m = model('std', UNITS)
    poly, init = params(m, cls)
    fld = field_of(m, cls, CRC[cls])
    nb = CRC[cls] // 8
    for enc in (False, True):
        fs = own_methods(m, cls, 'encode' if enc else 'decode', 3 if enc else 2)
        ctx.need(fs, cls + ('::encode' if enc else '::decode'))
        f = fs[0]
        for last in ((True, False) if enc else (None,)):
            reset_atoms()
            r = Crc(m, cls, f, enc)
            E = Engine(m, r)
            st, this, args = start(E, f)
            r.inbase = args[0].base
            bind_buffer(E, st, f, args)
            r.len = E.lin(st, args[1])
            floc = Ptr(('fld', this, fld['n']), Z)
            st.env[GP] = Z
            st.env[GC] = E.load(st, floc, fld['t'], fld['w'], fld['u']) if enc else L(init)
            if enc:
                st.cons.add_eq(E.lin(st, args[2]) - L(1 if last else 0))
            for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
                ctx.count('exit_states')
                r.n += 1
                if enc:
                    c = E.load(s, floc, fld['t'], fld['w'], fld['u'])
                    if last:
                        if not s.g.get('trailer'):
                            E.report(None_fr(f), None, 'the frame ends without a trailer', s, key='no-trailer')
                        if not s.cons.proves_eq(c - L(init)):
                            E.report(None_fr(f), None, 'after the frame, the CRC starts at %r instead of the initial value' % c, s, key='restart')
                    else:
                        if s.g.get('trailer'):
                            E.report(None_fr(f), None, 'a trailer is sent within the frame', s, key='early-trailer')
                        if not s.cons.proves_eq(c - s.env[GC]):
                            E.report(None_fr(f), None, 'the CRC so far is not kept for the next chunk', s, key='carry')
                        if not s.cons.proves_eq(s.env[GP] - r.len):
                            E.report(None_fr(f), None, 'only %r of %r bytes were summed' % (s.env[GP], r.len), s, key='allsummed')
                elif not s.g.get('up'):
                    # is this a frame that had to be delivered?
                    s.cons.add_le(L(nb) - r.len)
                    s.cons.add_eq(s.env[GP] + nb - r.len)
                    s.cons.add_eq(s.env[GC] - r.trailer_in(E, s, r.len - nb))
                    E.unwrap(s)
                    if not s.cons.bot and not contradiction(s):
                        E.report(None_fr(f), None, 'a frame with a matching CRC is not delivered', s, key='dropped')
            ctx.need(r.ncomp and r.nout, 'CRC computation and forwarding in ' + f.name)
            ctx.count('obligations', r.n)
            ctx.count('crc_steps', r.ncomp)
            ctx.count('forwarding_calls', r.nout)
            ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
            for x in E.reports.values():
                ctx.finding(x['where'], x['func'], 'crc', x['msg'], x['via'], x['trace'])


def contradiction(s):
    if s.cons.proves(ONE):
        return True
    for l in s.cons.ne:
        if s.cons.proves_eq(l):
            return True
    return False


# ---- the step function, bit by bit over GF(2) -----------------------------

class Unknown(Exception):
    pass


class Gf2:
    """Evaluates an expression to, per bit, a set of parameter bits whose XOR it is (or-ed with the constant 1)."""

    def __init__(self, m, f):
        self.m, self.f = m, f
        self.loc = {}

    def const(self, v, w=64):
        return [frozenset(['1']) if v >> i & 1 else frozenset() for i in range(w)]

    def run(self):
        env = {}
        for i, p in enumerate(self.f.params):
            env[p['d']] = [frozenset([(i, b)]) for b in range(p['w'])] + [frozenset()] * (64 - p['w'])
        self.loc = env
        b = self.f.entry
        seen = set()
        while True:
            if b in seen:
                raise Unknown('loop')
            seen.add(b)
            blk = self.f.blocks[b]
            for e in blk['e']:
                n = self.f.nodes[e if not isinstance(e, dict) else e.get('i')]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if 'init' in v:
                            self.loc[v['d']] = self.ev(v['init'])
                elif n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    l = self.f.nodes[n['c'][0]]
                    if l['k'] != 'ref' or 'd' not in l:
                        raise Unknown('store')
                    r = self.ev(n['c'][1])
                    if n['op'] != '=':
                        r = self.op(n['op'][:-1], self.loc[l['d']], r, n['c'][1])
                    self.loc[l['d']] = self.trunc(r, l.get('w') or 64)
                elif n['k'] == 'ret':
                    return self.ev(n['c'][0])
            s = [x for x in blk['s'] if x is not None]
            if len(s) != 1:
                raise Unknown('branch')
            b = s[0] if not isinstance(s[0], dict) else s[0].get('b')

    def trunc(self, v, w):
        return v[:w] + [frozenset()] * (64 - w)

    def op(self, op, a, b, bn):
        if op == '^':
            return [x ^ y for x, y in zip(a, b)]
        if op == '&':
            return [x if y == frozenset(['1']) else y if x == frozenset(['1']) else frozenset() if not x or not y else self.bad('&') for x, y in zip(a, b)]
        if op == '|':
            return [x ^ y if not x or not y else self.bad('|') for x, y in zip(a, b)]
        if op in ('<<', '>>'):
            k = self.cst(b)
            return ([frozenset()] * k + a)[:64] if op == '<<' else a[k:] + [frozenset()] * k
        if op in ('*', '/', '%'):
            k = self.cst(b)
            if k <= 0 or k & (k - 1):
                self.bad(op)
            s = k.bit_length() - 1
            return ([frozenset()] * s + a)[:64] if op == '*' else a[s:] + [frozenset()] * s if op == '/' else self.trunc(a, s)
        self.bad(op)

    def bad(self, w):
        raise Unknown(w)

    def cst(self, v):
        k = 0
        for i, x in enumerate(v):
            if x == frozenset(['1']):
                k |= 1 << i
            elif x:
                self.bad('variable')
        return k

    def ev(self, i):
        n = self.f.nodes[i]
        k = n['k']
        if 'v' in n and k != 'ref':
            v = n['v']
            if not isinstance(v, int):
                self.bad(k)
            return self.const(v & ((1 << 64) - 1))
        if k in ('cast', 'paren'):
            v = self.ev(n['c'][0])
            w = n.get('w')
            src = self.f.nodes[n['c'][0]]
            if w and n.get('ck') == 'IntegralCast' and w < 64:
                if not src.get('u') and src.get('w', 64) < w and any(v[src['w'] - 1:]):
                    self.bad('sign')
                v = self.trunc(v, w)
            return v
        if k == 'ref':
            if 'd' in n and n['d'] in self.loc:
                return self.loc[n['d']]
            if isinstance(n.get('v'), int):
                return self.const(n['v'])
            self.bad('ref')
        if k == 'bin':
            r = self.op(n['op'], self.ev(n['c'][0]), self.ev(n['c'][1]), n['c'][1])
            return self.trunc(r, n.get('w') or 64)
        if k == 'idx':
            b = self.f.nodes[n['c'][0]]
            while b['k'] == 'cast':
                b = self.f.nodes[b['c'][0]]
            t = self.m.vars.get(b.get('q') or '', {}).get('v')
            if not isinstance(t, list):
                self.bad('table')
            ix = self.ev(n['c'][1])
            nb = (len(t) - 1).bit_length()
            if any(ix[nb:]) or len(t) != 1 << nb:
                self.bad('index')
            for x in range(len(t)):
                y = t[0]
                for j in range(nb):
                    if x >> j & 1:
                        y ^= t[1 << j] ^ t[0]
                if y != t[x]:
                    raise Nonlinear(b.get('q'), x)
            self.tables = getattr(self, 'tables', 0) + 1
            r = self.const(t[0])
            for j in range(nb):
                for o in range(64):
                    if (t[1 << j] ^ t[0]) >> o & 1:
                        r[o] = r[o] ^ ix[j]
            return r
        self.bad(k)


class Nonlinear(Exception):
    pass


def spec(bits, poly, byte_i, crc_i):
    """One byte through an MSB-first CRC register, per bit as a set of input bits."""
    reg = [frozenset([(crc_i, b)]) for b in range(bits)]
    for j in range(7, -1, -1):
        fb = reg[-1] ^ frozenset([(byte_i, j)])
        reg = [frozenset()] + reg[:-1]
        reg = [x ^ fb if poly >> b & 1 else x for b, x in enumerate(reg)]
    return reg


def run_step(ctx, cls):
    m = model('std', UNITS)
    poly, init = params(m, cls)
    bits = CRC[cls]
    fs = [f for f in m.fns.values() if f.cls == cls and len(f.params) == 2 and all(p.get('w') in (8, 16) and p.get('u') for p in f.params) and
          f.d.get('rt') in ('unsigned char', 'unsigned short')]
    ctx.need(fs, 'the CRC step of ' + cls)
    for f in fs:
        ws = [p['w'] for p in f.params]
        cand = [(0, 1), (1, 0)] if bits == 8 else [(ws.index(8), ws.index(16))]
        try:
            g = Gf2(m, f)
            r = g.run()
        except Unknown as e:
            ctx.notes.append('%s is not in the GF(2) fragment (%s); its step is not compared with the polynomial' % (f.name, e))
            continue
        except Nonlinear as e:
            ctx.finding('%s:%d' % (relf(m.vars[e.args[0]]['file']), m.vars[e.args[0]]['line']), f.name, 'crc-table',
                        'entry %d of %s does not fit the other entries of a CRC table' % (e.args[1], e.args[0]))
            continue
        ctx.count('obligations', bits)
        ctx.count('step_bits_compared', bits)
        if not any(r[:bits] == spec(bits, poly, b, c) for b, c in cand):
            d = [i for i in range(bits) if r[i] != spec(bits, poly, *cand[0])[i]]
            ctx.finding(fdef(f).split('(')[1].rstrip(')'), f.name, 'crc-step', 'a step differs from polynomial %#x in bits %s of the result' % (poly, d))


def python_crc(ctx):
    """The Python client computes the same CRCs."""
    p = os.path.join(REPO, 'python/libstored/protocol.py')
    with open(p) as f:
        t = ast.parse(f.read())
    m = model('std', UNITS)
    for cls, w in CRC.items():
        poly, init = params(m, cls)
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef) and c.name == cls.split('::')[1]:
                calls = [x for x in ast.walk(c) if isinstance(x, ast.Call) and getattr(x.func, 'attr', '') == 'mkCrcFun']
                ctx.need(calls, 'the CRC function of python ' + c.name)
                a = calls[0].args
                v = [x.value if isinstance(x, ast.Constant) else None for x in a]
                kw = {k.arg: getattr(k.value, 'value', None) for k in calls[0].keywords}
                names = ['poly', 'initCrc', 'rev', 'xorOut']
                got = dict(zip(names, v))
                got.update(kw)
                ctx.count('obligations', 4)
                exp = dict(poly=(1 << w) | poly, initCrc=init, rev=False, xorOut=0)
                for k, e in exp.items():
                    if k in got and got[k] is not None and got[k] != e:
                        ctx.finding('python/libstored/protocol.py:%d' % calls[0].lineno, c.name, 'crc-python', '%s is %r, the C++ layer uses %r' % (k, got[k], e))


def p05(ctx):
    ctx.rule('decode: the CRC, started at the initial value, is continued with every byte but the trailer, once and in order; the frame without its trailer is delivered '
             'once if and only if the CRC equals the trailer (most significant byte first)')
    ctx.rule('encode: every byte is summed once and in order, chunks continue the sum, the trailer is the sum, and the next frame starts anew')
    ctx.rule('one step of the CRC is, bit for bit over GF(2), that of the polynomial, and so is the Python client\'s')

    def job(c, j):
        j[0](c, *j[1:])
    pmap(ctx, job, [(run_crc, c) for c in CRC] + [(run_step, c) for c in CRC] + [(python_crc,)])
