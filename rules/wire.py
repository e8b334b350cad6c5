"""Framing: what the escaping, terminal and segmentation layers send is what their decoders restore."""
import ast
from common import *
from frames import None_fr

UNITS = ['protocol']
POS, OUT, FWD, MSG, CUR, NXT = [('ghost', x) for x in ('pos', 'out', 'fwd', 'msg', 'cur', 'nxt')]

# as documented
ESC, ESCMASK = 0x7f, 0x1f
T_ESC, T_START, T_END = 0x1b, 0x5f, 0x5c
S_CONT, S_END = ord('C'), ord('E')


def intervals(points):
    """[0, 255] as the given points and the intervals between them, none across 128."""
    cuts = sorted(set(points))
    out = []
    lo = 0
    for p in cuts + [256]:
        for a, b in ((lo, min(p, 128) - 1), (max(lo, 128), p - 1)):
            if a <= b:
                out.append((a, b))
        if p < 256:
            out.append((p, p))
        lo = p + 1
    return out


class WireEngine(Engine):
    def load(self, st, loc, t=None, w=None, u=None):
        if loc.base == self.rule.inbase:
            v = self.rule.byte(self, st, loc.off)
            if v is None:
                return self.fresh('byte', t, w, u)
            return v if u or not w or self.rule.hi(st, v) < 128 else v - 256
        return Engine.load(self, st, loc, t, w, u)

    def store(self, st, loc, val, t=None, w=None, u=None):
        if loc.base == self.rule.inbase:
            self.rule.put(self, st, loc.off, val)
            return
        Engine.store(self, st, loc, val, t, w, u)


class Wire(Rule):
    """The input is a stream of which one byte (and its successor) is known at a time, by class."""
    maxdepth = 8
    K = 64
    strong = False
    inbase = ('no', 'input')
    points = ()

    def __init__(self, m, cls, f):
        self.m, self.cls, self.f = m, cls, f
        self.classes = intervals(self.points)
        self.up = ids(m, PL, 'decode')
        self.down = ids(m, PL, 'encode')
        self.n = self.nev = 0
        self.where = None

    def roots(self, st):
        return [st.env[k] for k in (POS, OUT, FWD, MSG, CUR, NXT) if k in st.env]

    def hi(self, st, v):
        return st.cons.rng(v)[1]

    def is_down(self, ci):
        return ci.short == 'encode' and len(ci.args) == 3 and overroot(self.m, ci.fid, self.down) and (ci.virt and ci.target is None or ci.cls == PL)

    def is_up(self, ci):
        return ci.short == 'decode' and len(ci.args) == 2 and overroot(self.m, ci.fid, self.up) and (ci.virt and ci.target is None or ci.cls == PL)

    def err(self, E, st, msg, key):
        fr, node = self.where or (None_fr(self.f), None)
        E.report(fr, node, msg, st, key=key)

    # -- the stream
    def cls_of(self, st):
        return st.g.get('c')

    def isclass(self, st, b):
        return st.g.get('c') == (b, b)

    def fill(self, E, st):
        """Chooses the next byte, if there is one."""
        if st.g.get('c') is not None:
            return [st]
        out = []
        end = st.copy()
        end.cons.add_le(self.len - end.env[POS])
        end.g['c'] = 'end'
        end.env[CUR] = Z
        if not end.cons.bot and not end.cons.proves(ONE):
            out.append(end)
        st.cons.add_le(st.env[POS] + 1 - self.len)
        if st.cons.bot or st.cons.proves(ONE):
            return out
        for c in self.classes:
            s = st.copy()
            s.g['c'] = c
            s.env[CUR] = L(c[0]) if c[0] == c[1] else self.anybyte(E, c)
            out.extend(self.fill_next(E, s))
        return out

    def anybyte(self, E, c):
        return E.fresh('byte%x' % c[0], None, None, None, c[0], c[1])

    def fill_next(self, E, s):
        return [s]

    def drop(self, st):
        for k in ('c', 'ld', 'n'):
            st.g.pop(k, None)
        st.env[CUR] = st.env[NXT] = Z
        st.g.pop('k', None)

    def at_head(self, E, st, fr, b, body):
        self.where = None
        self.consume(E, st)
        if not st.g.get('ld') and 'c' in st.g:
            # chosen again past the head
            self.drop(st)
        return [st]

    def past_head(self, E, st, fr, b):
        return self.fill(E, st)

    def byte(self, E, st, off):
        if st.g.get('c') not in (None, 'end') and st.cons.proves_eq(off - st.env[POS]):
            st.g['ld'] = 1
            return st.env[CUR]
        if st.g.get('n') not in (None, 'end') and st.cons.proves_eq(off - st.env[POS] - 1):
            return st.env[NXT]
        return None

    def put(self, E, st, off, val):
        pass

    def on_store(self, E, st, fr, node, loc, val):
        if loc.base == self.inbase:
            self.where = (fr, node)

    def same(self, E, st, v, spec):
        a = E.fit(st, E.lin(st, v), 'unsigned char', 8, True)
        return st.cons.proves_eq(a - E.fit(st, spec, 'unsigned char', 8, True))

    def pre_call(self, E, st, fr, node, ci):
        self.where = (fr, node)
        if self.is_up(ci) or self.is_down(ci):
            self.nev += 1
            self.n += 1
            p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
            self.event(E, st, p, n, E.decide(st, E.truth(st, ci.args[2])) if len(ci.args) > 2 else None)
            return [(st, Z)]
        return None

    def mem(self, E, st, p):
        return E.fit(st, E.lin(st, E.load(st, p, 'unsigned char', 8, True)), 'unsigned char', 8, True)

    def finish(self, E, st):
        self.where = None
        self.consume(E, st)
        self.n += 1


class EscEncode(Wire):
    """AsciiEscapeLayer::encode: raw bytes need no escape, the others go as a pair that the decoder reverts."""
    points = (0, 0x0d, 0x11, 0x13, 0x1b, 0x20, 0x7f)

    def special(self, st):
        c = st.g.get('c')
        if c in (None, 'end'):
            return False
        return c == (ESC, ESC) or c[0] < 0x20 and (self.all or c in ((0, 0), (0xd, 0xd), (0x11, 0x11), (0x13, 0x13), (0x1b, 0x1b)))

    def consume(self, E, st):
        if not st.g.get('ld'):
            return
        if self.special(st) and not st.g.get('k'):
            self.err(E, st, 'the byte %s is not sent as an escape sequence' % self.show(st), 'not-escaped')
        if not st.g.get('k'):
            st.env[POS] = st.env[POS] + 1
        self.drop(st)

    def show(self, st):
        c = st.g.get('c')
        return '%#04x' % c[0] if c[0] == c[1] else '%#04x..%#04x' % c

    def event(self, E, st, p, n, last):
        if p.base == self.inbase:
            if st.cons.proves_eq(n):
                return
            if not st.cons.proves_eq(p.off - st.env[FWD]):
                self.err(E, st, 'sends from offset %r, %r is next' % (p.off, st.env[FWD]), 'order')
            end = st.env[POS]
            if st.g.get('ld') and not self.special(st) and not st.g.get('k'):
                end = end + 1
            if not st.cons.proves_le(p.off + n - end):
                self.err(E, st, 'sends up to offset %r raw, although only the bytes up to %r are known to need no escape' % (p.off + n, end), 'raw')
            st.env[FWD] = p.off + n
            return
        if not st.cons.proves_eq(n - 2):
            self.err(E, st, 'an escape sequence of %r bytes' % n, 'pair')
            return
        a, b = self.mem(E, st, p), self.mem(E, st, Ptr(p.base, p.off + 1))
        if st.g.get('c') in (None, 'end') or not st.g.get('ld') or st.g.get('k') or not st.cons.proves_eq(st.env[FWD] - st.env[POS]):
            self.err(E, st, 'an escape sequence is sent before the bytes in front of it', 'order')
            return
        c = st.g['c']
        if not st.cons.proves_eq(a - ESC):
            self.err(E, st, 'the escape sequence starts with %r' % a, 'pair')
        bl, bh = st.cons.rng(b)
        if not (bl >= 0x20 and bh <= 0xff):
            self.err(E, st, 'the escape sequence for %s has another control character' % self.show(st), 'control')
        if c == (ESC, ESC):
            ok = st.cons.proves_eq(b - ESC)
        else:
            m = E.modulo(b, ESCMASK + 1)
            ok = (bh < ESC or bl > ESC) and st.cons.proves_eq(m - st.env[CUR])
        if not ok:
            self.err(E, st, 'the escape sequence for %s decodes to something else' % self.show(st), 'pair')
        st.env[POS] = st.env[FWD] = st.env[POS] + 1
        st.g['k'] = 1

    def finish(self, E, st):
        Wire.finish(self, E, st)
        if not st.cons.proves_eq(st.env[FWD] - self.len):
            self.err(E, st, 'only %r of %r bytes are sent' % (st.env[FWD], self.len), 'all')


class EscDecode(Wire):
    """AsciiEscapeLayer::decode, in place."""
    points = (0x0d, ESC)

    def __init__(self, m, cls, f):
        Wire.__init__(self, m, cls, f)
        # 0x40..0x5f and DEL follow an ESC in what an encoder sends
        self.nclasses = [(0, 0x3f), (0x40, 0x5f), (0x60, 0x7e), (ESC, ESC), (0x80, 0xff)]

    def fill_next(self, E, s):
        if s.g['c'] != (ESC, ESC):
            return [s]
        out = []
        e = s.copy()
        e.cons.add_le(self.len - e.env[POS] - 1)
        e.g['n'] = 'end'
        if not e.cons.bot and not e.cons.proves(ONE):
            out.append(e)
        s.cons.add_le(s.env[POS] + 2 - self.len)
        if s.cons.bot or s.cons.proves(ONE):
            return out
        for c in self.nclasses:
            x = s.copy()
            x.g['n'] = c
            x.env[NXT] = L(c[0]) if c[0] == c[1] else self.anybyte(E, (0, c[1] - c[0])) + c[0]
            out.append(x)
        return out

    def consume(self, E, st):
        c = st.g.get('c')
        if not st.g.get('ld') or c in (None, 'end') or c == (ESC, ESC):
            return
        if c == (0xd, 0xd):
            # to be dropped, unless it is the last byte
            st.env[POS] = st.env[POS] + 1
            self.drop(st)
        elif st.cons.proves_eq(st.env[OUT] - st.env[POS]):
            st.env[POS] = st.env[POS] + 1
            st.env[OUT] = st.env[OUT] + 1
            self.drop(st)

    def put(self, E, st, off, val):
        self.n += 1
        c = st.g.get('c')
        if c in (None, 'end'):
            self.err(E, st, 'a byte is written where none is due', 'extra')
            return
        if not st.cons.proves_eq(off - st.env[OUT]):
            self.err(E, st, 'a decoded byte is written at offset %r instead of %r' % (off, st.env[OUT]), 'place')
        adv = 1
        if c == (ESC, ESC):
            n = st.g.get('n')
            if n != 'end':
                spec = L(ESC) if n == (ESC, ESC) else st.env[NXT] - 0x40
                if n in ((ESC, ESC), (0x40, 0x5f)) and not self.same(E, st, val, spec):
                    self.err(E, st, 'an escape sequence is decoded to %r instead of %r' % (val, spec), 'unescape')
                adv = 2
        elif not self.same(E, st, val, st.env[CUR]):
            self.err(E, st, 'a byte changes while it is moved', 'copy')
        elif c == (0xd, 0xd) and st.cons.proves_le(st.env[POS] + 2 - self.len):
            self.err(E, st, 'a carriage return is not dropped', 'cr')
        st.env[POS] = st.env[POS] + adv
        st.env[OUT] = st.env[OUT] + 1
        self.drop(st)

    def event(self, E, st, p, n, last):
        self.n += 1
        if st.g.get('up'):
            self.err(E, st, 'a frame is delivered twice', 'twice')
        st.g['up'] = 1
        if p.base != self.inbase or not st.cons.proves_eq(p.off):
            self.err(E, st, 'something else than the decoded frame is delivered', 'slice')
        self.consume(E, st)
        c = st.g.get('c')
        out, pos = st.env[OUT], st.env[POS]
        if c not in (None, 'end'):
            if not st.cons.proves_le(self.len - pos - 1):
                self.err(E, st, 'the frame is delivered before it is decoded up to its end', 'early')
                return
            if c == (ESC, ESC) or c == (0xd, 0xd):
                return      # not from an encoder
            if not st.cons.proves_eq(out - pos):
                self.err(E, st, 'the last byte is not moved', 'last')
                return
            out, pos = out + 1, pos + 1
        if not st.cons.proves_eq(pos - self.len):
            # beyond a malformed end
            if not st.cons.proves_le(self.len - pos):
                self.err(E, st, 'the frame is delivered before it is decoded up to its end', 'early')
                return
        if not st.cons.proves_eq(n - out):
            self.err(E, st, '%r bytes are delivered, %r are decoded' % (n, out), 'count')

    def finish(self, E, st):
        self.where = None
        if not st.g.get('up'):
            self.err(E, st, 'the decoded frame is not delivered', 'none')


N, NE, D, DE = 'N', 'NE', 'D', 'DE'


class TermDecode(Wire):
    points = (T_ESC, T_START, T_END)

    def __init__(self, m, cls, f, buf):
        Wire.__init__(self, m, cls, f)
        self.buf = buf

    def want(self, st):
        """The bytes of the message that the current byte completes."""
        S, c = st.g['S'], st.g.get('c')
        if c in (None, 'end'):
            return []
        if S == D:
            return [] if c == (T_ESC, T_ESC) else [st.env[CUR]]
        if S == DE:
            if c == (T_END, T_END):
                return []
            if c == (T_ESC, T_ESC):
                return [L(T_ESC)]
            return [L(T_ESC), st.env[CUR]]
        return []

    def consume(self, E, st):
        if not st.g.get('ld'):
            return
        S, c = st.g['S'], st.g['c']
        pos = st.env[POS]
        if S in (D, DE) and len(self.want(st)) != st.g.get('p', 0):
            self.err(E, st, 'a byte within a message is not kept', 'lost')
        if S == N:
            S = NE if c == (T_ESC, T_ESC) else N
        elif S == NE:
            if c == (T_START, T_START):
                S = D
                if not st.cons.proves_le(pos - 1 - st.env[FWD]):
                    self.err(E, st, 'the bytes before a message are not forwarded', 'nondebug')
                st.env[FWD] = Z
                st.env[MSG] = Z
            else:
                S = NE if c == (T_ESC, T_ESC) else N
        elif S == D:
            S = DE if c == (T_ESC, T_ESC) else D
        elif c == (T_END, T_END):
            if not st.g.get('up'):
                self.err(E, st, 'a complete message is not delivered', 'undelivered')
            S = N
            st.env[FWD] = pos + 1
            st.env[MSG] = Z
        else:
            S = DE if c == (T_ESC, T_ESC) else D
        st.g['S'] = S
        st.env[POS] = pos + 1
        st.g.pop('p', None)
        st.g.pop('up', None)
        self.drop(st)

    def pre_call(self, E, st, fr, node, ci):
        self.where = (fr, node)
        if ci.obj is not None and ci.obj.__class__ is Ptr and ci.obj.base == self.buf and ci.short in ('push_back', 'emplace_back'):
            self.n += 1
            v = ci.args[0]
            cn = fr.fn.nodes.get(node['c'][-1], {})
            if v.__class__ is Ptr:
                v = E.load(st, v, 'char', 8, False)
            w = self.want(st)
            k = st.g.get('p', 0)
            if not st.g.get('ld') or st.g['S'] not in (D, DE) or k >= len(w):
                self.err(E, st, 'a byte that is not part of a message is kept', 'kept')
            else:
                if not self.same(E, st, v, w[k]):
                    self.err(E, st, 'a byte of a message is kept as %r instead of %r' % (v, w[k]), 'changed')
            st.g['p'] = k + 1
            st.env[MSG] = st.env[MSG] + 1
            return None
        if ci.short == 'nonDebugDecode' and len(ci.args) == 2 and ci.cls == self.cls:
            self.nev += 1
            self.nondebug(E, st, E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1]))
            return [(st, Z)]
        return Wire.pre_call(self, E, st, fr, node, ci)

    def nondebug(self, E, st, p, n):
        self.n += 1
        if st.cons.proves_eq(n):
            return
        S, c = st.g['S'], st.g.get('c')
        pos = st.env[POS]
        if p.base != self.inbase or not st.cons.proves_eq(p.off - st.env[FWD]):
            self.err(E, st, 'forwards from offset %r, %r is next' % (p.off, st.env[FWD]), 'nd-order')
        if S in (D, DE) and not (c == (T_END, T_END) and S == DE):
            self.err(E, st, 'forwards bytes of a message', 'nd-msg')
            return
        lim = pos
        if S == NE and c == (T_START, T_START):
            lim = pos - 1
        elif st.g.get('ld') and c not in (None, 'end'):
            lim = pos + 1
        if not st.cons.proves_le(p.off + n - lim):
            self.err(E, st, 'forwards up to offset %r, although a message starts at %r or later bytes were not looked at' % (p.off + n, lim), 'nd-range')
        st.env[FWD] = p.off + n

    def event(self, E, st, p, n, last):
        if st.g['S'] != DE or not st.g.get('ld') or not self.isclass(st, T_END):
            self.err(E, st, 'a message is delivered before its end', 'early')
        elif st.g.get('up'):
            self.err(E, st, 'a message is delivered twice', 'twice')
        st.g['up'] = 1
        b = p.base
        if not (b.__class__ is tuple and b[0] == 'buf' and b[1] == self.buf) or not st.cons.proves_eq(p.off):
            self.err(E, st, 'something else than the message is delivered', 'slice')
        if not st.cons.proves_eq(n - st.env[MSG]):
            self.err(E, st, '%r bytes of a message of %r bytes are delivered' % (n, st.env[MSG]), 'count')

    def finish(self, E, st):
        Wire.finish(self, E, st)
        if not st.cons.proves_le(self.len - st.env[POS]):
            self.err(E, st, 'the bytes from offset %r are ignored' % st.env[POS], 'rest')
        if st.g['S'] in (N, NE):
            f = st.env[FWD] - self.len
            if not st.cons.proves_eq(f):
                self.err(E, st, 'the bytes after a message are not forwarded', 'nd-rest')
        z = E.size(st, self.buf)
        if not st.cons.proves_eq(z - st.env[MSG]):
            self.err(E, st, '%r bytes are kept for the next call, %r are of an incomplete message' % (z, st.env[MSG]), 'keep')


class TermEncode(Wire):
    def consume(self, E, st):
        pass

    def fill(self, E, st):
        return [st]

    def event(self, E, st, p, n, last):
        if p.base == self.inbase:
            st.g['ev'] = st.g.get('ev', ()) + ('data',)
            if not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n - self.len):
                self.err(E, st, 'part of the message is sent', 'slice')
            return
        if not st.cons.proves_eq(n - 2):
            self.err(E, st, 'a sequence of %r bytes is sent' % n, 'seq')
            return
        a, b = self.mem(E, st, p), self.mem(E, st, Ptr(p.base, p.off + 1))
        k = 'start' if st.cons.proves_eq(b - T_START) else 'end' if st.cons.proves_eq(b - T_END) else 'other'
        if not st.cons.proves_eq(a - T_ESC) or k == 'other':
            self.err(E, st, 'the sequence %r %r starts nor ends a message' % (a, b), 'seq')
        st.g['ev'] = st.g.get('ev', ()) + (k,)


class SegEncode(Wire):
    def consume(self, E, st):
        pass

    def fill(self, E, st):
        return [st]

    def event(self, E, st, p, n, last):
        if last is None:
            self.err(E, st, 'whether this ends a segment is not determined', 'last')
            return
        if st.g.get('end'):
            self.err(E, st, 'something is sent after the end marker', 'after')
        if last:
            if p.base == self.inbase or not st.cons.proves_eq(n - 1):
                self.err(E, st, 'a segment ends without a marker', 'marker')
                return
            v = self.mem(E, st, p)
            if st.cons.proves_eq(v - S_END):
                st.g['end'] = 1
            elif not st.cons.proves_eq(v - S_CONT):
                self.err(E, st, 'a segment ends with %r' % v, 'marker')
        elif p.base != self.inbase:
            self.err(E, st, 'a segment has bytes that are not of the message', 'inject')


class SegDecode(Wire):
    """The segments are concatenated; the marker is the last byte."""

    def __init__(self, m, cls, f, buf):
        Wire.__init__(self, m, cls, f)
        self.buf = buf

    def consume(self, E, st):
        pass

    def fill(self, E, st):
        return [st]

    def byte(self, E, st, off):
        if st.cons.proves_eq(off + 1 - self.len):
            return st.env[CUR]
        return None

    def pre_call(self, E, st, fr, node, ci):
        a = ci.args
        self.where = (fr, node)
        if ci.short in ('memcpy', 'memmove') and len(a) == 3:
            d, s, n = E.as_ptr(st, a[0], None), E.as_ptr(st, a[1], None), E.lin(st, a[2])
            if d.base == ('buf', self.buf):
                self.append(E, st, d.off, s, n)
        elif ci.obj is not None and ci.obj.__class__ is Ptr and ci.obj.base == self.buf and ci.short in ('insert', 'append', 'assign'):
            ptrs = [x for x in a if x.__class__ is Ptr and x.base == self.inbase]
            if len(ptrs) == 2:
                self.append(E, st, E.size(st, self.buf) if ci.short != 'assign' else Z, ptrs[0], ptrs[1].off - ptrs[0].off)
            elif len(ptrs) == 1 and ci.short != 'insert':
                self.append(E, st, E.size(st, self.buf) if ci.short != 'assign' else Z, ptrs[0], E.lin(st, a[-1]))
        return Wire.pre_call(self, E, st, fr, node, ci)

    def append(self, E, st, at, s, n):
        self.n += 1
        if not st.cons.proves_eq(at - st.env[MSG]):
            self.err(E, st, 'a segment is added at %r, after %r bytes' % (at, st.env[MSG]), 'place')
        if s.base != self.inbase or not st.cons.proves_eq(s.off) or not st.cons.proves_eq(n + 1 - self.len):
            self.err(E, st, 'of a segment of %r bytes, %r are added' % (self.len, n), 'part')
        if st.g.get('app'):
            self.err(E, st, 'a segment is added twice', 'dup')
        st.g['app'] = 1

    def event(self, E, st, p, n, last):
        if st.g.get('up'):
            self.err(E, st, 'a message is delivered twice', 'twice')
        st.g['up'] = 1
        if not st.g.get('E'):
            self.err(E, st, 'a message is delivered before its last segment', 'early')
        if p.base == self.inbase:
            if not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n + 1 - self.len) or not st.cons.proves_eq(st.env[MSG]):
                self.err(E, st, 'part of a message is delivered', 'slice')
        elif p.base != ('buf', self.buf) or not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n - st.env[MSG] - self.len + 1) or \
                not (st.g.get('app') or st.cons.proves_eq(self.len - 1)):
            self.err(E, st, 'something else than the segments up to now is delivered', 'slice')

    def finish(self, E, st):
        self.where = None
        self.n += 1
        z = E.size(st, self.buf)
        if st.g.get('E'):
            if not st.g.get('up'):
                self.err(E, st, 'a message is not delivered after its last segment', 'none')
            if not st.cons.proves_eq(z):
                self.err(E, st, 'segments are kept after the message is delivered', 'clear')
        else:
            if not st.cons.proves_eq(z - st.env[MSG] - self.len + 1) or not (st.g.get('app') or st.cons.proves_eq(self.len - 1)):
                self.err(E, st, 'a segment is not kept until its message is complete', 'keep')


# ---------------------------------------------------------------------------

def go(ctx, r, st, this, args, f, what):
    m = r.m
    E = WireEngine(m, r)
    r.inbase = args[0].base
    bind_buffer(E, st, f, args)
    r.len = E.lin(st, args[1])
    for k in (POS, OUT, FWD, MSG, CUR, NXT):
        st.env.setdefault(k, Z)
    sts = r.fill(E, st)
    outs = []
    for s in sts:
        outs.extend(E.exec_fn(f, s, None, ('root',), list(args), this, this))
    ctx.need(outs and r.nev, 'what %s passes on' % f.name)
    for s, v in outs:
        ctx.count('exit_states')
        r.finish(E, s)
    ctx.count('obligations', r.n)
    ctx.count('forwarding_calls', r.nev)
    ctx.count('states', E.stats['states'])
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], what, x['msg'], x['via'], x['trace'])
    return outs


def setup(r, f):
    reset_atoms()
    E = Engine(r.m, r)
    st, this, args = start(E, f)
    return E, st, this, args


def the(ctx, m, cls, short, n):
    fs = own_methods(m, cls, short, n)
    ctx.need(fs, '%s::%s' % (cls, short))
    return fs[0]


def field(m, cls, pred, what):
    fs = [x for c, x in m.fields(cls) if c == cls and pred(unq(x['t']), x)]
    if len(fs) != 1:
        raise Broken('anchor vanished: %s of %s' % (what, cls))
    return fs[0]['n']


def esc_encode(ctx, al):
    m = model('std', UNITS)
    cls = 'stored::AsciiEscapeLayer'
    f = the(ctx, m, cls, 'encode', 3)
    r = EscEncode(m, cls, f)
    r.all = al
    E, st, this, args = setup(r, f)
    fl = field(m, cls, lambda t, x: t == 'bool', 'the flag to escape all')
    st.env[('fld', this, fl)] = L(int(al))
    go(ctx, r, st, this, args, f, 'escape')


def esc_decode(ctx):
    m = model('std', UNITS)
    cls = 'stored::AsciiEscapeLayer'
    f = the(ctx, m, cls, 'decode', 2)
    r = EscDecode(m, cls, f)
    E, st, this, args = setup(r, f)
    go(ctx, r, st, this, args, f, 'unescape')


def buffer_of(m, cls, this):
    n = field(m, cls, lambda t, x: kind(t) in ('vector', 'basic_string', 'deque'), 'the buffer')
    return ('fld', this, n)


def states(m, cls):
    for e in m.enums.values():
        v = {k.lower().replace('state', ''): x for k, x in e['v'].items()}
        if set(v) >= {'normal', 'normalesc', 'debug', 'debugesc'} and e.get('cls') == cls:
            return {N: v['normal'], NE: v['normalesc'], D: v['debug'], DE: v['debugesc']}, set(e['v'])
    raise Broken('anchor vanished: the states of ' + cls)


def term_decode(ctx, S):
    m = model('std', UNITS)
    cls = 'stored::TerminalLayer'
    f = the(ctx, m, cls, 'decode', 2)
    this = ('this', cls)
    r = TermDecode(m, cls, f, buffer_of(m, cls, this))
    E, st, this, args = setup(r, f)
    code = states(m, cls)[0]
    sf = field(m, cls, lambda t, x: 'State' in t, 'the state of the decoder')
    sk = ('fld', this, sf)
    st.env[sk] = L(code[S])
    st.g['S'] = S
    z = E.size(st, r.buf)
    st.cons.add_le(z - L(1 << 40))
    if S in (N, NE):
        st.env[('fld', r.buf, '#size')] = Z
    else:
        st.env[MSG] = z
    outs = go(ctx, r, st, this, args, f, 'terminal')
    for s, v in outs:
        x = s.env.get(sk)
        if x is None or not s.cons.proves_eq(x - L(code[s.g['S']])):
            ctx.finding(fdef(f).split('(')[1].rstrip(')'), f.name, 'terminal', 'what follows is decoded in another state than the bytes up to now lead to')


def term_encode(ctx, began, last):
    m = model('std', UNITS)
    cls = 'stored::TerminalLayer'
    f = the(ctx, m, cls, 'encode', 3)
    r = TermEncode(m, cls, f)
    E, st, this, args = setup(r, f)
    k = ('fld', this, field(m, cls, lambda t, x: t == 'bool', 'the flag that a message is started'))
    st.env[k] = L(began)
    st.cons.add_eq(E.lin(st, args[2]) - L(last))
    want = (() if began else ('start',)) + ('data',) + (('end',) if last else ())
    for s, v in go(ctx, r, st, this, args, f, 'terminal'):
        got = s.g.get('ev', ())
        empty = tuple(x for x in want if x != 'data')
        if got != want and not (got == empty and s.cons.proves_eq(r.len)):
            ctx.finding(fdef(f).split('(')[1].rstrip(')'), f.name, 'terminal', 'a message goes out as %s instead of %s' % (' '.join(got), ' '.join(want)))
        if not s.cons.proves_eq(E.lin(s, s.env.get(k, L(began))) - L(1 - last)):
            ctx.finding(fdef(f).split('(')[1].rstrip(')'), f.name, 'terminal', 'whether a message is started is not kept for the next chunk')


def seg_encode(ctx, last):
    m = model('std', UNITS)
    cls = 'stored::SegmentationLayer'
    f = the(ctx, m, cls, 'encode', 3)
    r = SegEncode(m, cls, f)
    E, st, this, args = setup(r, f)
    st.cons.add_eq(E.lin(st, args[2]) - L(last))
    for s, v in go(ctx, r, st, this, args, f, 'segments'):
        if bool(s.g.get('end')) != bool(last):
            ctx.finding(fdef(f).split('(')[1].rstrip(')'), f.name, 'segments', 'the end marker is sent before the message ends' if not last else 'no end marker is sent at the end of the message')


def seg_decode(ctx, kept, end):
    m = model('std', UNITS)
    cls = 'stored::SegmentationLayer'
    f = the(ctx, m, cls, 'decode', 2)
    this = ('this', cls)
    r = SegDecode(m, cls, f, buffer_of(m, cls, this))
    E, st, this, args = setup(r, f)
    z = E.size(st, r.buf)
    st.cons.add_le(z - L(1 << 40))
    if kept:
        st.cons.add_le(ONE - z)
        st.env[MSG] = z
    else:
        st.env[('fld', r.buf, '#size')] = Z
    st.cons.add_le(ONE - E.lin(st, args[1]))
    st.env[CUR] = L(S_END if end else S_CONT)
    st.g['E'] = end
    r.nev = 1
    go(ctx, r, st, this, args, f, 'segments')


def python_consts(ctx):
    """The constants of the Python client."""
    p = os.path.join(REPO, 'python/libstored/protocol.py')
    with open(p) as f:
        t = ast.parse(f.read())
    want = {'TerminalLayer': dict(start=bytes([T_ESC, T_START]), end=bytes([T_ESC, T_END])), 'SegmentationLayer': dict(cont=bytes([S_CONT]), end=bytes([S_END]))}
    for c in ast.walk(t):
        if isinstance(c, ast.ClassDef) and c.name in want:
            for a in c.body:
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id in want[c.name]:
                    ctx.count('obligations')
                    w = want[c.name][a.targets[0].id]
                    try:
                        v = ast.literal_eval(a.value)
                    except ValueError:
                        continue
                    if v != w:
                        ctx.finding('python/libstored/protocol.py:%d' % a.lineno, c.name, 'python', '%s is %r, the C++ layer uses %r' % (a.targets[0].id, v, w))


def p22(ctx):
    ctx.rule('escaping: a byte goes out raw only if it needs no escape, and any other as DEL and a character that the decoder maps to it; the decoder, in place, '
             'maps every pair back, drops carriage returns and moves the rest unchanged, and delivers the result once')
    ctx.rule('terminal: a message goes out between ESC _ and ESC \\; the decoder is in step with an automaton of these sequences, for any chunking of the input: it keeps '
             'every byte of a message, delivers it once, and forwards all other bytes')
    ctx.rule('segmentation: every segment ends with its marker, E exactly at the end of the message; the decoder concatenates the segments and delivers them once')

    def job(c, j):
        j[0](c, *j[1:])
    pmap(ctx, job, [(esc_encode, True), (esc_encode, False), (esc_decode,)] + [(term_decode, s) for s in (N, NE, D, DE)] +
         [(term_encode, b, l) for b in (0, 1) for l in (0, 1)] + [(seg_encode, l) for l in (0, 1)] +
         [(seg_decode, k, e) for k in (0, 1) for e in (0, 1)] + [(python_consts,)])
