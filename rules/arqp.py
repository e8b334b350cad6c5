"""The ARQ layer: what it delivers, acknowledges, numbers, and transmits."""
from common import *
from frames import None_fr

CLS = 'stored::ArqLayer'
NOP, ACK, MASK, N = 0x40, 0x80, 0x3f, 0x40
GH, GO, GR, GS = ('ghost', 'hdr'), ('ghost', 'off'), ('ghost', 'rcv'), ('ghost', 'seq')
GF, GX = ('ghost', 'f0'), ('ghost', 'front')
THIS = ('this', CLS)


class Arq(Rule):
    maxdepth = 10
    K = 240
    unroll = 1

    def __init__(self, m, send, recv, queue, busy):
        self.m = m
        self.send, self.recv, self.queue, self.busy = (('fld', THIS, x) for x in (send, recv, queue, busy))
        self.spare = {('fld', THIS, f['n']) for f in m.records[CLS]['fields'] if kind(f['t']) == 'deque' and f['n'] != queue}
        self.ranges = {send: (0, MASK), recv: (0, MASK), busy: (0, 1)}
        self.enc = ids(m, PL, 'encode')
        self.dec = ids(m, PL, 'decode')
        self.inbuf = None
        self.places = set()
        self.n = 0
        self.root = None
        self.up = 0

    def templates(self, E, env):
        for k in (self.send, self.recv):
            v = env.get(k)
            if v.__class__ is Lin:
                yield v - L(MASK)
                yield -v
        d = [v for k, v in env.items() if k[0] == 'ghost' and k[1].__class__ is str and k[1].startswith('due') and v.__class__ is Lin]
        if d:
            for k, v in list(env.items()):
                if k[0] == 'loc' and v.__class__ is Lin and len(v.t) <= 2:
                    for x in d:
                        yield v - x
                        yield x - v
        if self.inbuf:
            ps, ls = self.cursors(env)
            for p in ps:
                for l in ls:
                    if l.const:
                        continue
                    yield p + l - self.total
                    yield self.total - p - l

    # ------------------------------------------------------------ values
    def fld(self, E, st, key, t='unsigned char', w=8):
        return E.load(st, Ptr(key, Z), t, w, True)

    def raw(self, v):
        """Without conversions to a byte."""
        while v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            k = ATOMS[v.t[0][0]].key
            if not k or k[0] != 'wrap':
                break
            v = k[3]
        return v

    def bits(self, E, st, v, mask):
        v = self.raw(v)
        if v.__class__ is Lin and v.const:
            return L(v.c & mask)
        v = E.fit(st, v, 'unsigned char', 8, True)
        if mask == MASK and v.__class__ is Lin:
            return E.modulo(v, N)
        return E.binop(st, '&', v, L(mask), 'int', 32, False)

    def front(self, E, st):
        v = E.load(st, Ptr(('buf', self.queue), Z), 'std::basic_string<char> *', None, None)
        return E.objbase(v) if v.__class__ is Ptr else None

    def is_succ(self, E, st, new, v, n=2):
        """Is new the successor of v: one more, or 1 after the last?"""
        m = E.modulo(v + 1, N)
        c = st.cons
        if c.proves_eq(new - v - 1) and c.proves_le(new - L(MASK)) or c.proves_eq(new - m) and c.proves_ne(m) or \
                c.proves_eq(new - 1) and (c.proves_eq(m) or c.proves_eq(v - L(MASK))):
            return True
        if n == 0:
            return False
        y, z = self.split(E, st.copy(), B('eq', m) if n == 2 else B('le', L(MASK) - v))
        return (bool(y) or bool(z)) and all(self.is_succ(E, s, new, v, n - 1) for s in y + z)

    def split(self, E, st, f):
        """States where f holds, and where it does not."""
        d = E.decide(st, f)
        if d is not None:
            return ([st], []) if d else ([], [st])
        a, b = E.assume(st.copy(), f, True), E.assume(st, f, False)
        return [s for s in a if not s.cons.bot], [s for s in b if not s.cons.bot]

    def ready(self, E, st):
        """Formula: the first message in the queue is complete."""
        z = E.size(st, self.queue)
        idle = B('eq', E.lin(st, self.fld(E, st, self.busy, 'int', 32)))
        return BAnd(B('le', L(1) - z), BOr(B('le', L(2) - z), idle))

    # ------------------------------------------------------------ headers
    def on_load(self, E, st, fr, node, loc, val):
        if loc.base == self.inbuf and (node.get('w') == 8):
            if st.env.get(GO) == loc.off and 'hdr' in st.g:
                return
            if 'hdr' in st.g:
                st.g['blind'] = 1
            x = fr
            while x is not None:
                self.places.add((x.id, x.b))
                x = x.parent
            st.env[GH] = val
            st.env[GO] = loc.off
            st.env[GR] = self.fld(E, st, self.recv)
            st.g['hdr'] = 1
            st.g.pop('pop', None)
        if loc.base[0] == 'buf' and loc.base[1] in self.spare and val.__class__ is Ptr:
            # the messages that are to be reused are empty
            E.set_size(st, E.objbase(val), Z)
        if loc.base[0] == 'buf' and loc.off == Z and val.__class__ is Lin and self.front(E, st) == loc.base[1]:
            st.env[GF] = val
            st.env[GX] = Ptr(loc.base[1], Z)

    def at_head(self, E, st, fr, b, body):
        if 'hdr' in st.g and any(i == fr.id and x in body for i, x in self.places):
            r = self.close(E, st, fr, None)
            for s in r:
                # keep apart what has dropped the rest of the frame
                ps, ls = self.cursors(s.env)
                s.g['all'] = any(s.cons.proves_eq(p + l - self.total) for p in ps for l in ls)
            return r
        return None

    def cursors(self, env):
        ps = [v.off for k, v in env.items() if k[0] in ('loc', 'fld') and v.__class__ is Ptr and v.base == self.inbuf]
        ls = [v for k, v in env.items() if k[0] in ('loc', 'fld') and v.__class__ is Lin]
        return ps, ls

    def close(self, E, st, fr, node, up=False):
        """All that had to be done for the last header is done now; returns the states."""
        if 'hdr' not in st.g:
            return [st]
        out = []
        h, rcv = st.env[GH], st.env[GR]
        for a, s in self.kinds(E, st, h, rcv):
            s.g.pop('hdr')
            popped = s.g.pop('pop', None)
            if s.g.get('blind'):
                out.append(s)
                continue
            self.n += 1
            seq = self.bits(E, s, h, MASK)
            now = self.fld(E, s, self.recv)
            if a == 'in':
                ss = [s]
                if not self.is_succ(E, s, now, rcv):
                    self.bad(E, s, fr, node, 'recv', 'after the message that was expected next, the number that is expected is not its successor')
            elif a == 'reset':
                ss = [s]
                if not s.cons.proves_eq(now - 1):
                    self.bad(E, s, fr, node, 'recv', 'after a reset message of the other side, the number that is expected is not 1')
            else:
                ss = [s]
                if not s.cons.proves_eq(now - rcv):
                    self.bad(E, s, fr, node, 'recv', 'the number that is expected changes upon a header that is not for the next message (%s)' % a)
            for s in ss:
                if a == 'ack':
                    if not popped:
                        fx = self.front(E, s)
                        f = self.ready(E, s)
                        if s.env.get(GX) == Ptr(fx, Z) and GF in s.env:
                            f = BAnd(f, B('eq', self.bits(E, s, s.env[GF], MASK) - seq))
                        if any(not x.cons.bot for x in E.assume(s.copy(), f, True)):
                            self.bad(E, s, fr, node, 'ack', 'the acknowledge of the message that was sent is ignored')
                    out.append(s)
                    continue
                if a in ('in', 'reset', 'dup'):
                    d = s.g.get('due', 0)
                    if d < 4:
                        s.env[('ghost', 'due%d' % d)] = seq + ACK
                        s.g['due'] = d + 1
                if a == 'in' and not up:
                    # may have had data
                    y, n = self.split(E, s, B('eq', self.bits(E, s, h, NOP)))
                    for s2 in y:
                        self.bad(E, s2, fr, node, 'lost', 'a message that is acknowledged is not passed up')
                    out += y + n
                elif up:
                    s.g['kind'] = a
                    out.append(s)
                else:
                    out.append(s)
        return out

    def kinds(self, E, st, h, rcv):
        out = []
        ack = self.bits(E, st, h, ACK)
        seq = self.bits(E, st, h, MASK)
        n, y = self.split(E, st, B('eq', ack))
        out += [('ack', s) for s in y]
        for s in n:
            y, n2 = self.split(E, s, B('eq', seq - rcv))
            out += [('in', x) for x in y]
            for s2 in n2:
                y, n3 = self.split(E, s2, B('eq', seq))
                out += [('reset', x) for x in y]
                for s3 in n3:
                    m1 = E.modulo(seq + 1, N)
                    f = BOr(BAnd(B('ne', m1), B('eq', m1 - rcv)), BAnd(B('eq', m1), B('eq', rcv - 1)))
                    d = E.decide(s3, f)
                    if d is not None:
                        out.append(('dup' if d else 'drop', s3))
                        continue
                    last, other = self.split(E, s3, B('eq', seq - L(MASK)))
                    for xs, e, f in ((last, m1, rcv - 1), (other, m1 - seq - 1, seq + 1 - rcv)):
                        for x in xs:
                            x.cons.add_eq(e)
                            y, n4 = self.split(E, x, B('eq', f))
                            out += [('dup', x) for x in y] + [('drop', x) for x in n4]
        return [(a, s) for a, s in out if not s.cons.bot]

    def bad(self, E, st, fr, node, key, msg):
        E.report(fr or None_fr(self.root), node, msg, st, key=key)

    # ------------------------------------------------------------ calls
    def pre_call(self, E, st, fr, node, ci):
        t = ci.obj.base if ci.obj.__class__ is Ptr else None
        if ci.short in ('decode', 'encode') and (ci.virt and ci.target is None or ci.cls == PL and t == THIS):
            if ci.short == 'decode' and len(ci.args) == 2 and overroot(self.m, ci.fid, self.dec):
                return self.upcall(E, st, fr, node, ci)
            if ci.short == 'encode' and len(ci.args) == 3 and overroot(self.m, ci.fid, self.enc):
                return self.downcall(E, st, fr, node, ci)
        if t == self.queue and ci.short in ('pop_front', 'pop_back', 'clear', 'erase', 'assign', 'resize', 'swap', 'operator='):
            self.popping(E, st, fr, node, ci)
        if t == self.queue and ci.short in ('push_front', 'emplace_front', 'insert', 'emplace'):
            self.n += 1
            if self.root.short != 'decode' or ci.short in ('insert', 'emplace'):
                self.bad(E, st, fr, node, 'order', 'a message is queued before others that were sent earlier')
            else:
                st.g['pf'] = 1
        if t in self.spare and ci.short in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and len(ci.args) == 1:
            self.n += 1
            v = ci.args[0]
            if node and fr.fn.nodes.get(node['c'][0], {}).get('lv') and v.__class__ is Ptr:
                v = E.load(st, v, 'std::basic_string<char> *', None, None)
            if v.__class__ is not Ptr or not st.cons.proves_eq(E.size(st, E.objbase(v))):
                self.bad(E, st, fr, node, 'spare', 'a message that is kept for reuse is not empty')
        if t is not None and ci.cls and kind(unq(ci.cls)) == 'basic_string':
            self.writing(E, st, fr, node, ci, t)
        if t == THIS and ci.short == 'event':
            # up to the application
            return [(st, Z)]
        return None

    def reenter(self, E, st, up):
        """The other layers may call back: more may be queued, and (from below) received."""
        for k in (self.send,) + (() if up else (self.recv,)):
            E.havoc(st, k)
        z = E.size(st, self.queue)
        E.havoc(st, ('buf', self.queue))
        n = E.fresh('queued', None, None, None, 0, 1 << 60)
        if up:
            st.cons.add_le(z - n)
        E.set_size(st, self.queue, n)
        E.havoc(st, self.busy)
        st.g.pop('pend', None)
        st.env.pop(GS, None)

    def upcall(self, E, st, fr, node, ci):
        self.n += 1
        self.up += 1
        out = []
        if self.root.short != 'decode':
            self.bad(E, st, fr, node, 'up', 'data is passed up that was not received')
            return [(st, Z)]
        if 'hdr' not in st.g and not st.g.get('blind'):
            self.bad(E, st, fr, node, 'up', 'data is passed up that does not follow a header' if 'up' not in st.g else 'data is passed up twice')
        for s in self.close(E, st, fr, node, True):
            k = s.g.pop('kind', None)
            off = s.env.get(GO)
            if s.g.get('up'):
                self.bad(E, s, fr, node, 'up', 'data of one frame is passed up twice')
            s.g['up'] = 1
            if k is not None:
                if k != 'in':
                    self.bad(E, s, fr, node, 'up', 'data is passed up of a message that is not the next one (%s)' % k)
                elif not s.cons.proves_eq(self.bits(E, s, s.env[GH], NOP)):
                    self.bad(E, s, fr, node, 'up', 'data is passed up of a message that is to be ignored')
                p = ci.args[0]
                if p.__class__ is not Ptr or p.base != self.inbuf or not s.cons.proves_eq(p.off - off - 1) or \
                        not s.cons.proves_eq(E.lin(s, ci.args[1]) + off + 1 - self.total):
                    self.bad(E, s, fr, node, 'up', 'what is passed up is not all that follows the header')
            self.reenter(E, s, True)
            out.append((s, Z))
        return out

    def downcall(self, E, st, fr, node, ci):
        self.n += 1
        out = []
        for s in self.close(E, st, fr, node):
            self.sent(E, s, fr, node, ci)
            self.numbered(E, s, fr, node)
            self.reenter(E, s, False)
            out.append((s, Z))
        return out

    def sent(self, E, s, fr, node, ci):
        p, n = ci.args[0], E.lin(s, ci.args[1])
        if s.cons.hi(n) <= 0:
            return
        if p.__class__ is Ptr and p.base[0] == 'buf':
            x = p.base[1]
            if x != self.front(E, s):
                self.bad(E, s, fr, node, 'tx', 'what is transmitted is not the message that is first in the queue')
            elif p.off != Z or not s.cons.proves_eq(n - E.size(s, x)):
                self.bad(E, s, fr, node, 'tx', 'a message is not transmitted as a whole')
            if E.decide(s, self.ready(E, s)) is not True and not self.entails(E, s, self.ready(E, s)):
                self.bad(E, s, fr, node, 'tx', 'a message is transmitted that is not complete')
            if E.decide(s, E.truth(s, ci.args[2])) is not True:
                self.bad(E, s, fr, node, 'tx', 'the frame is not ended with the message')
            return
        due = s.g.get('due', 0)
        if s.g.get('blind'):
            s.g.pop('due', None)
            return
        if not s.cons.proves_eq(n - L(due)):
            self.bad(E, s, fr, node, 'resp', '%r acknowledges are sent, instead of %d' % (n, due))
        for i in range(due):
            b = E.load(s, Ptr(p.base, p.off + i), 'unsigned char', 8, True)
            e = s.env[('ghost', 'due%d' % i)]
            if not s.cons.proves_eq(E.lin(s, b) - e):
                self.bad(E, s, fr, node, 'resp', 'the acknowledge is not for what was received')
            s.env.pop(('ghost', 'due%d' % i))
        s.g.pop('due', None)

    def entails(self, E, st, f):
        return not any(not x.cons.bot for x in E.assume(st.copy(), f, False))

    def popping(self, E, st, fr, node, ci):
        if self.root.short == 'reset':
            return
        self.n += 1
        if self.root.short != 'decode' or ci.short != 'pop_front':
            self.bad(E, st, fr, node, 'pop', 'messages are removed from the queue (%s) without an acknowledge' % ci.short)
            return
        if st.g.get('blind'):
            return
        if 'hdr' not in st.g or 'pop' in st.g:
            self.bad(E, st, fr, node, 'pop', 'a message is removed from the queue without an acknowledge')
            return
        h = st.env[GH]
        st.g['pop'] = 1
        if not st.cons.proves_ne(self.bits(E, st, h, ACK)):
            self.bad(E, st, fr, node, 'pop', 'a message is removed from the queue upon a header that is not an acknowledge')
        elif st.env.get(GX) != Ptr(self.front(E, st), Z) or not st.cons.proves_eq(self.bits(E, st, st.env[GF], MASK) - self.bits(E, st, h, MASK)):
            self.bad(E, st, fr, node, 'pop', 'a message is removed from the queue although the acknowledge is of another one')
        elif not self.entails(E, st, self.ready(E, st)):
            self.bad(E, st, fr, node, 'pop', 'a message is removed from the queue that was not sent')

    # ------------------------------------------------------------ numbering
    def on_store(self, E, st, fr, node, loc, val):
        if loc.base[0] == 'buf' and loc.base[1][0] in ('sym', 'new', 'elem', 'heap') and self.is_msg(E, loc.base[1]):
            if loc.off == Z:
                self.header(E, st, fr, node, loc.base[1], val, True)
        elif loc.base == self.send and loc.off == Z:
            self.n += 1
            v = E.lin(st, val)
            if not (st.cons.proves_le(-v) and st.cons.proves_le(v - L(MASK))):
                self.bad(E, st, fr, node, 'seq', 'the sequence number is out of range')
            p = st.env.get(GS)
            if p is None:
                if self.root.short in ('reset', '(ctor)') and v == Z:
                    return
                self.bad(E, st, fr, node, 'seq', 'the sequence number changes although none was used')
            else:
                st.env.pop(GS)
                st.g.pop('pend', None)
                if not self.is_succ(E, st, v, p):
                    self.bad(E, st, fr, node, 'seq', 'the sequence number after the one that is used is not its successor')
        elif loc.base == self.recv and loc.off == Z:
            v = E.lin(st, val)
            if not (st.cons.proves_le(-v) and st.cons.proves_le(v - L(MASK))):
                self.bad(E, st, fr, node, 'seq', 'the sequence number is out of range')
            if self.root.short not in ('decode', 'reset', '(ctor)'):
                self.bad(E, st, fr, node, 'seq', 'the number that is expected changes without anything received')
            elif self.root.short != 'decode' and v != Z:
                self.bad(E, st, fr, node, 'seq', 'the number that is expected first is not 0')

    def is_msg(self, E, base):
        t = unq(E.basetype.get(base) or '')
        return kind(t) == 'basic_string'

    def writing(self, E, st, fr, node, ci, base):
        if ci.short in ('push_back', 'append', 'operator+=', 'assign') and ci.args and base[0] != 'loc' and base[0] != 'tmp':
            z = E.size(st, base)
            a = ci.args
            if ci.short != 'assign' and not st.cons.proves_eq(z):
                if not st.cons.proves_ne(z) and len(a) == 1 and a[0].__class__ is Lin:
                    self.bad(E, st, fr, node, 'hdr', 'a header may be added to a message that has one')
                return
            v = a[0] if len(a) == 1 else a[1] if len(a) == 2 and a[0] == ONE else None
            if v.__class__ is Ptr and ci.short == 'push_back':
                v = E.load(st, v, 'char', 8, False)
            if v.__class__ is Lin and not (len(a) == 2 and a[0].__class__ is Ptr):
                self.header(E, st, fr, node, base, v, False)

    def header(self, E, st, fr, node, base, val, again):
        """The first byte of a message is set."""
        self.n += 1
        v = self.raw(val)
        if v.__class__ is not Lin:
            return
        seq = self.bits(E, st, v, MASK)
        if GS in st.env:
            self.bad(E, st, fr, node, 'seq', 'two messages get the same sequence number')
        cur = self.fld(E, st, self.send)
        rest = (E.fit(st, v, 'unsigned char', 8, True) if not v.const else v) - seq
        if st.g.pop('pf', None) and not (v == L(NOP) and self.root.short == 'decode'):
            self.bad(E, st, fr, node, 'order', 'a message is queued before others that were sent earlier')
        if v == L(NOP) and not again and self.root.short == 'decode':
            # the reset message
            st.env[GS] = Z
        elif (v - cur).c % N == 0 and all(c % N == 0 for _, c in (v - cur).t):
            rest = v - cur
            st.env[GS] = cur
        elif not st.cons.proves_eq(seq - cur):
            self.bad(E, st, fr, node, 'seq', 'a message does not get the current sequence number')
            st.env[GS] = seq
        else:
            st.env[GS] = cur
        st.g['pend'] = 1
        if again:
            old = E.init_value(st, ('buf', base), 'char', 8, False) if ('buf', base) not in st.env else st.env[('buf', base)]
            flags = self.raw(rest)
            k = [ATOMS[x].key for x, _ in flags.t]
            if not (flags.const and flags.c == 0) and not all(q and q[0] in ('div', 'mod', 'and') for q in k) or flags.const and flags.c:
                self.bad(E, st, fr, node, 'hdr', 'the flags of a message change when it is renumbered')
            elif flags.const or not any(c == NOP for _, c in flags.t):
                self.bad(E, st, fr, node, 'hdr', 'the flags of a message are lost when it is renumbered')
        elif self.root.short == 'encode':
            if not st.cons.proves_eq(rest):
                self.bad(E, st, fr, node, 'hdr', 'a message with data gets the flags %r' % rest)
        elif not st.cons.proves_eq(rest - NOP):
            self.bad(E, st, fr, node, 'hdr', 'a message without data gets the flags %r' % rest)

    def numbered(self, E, st, fr, node):
        if GS in st.env:
            self.bad(E, st, fr, node, 'seq', 'a sequence number is used, but the next message will have the same')
            st.env.pop(GS)
            st.g.pop('pend', None)

    def at_exit(self, E, st):
        for s in self.close(E, st, None, None):
            self.n += 1
            self.numbered(E, s, None, None)
            if s.g.get('pf'):
                self.bad(E, s, None, None, 'order', 'a message is queued before others that were sent earlier')
            if s.g.get('due') and not s.g.get('blind'):
                self.bad(E, s, None, None, 'resp', 'what was received is not acknowledged')


def roles(m, ctx):
    r = m.records.get(CLS)
    ctx.need(r, CLS)
    fs = [f for f in m.fns.values() if f.cls == CLS]
    fl = {f['n']: f['t'] for f in r['fields']}
    nxt = {f.id for f in fs if f.d['rt'] == 'unsigned char' and len(f.params) == 1}
    # fields that get the next number, and where
    asg = {}
    for f in fs:
        for n in f.nodes.values():
            if n['k'] == 'asg' or n['k'] == 'bin' and n.get('op') == '=':
                a, b = f.nodes.get(n['c'][0], {}), f.nodes.get(n['c'][1], {})
                while b.get('k') == 'cast':
                    b = f.nodes.get(b['c'][0], {})
                if a.get('k') == 'mem' and b.get('k') == 'call' and b.get('fid') in nxt:
                    asg.setdefault(a['n'], set()).add(f.short)
    send = [x for x in asg if asg[x] != {'decode'}]
    recv = [x for x in asg if asg[x] == {'decode'}]
    send = send[0] if len(send) == 1 else 'm_sendSeq'
    recv = recv[0] if len(recv) == 1 else 'm_recvSeq'
    pops = set()
    for f in fs:
        for n in f.nodes.values():
            if n['k'] == 'call' and n.get('fn', '').endswith('::pop_front'):
                o = f.nodes.get(n.get('obj'), {})
                if o.get('k') == 'mem':
                    pops.add(o['n'])
    q = [x for x, t in fl.items() if kind(t) == 'deque' and x in pops]
    queue = q[0] if len(q) == 1 else 'm_encodeQueue'
    b = [x for x, t in fl.items() if t.startswith(CLS + '::')]
    busy = b[0] if len(b) == 1 else 'm_encodeState'
    ctx.need({send, recv, queue, busy} <= set(fl), 'the numbers, the queue and the state of the ARQ layer')
    return send, recv, queue, busy


def p15(ctx):
    m = model('std', ['protocol'])
    ro = roles(m, ctx)
    ctx.rule('a header leads to the acknowledge, the expected number and the delivery that its number asks for')
    ctx.rule('only the first, complete message is transmitted, and it is removed only when its number is acknowledged')
    ctx.rule('messages are numbered consecutively')
    fs = [f for f in m.fns.values() if f.cls == CLS and not f.d.get('acc') and f.short not in ('(dtor)', 'mtu', 'event', 'setEventCallback')]

    def job(c, fid):
        f = m.fns[fid]
        reset_atoms()
        r = Arq(m, *ro)
        r.root = f
        E = Engine(m, r)
        st, this, args = start(E, f)
        bind_buffer(E, st, f, args)
        for k in (r.send, r.recv):
            E.keytype[k] = ('unsigned char', 8, True)
        E.basetype[r.queue] = 'std::deque<std::basic_string<char> *>'
        if f.short == 'decode':
            r.inbuf, r.total = args[0].base, args[1]
        outs = E.exec_fn(f, st, None, ('root',), args, this, this)
        for s, v in outs:
            if not s.cons.bot:
                r.at_exit(E, s)
        c.count('exit_states', len(outs))
        c.count('events', r.n)
        if f.short == 'decode':
            c.count('deliveries', r.up)
        c.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
        for x in E.reports.values():
            c.finding(x['where'], x['func'], x['key'] or 'rule', x['msg'], x['via'], x['trace'])
    pmap(ctx, job, [f.id for f in fs])
    ctx.need(ctx.counts.get('deliveries'), 'the place where received data is passed up')
