"""The layers at the bottom of a stack: files, pipes, ZeroMQ."""
from common import *
from frames import None_fr

DONE, ERRNO, GOT, CAP, TMO = [('ghost', x) for x in ('done', 'errno', 'got', 'cap', 'tmo')]
GHOSTS = (DONE, ERRNO, GOT, CAP, TMO)


class Io(Rule):
    maxdepth = 8
    K = 40
    strong = False
    inbase = ('no', 'input')

    def __init__(self, m, cls, f):
        self.m, self.cls, self.f = m, cls, f
        self.n = self.nev = 0
        self.up = ids(m, PL, 'decode')
        self.down = ids(m, PL, 'encode')

    def roots(self, st):
        return [st.env[k] for k in GHOSTS if k in st.env]

    def dyn_type(self, E, st, base):
        return self.cls if base == self.this and self.virtual else None

    virtual = False

    def err(self, E, st, fr, node, msg, key):
        E.report(fr or None_fr(self.f), node, msg, st, key=key)

    def errval(self, E, st):
        e = E.fresh('errno', None, None, None, 1, 4095)
        st.env[ERRNO] = e
        return e

    def lasterr(self, E, st):
        return E.lin(st, E.load(st, Ptr(('fld', self.this, self.lefield), Z), 'int', 32, False))

    def setlasterr(self, E, st, v):
        E.store(st, Ptr(('fld', self.this, self.lefield), Z), v, 'int', 32, False)

    def adjacent(self, ci, short, n, root):
        return ci.short == short and len(ci.args) == n and overroot(self.m, ci.fid, root)

    def is_errno(self, ci):
        return ci.short in ('__errno_location', '__error')

    def fork(self, st, n=2):
        return [st] + [st.copy() for _ in range(n - 1)]

    def pre_call(self, E, st, fr, node, ci):
        if self.is_errno(ci):
            return [(st, Ptr(ERRNO, Z))]
        if self.adjacent(ci, 'encode', 3, self.down) and ci.cls != self.cls:
            return [(st, Z)]
        return self.call(E, st, fr, node, ci)

    def call(self, E, st, fr, node, ci):
        return None


def isfn(ci, *names):
    return ci.fn.lstrip(':') in names and ci.obj is None


def fdparam(E, st, this, n):
    return E.lin(st, E.load(st, Ptr(('fld', this, n), Z), 'int', 32, False))


def fds(m, cls='stored::FileLayer'):
    """The members that hold the descriptors to read from and to write to."""
    fs = [x['n'] for c, x in m.fields(cls) if c == cls and unq(x['t']) == 'int']
    r = [x for x in fs if x.endswith('_r') or 'read' in x.lower()]
    w = [x for x in fs if x.endswith('_w') or 'write' in x.lower()]
    if len(r) != 1 or len(w) != 1:
        raise Broken('anchor vanished: the descriptors of ' + cls)
    return r[0], w[0]


class FileEncode(Io):
    def call(self, E, st, fr, node, ci):
        if isfn(ci, 'write'):
            self.nev += 1
            self.n += 2
            fd, p, n = E.lin(st, ci.args[0]), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
            if not st.cons.proves_eq(fd - self.fdw):
                self.err(E, st, fr, node, 'writes to another descriptor', 'fd')
            if p.base != self.inbase or not st.cons.proves_eq(p.off - st.env[DONE]):
                self.err(E, st, fr, node, 'writes from offset %r after %r bytes are written' % (p.off, st.env[DONE]), 'next')
            if not st.cons.proves_le(p.off + n - self.len):
                self.err(E, st, fr, node, 'writes beyond the buffer', 'beyond')
            a, b = self.fork(st)
            self.errval(E, a)
            a.g['w'] = 'err'
            k = E.fresh('written', None, None, None, 0, 1 << 40)
            b.cons.add_le(k - n)
            b.env[DONE] = b.env[DONE] + k
            b.g['w'] = 'ok'
            return [(a, L(-1)), (b, k)]
        if ci.short == 'block' and ci.cls != self.cls + '?' and len(ci.args) == 4:
            return self.blocked(E, st, fr, node, ci, False, self.fdw)
        if isfn(ci, 'close') or isfn(ci, 'fflush'):
            return [(st, Z)]
        return None

    def blocked(self, E, st, fr, node, ci, reading, fd):
        self.n += 1
        if not st.cons.proves_eq(E.lin(st, ci.args[0]) - fd):
            self.err(E, st, fr, node, 'waits for another descriptor', 'bfd')
        d = E.decide(st, E.truth(st, ci.args[1]))
        if d is not reading:
            self.err(E, st, fr, node, 'waits for the wrong direction', 'bdir')
        t = E.lin(st, ci.args[2])
        if reading:
            if not st.cons.proves_eq(t - st.env[TMO]):
                self.err(E, st, fr, node, 'waits for %r us instead of the given %r' % (t, st.env[TMO]), 'btmo')
        elif not st.cons.proves_le(t + 1):
            self.err(E, st, fr, node, 'gives up writing after %r us' % t, 'btmo')
        a, b = self.fork(st)
        self.setlasterr(E, a, Z)
        e = E.fresh('err', None, None, None, 1, 4095)
        self.setlasterr(E, b, e)
        return [(a, Z), (b, e)]


class FileRecv(FileEncode):
    def call(self, E, st, fr, node, ci):
        if isfn(ci, 'read'):
            self.nev += 1
            self.n += 3
            fd, p, n = E.lin(st, ci.args[0]), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
            if not st.cons.proves_eq(fd - self.fdr):
                self.err(E, st, fr, node, 'reads from another descriptor', 'fd')
            b = p.base
            if not (b.__class__ is tuple and b[0] == 'buf') or not st.cons.proves_eq(p.off) or not st.cons.proves_le(n - E.size(st, b[1])):
                self.err(E, st, fr, node, 'reads %r bytes into %r' % (n, p), 'buf')
            if st.g.get('r') == 'data':
                self.err(E, st, fr, node, 'reads again before the data is delivered', 'lost')
            self.rp = p
            a, b, c = self.fork(st, 3)
            self.errval(E, a)
            a.g['r'] = 'err'
            b.g['r'] = 'eof'
            k = E.fresh('read', None, None, None, 1, 1 << 40)
            c.cons.add_le(k - n)
            c.env[GOT] = k
            c.g['r'] = 'data'
            return [(a, L(-1)), (b, Z), (c, k)]
        if ci.short == 'block' and len(ci.args) == 4:
            return self.blocked(E, st, fr, node, ci, True, self.fdr)
        if self.adjacent(ci, 'decode', 2, self.up):
            self.n += 1
            p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
            if st.g.get('r') != 'data':
                self.err(E, st, fr, node, 'delivers data that is not read, or twice', 'twice')
            elif p != self.rp or not st.cons.proves_eq(n - st.env[GOT]):
                self.err(E, st, fr, node, 'delivers %r bytes of the %r that are read' % (n, st.env[GOT]), 'slice')
            st.g['r'] = 'done'
            return [(st, Z)]
        if isfn(ci, 'close'):
            return [(st, Z)]
        return None


class Block(Io):
    """block(): the poller gets the timeout, and the pollable is removed."""

    def call(self, E, st, fr, node, ci):
        c = ci.cls or ''
        if ci.short in ('add', 'remove', 'poll') and 'oller' in (ci.cls or '') + (ci.objtype or '') and ci.obj is not None:
            self.nev += 1
            self.n += 1
            if ci.short == 'add':
                a, b = self.fork(st)
                a.g['in'] = a.g.get('in', 0) + 1
                return [(a, Z), (b, E.fresh('err', None, None, None, 1, 4095))]
            if ci.short == 'remove':
                if not st.g.get('in'):
                    self.err(E, st, fr, node, 'removes a pollable that was not added', 'rm')
                st.g['in'] = st.g.get('in', 0) - 1
                a, b = self.fork(st)
                return [(a, Z), (b, E.fresh('err', None, None, None, 1, 4095))]
            t = E.lin(st, ci.args[0]) if ci.args else L(-1)
            T = st.env[TMO]
            if st.cons.proves_le(T + 1):
                if not st.cons.proves_le(t + 1):
                    self.err(E, st, fr, node, 'polls with timeout %r when asked to wait indefinitely' % t, 'forever')
            elif not st.cons.proves_le(-t):
                self.err(E, st, fr, node, 'waits indefinitely (%r) when asked to wait %r us' % (t, T), 'limit')
            elif not st.cons.proves_le(t.scale(1000) - T - 1000):
                self.err(E, st, fr, node, 'polls %r ms when asked to wait %r us' % (t, T), 'longer')
            out = []
            for i, s in enumerate(self.fork(st)):
                s.g['res'] = 'none' if i == 0 else 'some'
                b = ('ghost', 'pres%d' % i)
                E.basetype[b] = 'std::vector<stored::Pollable *>'
                z = Z
                if i:
                    z = E.fresh('n', None, None, None, 1, 1 << 20)
                s.env[('fld', b, '#size')] = z
                self.errval(E, s)
                out.append((s, Ptr(b, Z)))
            return out
        if ci.short in ('any', 'none', 'test') and ci.obj is not None:
            return [(s, L(i)) for i, s in enumerate(self.fork(st))]
        if ci.short == 'close' and ci.obj is not None:
            return [(st, Z)]
        if ci.short == 'poller':
            return [(st, Ptr(('ghost', 'poller'), Z))]
        if ci.node.get('k') == 'ctor' and 'Pollable' in (ci.cls or ''):
            return [(st, ci.obj)]
        return None


class Close(Io):
    virtual = True

    def owned(self, st):
        r = dict(self.toks)
        r.update({k[1]: v for k, v in st.env.items() if k[0] == 'ghost' and k[1][0] == 'o' and k[1] in st.g})
        return r

    def roots(self, st):
        return list(self.owned(st).values())

    def call(self, E, st, fr, node, ci):
        if isfn(ci, 'close'):
            self.nev += 1
            self.n += 1
            v = E.lin(st, ci.args[0])
            hit = None
            for k, x in self.owned(st).items():
                if st.cons.proves_eq(v - x):
                    hit = k
                    if not st.g.get(k):
                        st.g[k] = 1
                        return [(st, Z)]
            if st.cons.proves_le(v + 1):
                return [(st, L(-1))]
            self.err(E, st, fr, node, 'closes a descriptor twice' if hit else 'closes a descriptor that is not its own: %r' % v, 'close')
            return [(st, Z)]
        if isfn(ci, 'open'):
            self.nev += 1
            a, b = self.fork(st)
            self.errval(E, a)
            fd = E.fresh('fd', None, None, None, 0, 1 << 20)
            k = 'o%d' % len([x for x in b.g if x[0] == 'o'])
            for x in self.owned(b).values():
                if not b.g.get(k):
                    b.cons.add_ne(x - fd)
            b.g[k] = 0
            b.env[('ghost', k)] = fd
            return [(a, L(-1)), (b, fd)]
        return None


def go(ctx, r, E, st, this, args, f, what):
    m = r.m
    for k in GHOSTS:
        st.env.setdefault(k, Z)
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    ctx.need(outs and r.nev, 'system calls in ' + f.name)
    ctx.count('exit_states', len(outs))
    return outs


def report(ctx, r, E, what):
    ctx.count('obligations', r.n)
    ctx.count('system_calls', r.nev)
    ctx.cover('functions', [fdef(r.m.fns[i]) for i in E.stats['functions'] if i in r.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], what, x['msg'], x['via'], x['trace'])


def lefield(m):
    fs = [(c, x['n']) for c, x in m.fields('stored::PolledLayer') if unq(x['t']) == 'int']
    if len(fs) != 1:
        raise Broken('anchor vanished: the last error')
    return fs[0][1]


def mk(cls, R, short, n, unit='protocol', pick=0):
    m = model('std', [unit])
    reset_atoms()
    fs = own_methods(m, cls, short, n)
    if not fs:
        raise Broken('anchor vanished: %s::%s' % (cls, short))
    f = fs[pick]
    r = R(m, cls, f)
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.this = this
    r.lefield = lefield(m)
    return m, r, E, st, this, args, f


def ends(ctx, r, E, s, f, ok, why_ok, why_err):
    """The last error is 0 iff it worked."""
    r.n += 1
    le = r.lasterr(E, s)
    z = s.cons.proves_eq(le)
    nz = not z and (s.cons.proves_le(L(1) - le) or s.cons.proves_le(le + 1) or E.decide(s, B('eq', le)) is False)
    if ok and not z:
        r.err(E, s, None, None, why_ok, 'err-ok')
    if not ok and not nz:
        r.err(E, s, None, None, why_err, 'ok-err')


def file_encode(ctx):
    m, r, E, st, this, args, f = mk('stored::FileLayer', FileEncode, 'encode', 3)
    rf, wf = fds(m)
    r.inbase = args[0].base
    bind_buffer(E, st, f, args)
    r.len = E.lin(st, args[1])
    r.fdw = fdparam(E, st, this, wf)
    st.cons.add_le(L(-1) - r.fdw)
    outs = go(ctx, r, E, st, this, args, f, 'write')
    for s, v in outs:
        if s.g.get('w') is None:
            # nothing was written
            for t in E.assume(s.copy(), B('eq', r.fdw + 1)):
                ends(ctx, r, E, t, f, False, '', 'nothing is written to a closed descriptor, but no error is set')
            for t in E.assume(s.copy(), BAnd(B('le', -r.fdw), B('le', ONE - r.len))):
                ends(ctx, r, E, t, f, False, '', 'nothing is written, but no error is set')
            continue
        full = s.cons.proves_eq(s.env[DONE] - r.len)
        if full:
            ends(ctx, r, E, s, f, True, 'an error is set although everything is written', '')
        else:
            ends(ctx, r, E, s, f, False, '', 'only %r of %r bytes are written, but no error is set' % (s.env[DONE], r.len))
    report(ctx, r, E, 'write')


def file_recv(ctx):
    m, r, E, st, this, args, f = mk('stored::FileLayer', FileRecv, 'recv', 1)
    rf, wf = fds(m)
    r.fdr = fdparam(E, st, this, rf)
    st.cons.add_le(L(-1) - r.fdr)
    st.env[TMO] = E.lin(st, args[0])
    outs = go(ctx, r, E, st, this, args, f, 'read')
    for s, v in outs:
        ok = s.g.get('r') == 'done'
        if s.g.get('r') == 'data':
            r.err(E, s, None, None, 'data that is read is not delivered', 'dropped')
        ends(ctx, r, E, s, f, ok, 'an error is set although data is delivered', 'no error is set although nothing is delivered')
        if not s.cons.proves_eq(E.lin(s, v) - r.lasterr(E, s)):
            r.err(E, s, None, None, 'the last error is not what is returned', 'ret')
    report(ctx, r, E, 'read')


def block(ctx, cls, unit, n, neg):
    m, r, E, st, this, args, f = mk(cls, Block, 'block', n, unit)
    ti = [i for i, p in enumerate(f.params) if p.get('w') == 64 and not p.get('u')]
    ctx.need(ti, 'the timeout of ' + f.name)
    st.env[TMO] = E.lin(st, args[ti[0]])
    st.cons.add_le(st.env[TMO] + 1 if neg else -st.env[TMO])
    st.cons.add_le(st.env[TMO] - L(1 << 40))    # 12 days
    st.cons.add_le(L(-(1 << 40)) - st.env[TMO])
    outs = go(ctx, r, E, st, this, args, f, 'block')
    for s, v in outs:
        r.n += 2
        if s.g.get('in'):
            r.err(E, s, None, None, 'the pollable stays registered', 'leak')
        rv = E.lin(s, v)
        if s.g.get('res', 'none') == 'none' and not s.cons.proves_le(ONE - rv):
            r.err(E, s, None, None, 'returns %r although nothing happened' % rv, 'none')
        if not s.cons.proves_eq(rv - r.lasterr(E, s)):
            r.err(E, s, None, None, 'the last error is not what is returned', 'ret')
    report(ctx, r, E, 'block')


def closing(ctx, cls, short, n):
    m, r, E, st, this, args, f = mk(cls, Close, short, n)
    rf, wf = fds(m)
    a, b = fdparam(E, st, this, rf), fdparam(E, st, this, wf)
    ar, br = ('fld', this, rf), ('fld', this, wf)
    tot = 0
    for eq in (True, False):
        for av in (True, False):
            for bv in (True, False):
                if eq and av != bv:
                    continue
                r.toks = {}
                s0 = st.copy()
                s0.env[ar], s0.env[br] = a, b
                if eq:
                    s0.cons.add_eq(a - b)
                if not av:
                    s0.cons.add_eq(a + 1)
                else:
                    s0.cons.add_le(-a)
                    r.toks['r'] = a
                if not bv:
                    s0.cons.add_eq(b + 1)
                else:
                    s0.cons.add_le(-b)
                    if not eq:
                        r.toks['w'] = b
                if not eq and av and bv:
                    rs = E.assume(s0, B('ne', a - b))
                else:
                    rs = [s0]
                for s1 in rs:
                    for k in r.toks:
                        s1.g[k] = 0
                    held = dict(r.toks)
                    for k in GHOSTS:
                        s1.env.setdefault(k, Z)
                    for s, v in E.exec_fn(f, s1, None, ('root',), list(args), this, this):
                        tot += 1
                        r.n += 1
                        x, y = [E.lin(s, E.load(s, Ptr(q, Z), 'int', 32, False)) for q in (ar, br)]
                        for k, fd in r.owned(s).items():
                            kept = s.cons.proves_eq(x - fd) or s.cons.proves_eq(y - fd)
                            if s.g.get(k) and kept:
                                r.err(E, s, None, None, 'a closed descriptor is still used', 'stale')
                            if not s.g.get(k) and not kept:
                                r.err(E, s, None, None, 'a descriptor is neither closed nor kept', 'leak')
                            if not s.g.get(k) and kept and short in ('close', 'close_'):
                                r.err(E, s, None, None, 'a descriptor is not closed', 'open')
                    r.nev += 0
    ctx.need(tot, 'paths through ' + f.name)
    ctx.count('exit_states', tot)
    report(ctx, r, E, 'close')


class ZmqEncode(Io):
    def call(self, E, st, fr, node, ci):
        if isfn(ci, 'zmq_send'):
            self.nev += 1
            self.n += 3
            p, n, fl = E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2]), E.lin(st, ci.args[3])
            if p.base != self.inbase or not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n - self.len):
                self.err(E, st, fr, node, 'sends %r bytes of a part of %r bytes' % (n, self.len), 'slice')
            if st.g.get('s') == 'ok':
                self.err(E, st, fr, node, 'sends a part twice', 'twice')
            more = [x for x in (0, 1) if not st.cons.proves_eq(fl - x)]
            want = (2, 3) if not self.last else (0, 1)
            if not any(st.cons.proves_eq(fl - x) for x in want):
                self.err(E, st, fr, node, 'sends the %s part with flags %r' % ('last' if self.last else 'first', fl), 'more')
            a, b = self.fork(st)
            self.errval(E, a)
            a.g['s'] = 'err'
            b.g['s'] = 'ok'
            return [(a, L(-1)), (b, n)]
        if ci.short == 'block':
            a, b = self.fork(st)
            self.setlasterr(E, a, Z)
            e = E.fresh('err', None, None, None, 1, 4095)
            self.setlasterr(E, b, e)
            return [(a, Z), (b, e)]
        return None


def zmq_encode(ctx, last):
    m, r, E, st, this, args, f = mk('stored::ZmqLayer', ZmqEncode, 'encode', 3, 'zmq')
    r.inbase = args[0].base
    bind_buffer(E, st, f, args)
    r.len = E.lin(st, args[1])
    r.last = last
    st.cons.add_eq(E.lin(st, args[2]) - L(last))
    for s, v in go(ctx, r, E, st, this, args, f, 'zmq'):
        ends(ctx, r, E, s, f, s.g.get('s') == 'ok', 'an error is set although the data is sent', 'the data is not sent, but no error is set')
    report(ctx, r, E, 'zmq')


MSG = ('ghost', 'msgdata')


class ZmqRecv(Io):
    def call(self, E, st, fr, node, ci):
        s = ci.fn.lstrip(':')
        if ci.short == 'block':
            return ZmqEncode.call(self, E, st, fr, node, ci)
        if '::' in s.replace('std::', '') and not self.adjacent(ci, 'decode', 2, self.up):
            return None
        if not (s.startswith('zmq_msg_') or s == 'realloc' or s in ('memcpy', 'memmove') or self.adjacent(ci, 'decode', 2, self.up)):
            return None
        self.nev += 1
        self.n += 1
        if s == 'zmq_msg_init':
            a, b = self.fork(st)
            self.errval(E, a)
            if b.g.get('m'):
                self.err(E, b, fr, node, 'initializes a message twice', 'init')
            b.g['m'] = 'open'
            return [(a, L(-1)), (b, Z)]
        if st.g.get('m') != 'open' and s.startswith('zmq_msg'):
            self.err(E, st, fr, node, '%s of a message that is not open' % s, 'use')
        if s == 'zmq_msg_close':
            st.g['m'] = 'closed'
            return [(st, Z)]
        if s == 'zmq_msg_recv':
            if st.g.get('r'):
                self.err(E, st, fr, node, 'receives again although a part is not handled', 'again')
            a, b = self.fork(st)
            self.errval(E, a)
            b.g['r'] = 'got'
            z = E.fresh('msgsize', None, None, None, 0, 1 << 40)
            b.env[GOT] = z
            b.env[('ext', MSG)] = z
            return [(a, L(-1)), (b, z)]
        if s == 'zmq_msg_more':
            if 'more' in st.g:
                return [(st, L(st.g['more']))]
            out = []
            for i, x in enumerate(self.fork(st)):
                x.g['more'] = i
                out.append((x, L(i)))
            return out
        if s == 'zmq_msg_get':
            return [(x, L(i)) for i, x in enumerate(self.fork(st))]
        if s == 'zmq_msg_size':
            return [(st, st.env[GOT])]
        if s == 'zmq_msg_data':
            return [(st, Ptr(MSG, Z))]
        if s == 'realloc':
            n = E.lin(st, ci.args[1])
            p = E.as_ptr(st, ci.args[0], None)
            if p != self.bufptr(E, st):
                self.err(E, st, fr, node, 'reallocates another buffer', 'realloc')
            a, b = self.fork(st)
            b.env[CAP] = n
            b.g['re'] = 1
            return [(a, Ptr(NULLB, Z)), (b, Ptr(('ghost', 'rebuf'), Z))]
        if s in ('memcpy', 'memmove'):
            d, x, n = E.as_ptr(st, ci.args[0], None), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
            cur = Ptr(('ghost', 'rebuf'), Z) if st.g.get('re') else self.buf0
            if d.base != cur.base or not st.cons.proves_eq(d.off - cur.off - self.s0):
                self.err(E, st, fr, node, 'a part is stored at %r, after %r bytes' % (d, self.s0), 'place')
            if x.base != MSG or not st.cons.proves_eq(x.off) or not st.cons.proves_eq(n - st.env[GOT]):
                self.err(E, st, fr, node, '%r of %r bytes of a part are stored' % (n, st.env[GOT]), 'part')
            if not st.cons.proves_le(self.s0 + n - st.env[CAP]):
                self.err(E, st, fr, node, 'a part does not fit the buffer', 'fit')
            if st.g.get('app'):
                self.err(E, st, fr, node, 'a part is stored twice', 'dup')
            st.g['app'] = 1
            return [(st, d)]
        p, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
        if st.g.get('r') != 'got' or st.g.get('more') != 0:
            self.err(E, st, fr, node, 'delivers a message that is not complete', 'early')
        if st.g.get('up'):
            self.err(E, st, fr, node, 'delivers a message twice', 'twice')
        st.g['up'] = 1
        if p.base == MSG:
            if st.g.get('m') != 'open' or not st.cons.proves_eq(p.off) or not st.cons.proves_eq(n - st.env[GOT]) or not st.cons.proves_eq(self.s0):
                self.err(E, st, fr, node, 'delivers part of a message', 'slice')
        else:
            if p != self.bufptr(E, st) or not st.g.get('app') or not st.cons.proves_eq(n - self.s0 - st.env[GOT]):
                self.err(E, st, fr, node, 'delivers something else than the parts that are received', 'slice')
        return [(st, Z)]

    def bufptr(self, E, st):
        return E.as_ptr(st, E.load(st, Ptr(('fld', self.this, self.bf), Z), 'void *'), None)


def zmq_recv(ctx):
    m, r, E, st, this, args, f = mk('stored::ZmqLayer', ZmqRecv, 'recv1', 1, 'zmq')
    fs = {unq(x['t']): [y['n'] for c, y in m.fields('stored::ZmqLayer') if c == 'stored::ZmqLayer' and unq(y['t']) == unq(x['t'])] for c, x in m.fields('stored::ZmqLayer') if c == 'stored::ZmqLayer'}
    bufs = [x for x in fs.get('void *', []) if 'uf' in x]
    sizes = [x for x in fs.get('unsigned long', []) + fs.get('size_t', [])]
    sz = [x for x in sizes if 'apac' not in x]
    cp = [x for x in sizes if 'apac' in x]
    ctx.need(len(bufs) == 1 and len(sz) == 1 and len(cp) == 1, 'the buffer of ZmqLayer')
    r.bf = bufs[0]
    szl, cpl = Ptr(('fld', this, sz[0]), Z), Ptr(('fld', this, cp[0]), Z)
    r.s0 = E.lin(st, E.load(st, szl, 'unsigned long', 64, True))
    st.env[CAP] = E.lin(st, E.load(st, cpl, 'unsigned long', 64, True))
    st.cons.add_le(r.s0 - st.env[CAP])
    st.cons.add_le(st.env[CAP] - L(1 << 40))
    r.buf0 = r.bufptr(E, st)
    for s, v in go(ctx, r, E, st, this, args, f, 'zmq'):
        r.n += 4
        if s.g.get('m') == 'open':
            r.err(E, s, None, None, 'a message is not closed', 'leak')
        z = E.lin(s, E.load(s, szl, 'unsigned long', 64, True))
        c = E.lin(s, E.load(s, cpl, 'unsigned long', 64, True))
        if not s.cons.proves_le(c - s.env[CAP]) or not s.cons.proves_le(z - c):
            r.err(E, s, None, None, 'the recorded capacity %r is more than the buffer has' % c, 'cap')
        if s.g.get('re') and r.bufptr(E, s) != Ptr(('ghost', 'rebuf'), Z):
            r.err(E, s, None, None, 'the reallocated buffer is lost', 'relost')
        ok = False
        if s.g.get('r') == 'got':
            if s.g.get('up'):
                ok = True
                if not s.cons.proves_eq(z):
                    r.err(E, s, None, None, 'a delivered message is kept', 'kept')
            elif s.g.get('more') == 1 and s.g.get('app'):
                ok = True
                if not s.cons.proves_eq(z - r.s0 - s.env[GOT]):
                    r.err(E, s, None, None, 'a part of a message is not kept', 'size')
            elif s.g.get('more') == 0 and s.g.get('app'):
                r.err(E, s, None, None, 'a complete message is not delivered', 'undelivered')
        elif not s.cons.proves_eq(z - r.s0):
            r.err(E, s, None, None, 'the parts up to now are lost', 'lostparts')
        ends(ctx, r, E, s, f, ok, 'an error is set although a part is handled', 'no error is set although nothing is received')
        if not s.cons.proves_eq(E.lin(s, v) - r.lasterr(E, s)):
            r.err(E, s, None, None, 'the last error is not what is returned', 'ret')
    report(ctx, r, E, 'zmq')


def p23(ctx):
    ctx.rule('writing: the calls of write() cover the data in order and without gap; the last error is 0 if and only if all is written')
    ctx.rule('reading: data that is read is delivered once, and the result is 0 if and only if data is delivered')
    ctx.rule('waiting: a negative timeout waits indefinitely, another one does not, and the descriptor is taken out of the poller')
    ctx.rule('closing: every descriptor that is owned or opened is closed once or kept')
    ctx.rule('ZeroMQ: a part is sent once with the right flags; parts that are received are concatenated within the capacity of the buffer and delivered once; messages are closed')

    def job(c, j):
        j[0](c, *j[1:])
    jobs = [(file_encode,), (file_recv,), (zmq_encode, 0), (zmq_encode, 1), (zmq_recv,)]
    jobs += [(block, 'stored::PolledFileLayer', 'protocol', 4, x) for x in (0, 1)]
    jobs += [(block, 'stored::ZmqLayer', 'zmq', 3, x) for x in (0, 1)]
    jobs += [(closing, 'stored::FileLayer', 'close_', 0), (closing, 'stored::FileLayer', 'close', 0), (closing, 'stored::NamedPipeLayer', 'reopen', 0)]
    pmap(ctx, job, jobs)
