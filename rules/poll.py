"""Pollers: what is registered is polled and reported."""
from common import *
from frames import None_fr
from iolayer import ERRNO
import re
import engine

engine.SIZES['zmq_pollitem_t'] = 16
engine.SIZES['pollfd'] = 8

CUR, MATCH, SEEN, LEFT, RC = [('ghost', x) for x in ('cur', 'match', 'seen', 'left', 'rc')]
P, OTHER, LAST = [Ptr(('new', x), Z) for x in ('p', 'otherp', 'lastp')]
ITEM = ('new', 'item')
NMAX = 1 << 20


class PollEngine(Engine):
    def load(self, st, loc, t=None, w=None, u=None):
        v = self.rule.element(self, st, loc)
        return v if v is not None else Engine.load(self, st, loc, t, w, u)

    def store(self, st, loc, val, t=None, w=None, u=None):
        if self.rule.put(self, st, loc, val):
            return
        Engine.store(self, st, loc, val, t, w, u)


class Poll(Rule):
    maxdepth = 6
    K = 80
    strong = False
    vecs = {}           # base of a vector -> (name, size of an item)

    def __init__(self, m, f):
        self.m, self.f = m, f
        self.n = self.nev = 0

    def roots(self, st):
        return [st.env[k] for k in (CUR, MATCH, SEEN, LEFT, RC) if k in st.env] + list(self.keep)

    keep = ()

    def templates(self, E, env):
        g = [env.get(k) for k in (SEEN, LEFT, CUR)]
        g = [x for x in g if x.__class__ is Lin]
        loc = [v for k, v in env.items() if k[0] == 'loc' and v.__class__ is Lin]
        out = []
        for x in g:
            for y in loc + list(self.keep):
                out += [x - y, y - x, x - y + 1, y - x - 1]
            for y in loc:
                for z in self.keep:
                    out += [x + y - z]
        if len(g) > 1:
            out += [g[0] + g[1] - z for z in self.keep]
        return out

    def err(self, E, st, fr, node, msg, key):
        E.report(fr or None_fr(self.f), node, msg, st, key=key)

    def fork(self, st, n=2):
        return [st] + [st.copy() for _ in range(n - 1)]

    def element(self, E, st, loc):
        return None

    def put(self, E, st, loc, val):
        return False

    def vec(self, E, ci):
        """The vector a method is called for."""
        o = ci.obj
        if o.__class__ is Ptr and o.off == Z and ci.cls and ci.cls.startswith('std::vector'):
            return self.vecs.get(o.base)
        return None

    def index(self, E, st, fr, node, ci):
        """(vector, offset) of the element that is accessed by a call."""
        v = self.vec(E, ci)
        if v and ci.short in ('operator[]', 'at') and len(ci.args) == 1:
            return v, E.lin(st, ci.args[0]).scale(v[1])
        if v and ci.short == 'front':
            return v, Z
        if v and ci.short == 'back':
            return v, (E.size(st, ci.obj.base) - 1).scale(v[1])
        if ci.short in ('operator*', 'operator->') and ci.obj.__class__ is Ptr and 'iterator' in (ci.cls or ''):
            x = E.load(st, ci.obj, ci.cls)
            if x.__class__ is Ptr and x.base[0] == 'buf' and x.base[1] in self.vecs:
                return self.vecs[x.base[1]], x.off
        return None

    # ---- bitsets
    def bits(self, E, st, p):
        return st.env.get(('fld', E.objbase(p), '#bits'))

    def setbits(self, E, st, p, v):
        st.env[('fld', E.objbase(p), '#bits')] = L(v)

    def bitset(self, E, st, fr, node, ci):
        if not (ci.cls or '').startswith('std::bitset'):
            return None
        s, o = ci.short, ci.obj
        if s == '(dtor)':
            return [(st, Z)]

        def val(x):
            if x.__class__ is Ptr:
                b = self.bits(E, st, x)
                return b.c if b is not None and b.const else None
            x = E.lin(st, x)
            return x.c if x.const else None
        a = [val(x) for x in ci.args]
        if s in ('(ctor)', 'operator='):
            v = a[0] if a else 0
            k = ('fld', E.objbase(o), '#bits')
            if v is None:
                st.env.pop(k, None)
                x = ci.args[0]
                if x.__class__ is Ptr:
                    st.env[('fld', E.objbase(o), '#from')] = st.env.get(('fld', E.objbase(x), '#from'), Ptr(E.objbase(x), Z))
            else:
                self.setbits(E, st, o, v)
            return [(st, o)]
        b = val(o)
        if b is None:
            return self.unknown_bits(E, st, ci)
        if s in ('set', 'reset', 'flip') and (not a or a[0] is not None):
            k = 31 if not a else 1 << a[0]
            on = s == 'set' and (len(a) < 2 or a[1])
            v = b ^ k if s == 'flip' else b | k if on else b & ~k
            self.setbits(E, st, o, v)
            return [(st, o)]
        if s in ('operator|=', 'operator&=') and a and a[0] is not None:
            self.setbits(E, st, o, b | a[0] if s == 'operator|=' else b & a[0])
            return [(st, o)]
        r = {'none': int(not b), 'any': int(b != 0), 'to_ulong': b, 'to_ullong': b, 'count': bin(b).count('1')}.get(s)
        if r is None and s in ('test', 'operator[]') and a and a[0] is not None:
            r = b >> a[0] & 1
        return None if r is None else [(st, L(r))]

    def unknown_bits(self, E, st, ci):
        """The events that are given: any value, but one."""
        f = st.env.get(('fld', E.objbase(ci.obj), '#from'), Ptr(E.objbase(ci.obj), Z))
        k = 'bits:%r' % (f,)
        if ci.short in ('to_ulong', 'to_ullong'):
            v = st.env.setdefault(('ghost', k), E.fresh('bits', None, None, None, 0, 31))
            return [(st, v)]
        if ci.short in ('none', 'any'):
            v = st.env.setdefault(('ghost', k), E.fresh('bits', None, None, None, 0, 31))
            out = []
            s2 = st.copy()
            for s in E.assume(st, B('eq', v)):
                out.append((s, L(int(ci.short == 'none'))))
            for s in E.assume(s2, B('le', L(1) - v)):
                out.append((s, L(int(ci.short == 'any'))))
            return out
        return None

    def pre_call(self, E, st, fr, node, ci):
        if ci.short in ('__errno_location', '__error'):
            return [(st, Ptr(ERRNO, Z))]
        r = self.bitset(E, st, fr, node, ci)
        if r is None:
            r = self.call(E, st, fr, node, ci)
        return r

    def call(self, E, st, fr, node, ci):
        return None

    def mine(self, ci, short, n):
        return ci.short == short and len(ci.args) == n and ci.cls and 'Poller' in ci.cls and ci.obj.__class__ is Ptr and ci.obj.base[0] == 'this'


# ------------------------------------------------------------ the lists of a poller
class Lists(Poll):
    def element(self, E, st, loc):
        if loc.base == self.pb:
            if self.is_match(st, loc.off, 8):
                return P
            if st.cons.proves_eq(loc.off - (self.psize(E, st) - 1).scale(8)):
                return LAST
            return OTHER
        return None

    def psize(self, E, st):
        return E.size(st, self.pb[1])

    def is_match(self, st, off, es):
        m = st.env.get(MATCH)
        return st.g.get('m') == 1 and m is not None and st.cons.proves_eq(off - m.scale(es))

    def tok(self, E, st, v, off):
        if self.is_match(st, off, v[1]):
            return 'match'
        base = [b for b, x in self.vecs.items() if x == v][0]
        if st.cons.proves_eq(off - (E.size(st, base) - 1).scale(v[1])):
            return 'last'
        return '?'

    def log(self, st, *x):
        st.g['log'] = st.g.get('log', ()) + (x,)
        self.nev += 1

    def put(self, E, st, loc, val):
        if loc.base == self.pb:
            val = E.as_ptr(st, val, None)
            self.log(st, 'p', 'set', self.tok(E, st, self.vecs[self.pb[1]], loc.off),
                     {P: 'match', LAST: 'last', OTHER: '?'}.get(val, '?'))
            return True
        if loc.base == self.ib:
            self.log(st, 'i', 'part', self.tok(E, st, self.vecs[self.ib[1]], loc.off))
        return False

    def call(self, E, st, fr, node, ci):
        v = self.vec(E, ci)
        x = self.index(E, st, fr, node, ci)
        if x is not None:
            v, off = x
            base = [b for b, y in self.vecs.items() if y == v][0]
            n = E.size(st, base)
            if not st.cons.proves_le(off + L(v[1]) - n.scale(v[1])) or not st.cons.proves_le(-off):
                self.err(E, st, fr, node, 'element %r of the %s is accessed, which has %r' % (off, v[0], n), 'bounds')
            p = Ptr(('buf', base), off)
            if v[0] != 'pollables' or ci.short == 'back' or self.searching != 1 or st.g.get('m') == 1:
                return [(st, p)]
            self.nev += 1
            i = st.env[SEEN]
            if st.cons.proves_eq(off + 8 - i.scale(8)):
                return [(st, p)]                # again
            if not st.cons.proves_eq(off - i.scale(8)):
                self.err(E, st, fr, node, 'the element at %r is looked at after the first %r' % (off, i), 'skip')
            a, b = self.fork(st)
            a.g['m'] = 1
            a.env[MATCH] = i
            b.env[SEEN] = i + 1
            return [(a, p), (b, p)]
        if ci.short == 'operator-' and (ci.fn == '__gnu_cxx::operator-' or 'iterator' in str(ci.cls)):
            xs = ([(None, ci.obj)] if ci.obj is not None else []) + list(zip(node['c'], ci.args))
            xs = [y if y.__class__ is Ptr and y.base == self.pb else E.load(st, y, 'iterator') for c, y in xs]
            if len(xs) == 2 and all(y.__class__ is Ptr and y.base == self.pb for y in xs):
                for k in [st.env[SEEN]] + ([st.env[MATCH]] if MATCH in st.env else []):
                    if st.cons.proves_eq(xs[0].off - xs[1].off - k.scale(8)):
                        return [(st, k)]
        if v and ci.short in ('push_back', 'emplace_back'):
            a = ci.args[0] if ci.args else None
            what = '?'
            if v[0] == 'pollables':
                y = a
                if y.__class__ is Ptr and y != P and st.g.get('new') != str(y.base):
                    y = E.load(st, y, 'stored::Pollable *')
                what = 'match' if y == P else 'new' if y.__class__ is Ptr and st.g.get('new') == str(y.base) else '?'
            elif v[0] == 'items':
                what = 'match' if a.__class__ is Ptr and st.g.get('init') == str(a.base) else '?'
            else:
                return None
            self.log(st, v[0][0], 'push', what)
            return None
        if v and v[0] != 'result' and ci.short == 'pop_back':
            self.log(st, v[0][0], 'pop')
            return None
        if v and v[0] != 'result' and ci.short == 'clear':
            self.log(st, v[0][0], 'clear')
            return None
        if v and v[0] != 'result' and ci.short == 'erase':
            y = E.iter_val(st, fr, node['c'][-1], ci.args[0])
            if y.__class__ is Ptr and y.base in (self.pb, self.ib) and len(ci.args) == 1:
                self.log(st, v[0][0], 'erase', self.tok(E, st, v, y.off))
            else:
                self.log(st, v[0][0], 'erase', '?')
            return None
        if ci.short == 'operator=' and ci.obj.__class__ is Ptr and ci.obj.base == self.ib and ci.args and ci.args[0].__class__ is Ptr:
            s = ci.args[0]
            vi = self.vecs[self.ib[1]]
            self.log(st, 'i', 'set', self.tok(E, st, vi, ci.obj.off), self.tok(E, st, vi, s.off) if s.base == self.ib else '?')
            return [(st, ci.obj)]
        if self.mine(ci, 'init', 2):
            p, it = ci.args[0], E.as_ptr(st, ci.args[1], None)
            if p != P:
                self.err(E, st, fr, node, 'another pollable is initialized', 'init')
            a, b = self.fork(st)
            a.env[RC] = E.fresh('errno', None, None, None, 1, 4095)
            a.g['rc'] = 1
            b.g['init'] = str(it.base)
            self.nev += 1
            return [(a, a.env[RC]), (b, Z)]
        if self.mine(ci, 'deinit', 2):
            p, it = E.as_ptr(st, ci.args[0], None), E.as_ptr(st, ci.args[1], None)
            self.deinit(E, st, fr, node, p, it)
            return [(st, Z)]
        return None

    def deinit(self, E, st, fr, node, p, it):
        ok = p == P and it.base == self.ib and self.is_match(st, it.off, self.vecs[self.ib[1]][1])
        self.log(st, 'd', 'match' if ok else '?')


def poller(ctx, R, short, n, cls='stored::InheritablePoller<>', pick=None):
    m = model('std', ['poller'])
    reset_atoms()
    fs = [f for f in own_methods(m, cls, short, n) if pick is None or pick(f)]
    ctx.need(fs, '%s::%s' % (cls, short))
    f = fs[0]
    r = R(m, f)
    E = PollEngine(m, r)
    fl = {}
    for c, x in m.fields(cls):
        if c == cls and kind(unq(x['t'])) == 'vector':
            fl[x['n']] = unq(targs(unq(x['t']))[0])
    this = ('this', cls)
    r.vecs = {}
    for name, t in fl.items():
        k = 'pollables' if t.endswith('*') else 'result' if 'Result' in t else 'items'
        if short_is_items(t):
            k = 'items'
        r.vecs[('fld', this, name)] = (k, sizeof(t) or 1)
    names = sorted(v[0] for v in r.vecs.values())
    ctx.need(names == ['items', 'pollables', 'result'], 'the lists of ' + cls)
    st, _, args = start(E, f)
    by = {v[0]: b for b, v in r.vecs.items()}
    r.pb, r.ib, r.rb = ('buf', by['pollables']), ('buf', by['items']), ('buf', by['result'])
    nn = E.fresh('n', None, None, None, 0, NMAX)
    E.set_size(st, by['pollables'], nn)
    E.set_size(st, by['items'], nn)
    r.nn = nn
    r.keep = [nn]
    st.env[SEEN] = Z
    r.by = by
    return m, r, E, st, this, args, f


def short_is_items(t):
    return 'pollitem' in t.lower() or t == 'pollfd'


def finish(ctx, r, E, outs, what):
    ctx.need(outs and r.nev, 'the operations of ' + r.f.name)
    ctx.count('exit_states', len(outs))
    ctx.count('obligations', r.n + r.nev)
    ctx.cover('functions', [fdef(r.m.fns[i]) for i in E.stats['functions'] if i in r.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], what, x['msg'], x['via'], x['trace'])


def per(log, w):
    return tuple(x[1:] for x in log if x[0] == w)


def lists_remove(ctx):
    m, r, E, st, this, args, f = poller(ctx, Lists, 'remove', 1)
    r.searching = 1
    outs = E.exec_fn(f, st, None, ('root',), [P], this, this)
    good = ((('set', 'match', 'last'), ('pop',)), (('erase', 'match'),), (('set', 'match', 'match'), ('pop',)))
    for s, v in outs:
        r.n += 1
        v = E.lin(s, v)
        log = s.g.get('log', ())
        if s.g.get('m') == 1:
            p, i, d = per(log, 'p'), per(log, 'i'), per(log, 'd')
            if p not in good or p != i or d != (('match',),) or [x[0] for x in log].index('d'):
                r.err(E, s, None, None, 'the pollable and its item are removed by %s, %s, %s' % (p, i, d), 'removal')
            if not s.cons.proves_eq(v):
                r.err(E, s, None, None, 'removal of a pollable returns %r' % v, 'ret')
        else:
            if log:
                r.err(E, s, None, None, 'a pollable that is not registered changes the lists by %s' % (log,), 'none')
            if not s.cons.proves_le(r.nn - s.env[SEEN]):
                r.err(E, s, None, None, 'only the first %r of %r pollables are searched' % (s.env[SEEN], r.nn), 'search')
            if not s.cons.proves_ne(v):
                r.err(E, s, None, None, 'removing a pollable that is not registered succeeds', 'ret')
    finish(ctx, r, E, outs, 'lists')


def lists_add(ctx):
    m, r, E, st, this, args, f = poller(ctx, Lists, 'add', 1, pick=lambda f: 'initializer_list' not in f.params[0]['t'])
    r.searching = 0
    outs = E.exec_fn(f, st, None, ('root',), [P], this, this)
    for s, v in outs:
        r.n += 1
        v = E.lin(s, v)
        log = s.g.get('log', ())
        if s.g.get('rc'):
            if log or not s.cons.proves_eq(v - s.env[RC]):
                r.err(E, s, None, None, 'a pollable that cannot be initialized: lists change by %s, result %r' % (log, v), 'fail')
        elif per(log, 'p') != (('push', 'match'),) or per(log, 'i') != (('push', 'match'),) or per(log, 'd') or not s.cons.proves_eq(v):
            r.err(E, s, None, None, 'a pollable and its item are added by %s, %s, result %r' % (per(log, 'p'), per(log, 'i'), v), 'add')
    finish(ctx, r, E, outs, 'lists')


class Clear(Lists):
    def element(self, E, st, loc):
        if loc.base == self.pb:
            return Ptr(('at', loc.off), Z)
        return None

    def deinit(self, E, st, fr, node, p, it):
        self.nev += 1
        es = self.vecs[self.ib[1]][1]
        k = st.env[SEEN]
        if st.g.get('log') or it.base != self.ib or not st.cons.proves_eq(it.off - k.scale(es)) or p.base[0] != 'at' or not st.cons.proves_eq(p.base[1] - k.scale(8)):
            self.err(E, st, fr, node, 'item %r is released with pollable %r after %r others' % (it, p, k), 'order')
        st.env[SEEN] = k + 1


def lists_clear(ctx):
    m, r, E, st, this, args, f = poller(ctx, Clear, 'clear', 0)
    r.searching = 0
    outs = E.exec_fn(f, st, None, ('root',), [], this, this)
    for s, v in outs:
        r.n += 1
        if not s.cons.proves_eq(s.env[SEEN] - r.nn):
            r.err(E, s, None, None, '%r of %r items are released' % (s.env[SEEN], r.nn), 'release')
        for k in ('pollables', 'items'):
            if not s.cons.proves_eq(E.size(s, r.by[k])):
                r.err(E, s, None, None, 'the list of %s is not empty' % k, 'empty')
    finish(ctx, r, E, outs, 'lists')


class DoPoll(Lists):
    def call(self, E, st, fr, node, ci):
        if self.mine(ci, 'doPoll', 2):
            self.nev += 1
            if st.g.get('done'):
                self.err(E, st, fr, node, 'polls twice', 'twice')
            st.g['done'] = 1
            if not st.cons.proves_eq(E.lin(st, ci.args[0]) - self.tmo):
                self.err(E, st, fr, node, 'polls with timeout %r' % E.lin(st, ci.args[0]), 'tmo')
            it = ci.args[1]
            if it.__class__ is not Ptr or it.base != self.by['items'] or it.off != Z:
                self.err(E, st, fr, node, 'polls something else than the items', 'items')
            if not st.cons.proves_eq(E.size(st, self.by['result'])):
                self.err(E, st, fr, node, 'the result of the last poll is kept', 'stale')
            a, b = self.fork(st)
            a.env[RC] = E.fresh('errno', None, None, None, 1, 4095)
            b.env[RC] = Z
            out = []
            for s in (a, b):
                z = E.fresh('events', None, None, None, 0, NMAX)
                E.set_size(s, self.by['result'], z)
                s.g['rc'] = 1 if s is a else 0
                s.env[LEFT] = z
                out.append((s, s.env[RC]))
            return out
        return None


def poll_result(ctx):
    m, r, E, st, this, args, f = poller(ctx, DoPoll, 'poll', 1)
    r.searching = 0
    r.tmo = E.lin(st, args[0])
    E.set_size(st, r.by['result'], E.fresh('old', None, None, None, 0, NMAX))
    r.keep = [r.nn, r.tmo]
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        r.n += 3
        z = E.size(s, r.by['result'])
        e = E.lin(s, E.load(s, Ptr(ERRNO, Z), 'int', 32, False))
        if v.__class__ is not Ptr or v.base != r.by['result']:
            r.err(E, s, None, None, 'something else than the result is returned', 'ret')
        if not s.g.get('done'):
            r.err(E, s, None, None, 'nothing is polled', 'nopoll')
        elif s.g.get('rc') != 0:
            if not s.cons.proves_eq(z) or not s.cons.proves_eq(e - s.env[RC]):
                r.err(E, s, None, None, 'polling fails with %r, but the result has size %r and errno is %r' % (s.env[RC], z, e), 'fail')
        else:
            if not s.cons.proves_eq(z - s.env[LEFT]):
                r.err(E, s, None, None, '%r events are reported as %r' % (s.env[LEFT], z), 'lost')
            for s2 in E.assume(s.copy(), B('le', L(1) - z)):
                if not s2.cons.proves_eq(e):
                    r.err(E, s2, None, None, 'errno is %r although there are events' % e, 'errno')
            for s2 in E.assume(s.copy(), B('eq', z)):
                if not s2.cons.proves_ne(e):
                    r.err(E, s2, None, None, 'errno is %r although there are no events' % e, 'errno0')
    finish(ctx, r, E, outs, 'poll')


class Event(Lists):
    def call(self, E, st, fr, node, ci):
        v = self.vec(E, ci)
        if v and v[0] == 'result' and ci.short in ('push_back', 'emplace_back'):
            self.nev += 1
            a = ci.args[0] if ci.args else None
            if st.g.get('pushed'):
                self.err(E, st, fr, node, 'reports a pollable twice', 'twice')
            st.g['pushed'] = 1
            ok = a.__class__ is Ptr and self.same(E, st, a)
            if not ok:
                self.err(E, st, fr, node, 'reports something else than the events of the pollable', 'what')
            return None
        return Lists.call(self, E, st, fr, node, ci)

    def same(self, E, st, a):
        b = E.objbase(a)
        f = [x for c, x in self.m.fields(self.rtype)]
        if not f:
            y = E.load(st, a, 'stored::Pollable *')
            return y == P
        ok = True
        for x in f:
            loc = Ptr(('fld', b, x['n']), Z)
            t = unq(x['t'])
            if 'Pollable' in t:
                ok &= E.as_ptr(st, E.load(st, loc, x['t']), None) == P
            elif t.endswith('*'):
                ok &= E.as_ptr(st, E.load(st, loc, x['t']), None) == E.as_ptr(st, E.load(st, Ptr(('fld', P.base, x['n']), Z), x['t']), None)
            else:
                ok &= st.cons.proves_eq(E.lin(st, E.load(st, loc, x['t'], 64, True)) - self.word(E, st, x['n']))
        return ok

    def word(self, E, st, n):
        p = Ptr(('fld', P.base, n), Z) if n == 'events' else None
        f = p if p else self.param(st)
        return st.env.get(('ghost', 'bits:%r' % (f,)), L(-1))

    def param(self, st):
        for k in st.env:
            if k[0] == 'ghost' and k[1].__class__ is str and k[1].startswith('bits:') and 'events' not in k[1]:
                return _R(k[1][5:])
        return None


class _R:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def event(ctx):
    m, r, E, st, this, args, f = poller(ctx, Event, 'event', 2)
    r.searching = 0
    rt = [x for c, x in m.fields('stored::InheritablePoller<>') if kind(unq(x['t'])) == 'vector' and r.by['result'][2] == x['n']]
    t = unq(targs(unq(rt[0]['t']))[0])
    r.rtype = t
    E.basetype[P.base] = 'stored::Pollable'
    i = [k for k, p in enumerate(f.params) if p.get('w') == 64]
    ctx.need(len(i) == 1, 'the index parameter of event()')
    idx = E.fresh('index', 'unsigned long', 64, True, 0, NMAX)
    st.cons.add_le(idx + 1 - r.nn)
    args[i[0]] = idx
    b = ('arg', 'revents')
    E.basetype[b] = unq(f.params[1 - i[0]]['t'])
    args[1 - i[0]] = Ptr(b, Z)
    st.env[MATCH] = idx
    st.g['m'] = 1
    r.keep = [r.nn, idx]
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        r.n += 2
        d = Ptr(('fld', P.base, 'revents'), Z)
        k = ('fld', E.objbase(d), '#from')
        src = s.env.get(k)
        if src is None or r.param(s) is None or repr(src) != repr(r.param(s)):
            r.err(E, s, None, None, 'the events are not stored in the pollable', 'store')
            continue
        w = s.env.get(('ghost', 'bits:%r' % (src,)))
        n = w is not None and s.cons.proves_eq(w)
        y = w is not None and s.cons.proves_le(L(1) - w)
        if s.g.get('pushed') and not y or not s.g.get('pushed') and not n:
            r.err(E, s, None, None, 'a pollable is %sreported when its events are %r' % ('' if s.g.get('pushed') else 'not ', w), 'when')
        if s.g.get('log'):
            r.err(E, s, None, None, 'an event changes the lists', 'lists')
    finish(ctx, r, E, outs, 'event')


# ------------------------------------------------------------ polling
POLLBITS = {'IN': 0, 'OUT': 1, 'ERR': 2, 'PRI': 3, 'HUP': 4}       # Pollable::PollInIndex...
ZMQ = {1: 'IN', 2: 'OUT', 4: 'ERR'}
POSIX = {1: 'IN', 4: 'OUT', 8: 'ERR', 2: 'PRI', 16: 'HUP'}


def evbits(m):
    """The bits of the events, by name."""
    e = m.enums.get('stored::Pollable::Index') if hasattr(m, 'enums') else None
    return POLLBITS


class Native(Poll):
    """The items are polled by the operating system: each has some events, or none."""
    def element(self, E, st, loc):
        if self.inbuf(loc) and loc.base[2] == 'revents' and st.g.get('cls') is not None and self.off(loc) == st.env.get(CUR):
            return L(st.g['cls'])
        return None

    def inbuf(self, loc):
        b = loc.base
        return b[0] == 'fld' and (b[1] == self.ib or b[1][0] == 'elem' and b[1][1] == self.ib)

    def off(self, loc):
        b = loc.base[1]
        return b[2] if b[0] == 'elem' else Z

    def touch(self, E, st, fr, node, off):
        """An item is looked at: it has some of the possible events."""
        es = self.es
        if st.env.get(CUR) == off and st.g.get('cls') is not None:
            return [st]
        if st.g.get('cls'):
            self.err(E, st, fr, node, 'the events %d of an item are not reported' % st.g['cls'], 'skipped')
        k = st.env[SEEN]
        if not st.cons.proves_eq(off - k.scale(es)):
            self.err(E, st, fr, node, 'the item at %r is looked at after %r others' % (off, k), 'order')
        if not st.cons.proves_le(off + es - self.nn.scale(es)):
            self.err(E, st, fr, node, 'an item is looked at at %r of %r' % (off, self.nn), 'bounds')
        out = []
        for c in self.classes:
            s = st.copy()
            s.g['cls'] = c
            s.env[CUR] = off
            s.env[SEEN] = k + 1
            if c:
                s.env[LEFT] = s.env[LEFT] - 1
                s.cons.add_le(-s.env[LEFT])
            else:
                s.cons.add_le(s.env[LEFT] + s.env[SEEN] - self.nn)
            if not s.cons.bot:
                out.append(s)
        return out

    def call(self, E, st, fr, node, ci):
        x = self.index(E, st, fr, node, ci)
        if x is not None:
            p = Ptr(('buf', self.ib[1]), x[1])
            return [(s, p) for s in self.touch(E, st, fr, node, x[1])]
        if ci.fn.lstrip(':') in ('zmq_poll', 'poll'):
            self.nev += 1
            d, n, t = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1]), E.lin(st, ci.args[2])
            if st.g.get('polled'):
                self.err(E, st, fr, node, 'polls twice', 'twice')
            st.g['polled'] = 1
            if d != Ptr(self.ib, Z) or not st.cons.proves_eq(n - self.nn):
                self.err(E, st, fr, node, 'polls %r items at %r of %r' % (n, d, self.nn), 'all')
            if not st.cons.proves_eq(t - self.tmo):
                self.err(E, st, fr, node, 'polls with timeout %r' % t, 'tmo')
            a, b = self.fork(st)
            a.env[RC] = E.fresh('errno', None, None, None, 1, 4095)
            a.env[ERRNO] = a.env[RC]
            a.g['rc'] = 1
            z = E.fresh('events', None, None, None, 0, NMAX)
            b.cons.add_le(z - self.nn)
            b.env[LEFT] = z
            b.g['rc'] = 0
            return [(a, L(-1)), (b, z)]
        if self.mine(ci, 'event', 2):
            self.nev += 1
            v = [x for x in ci.args if x.__class__ is Ptr]
            i = [x for x in ci.args if x.__class__ is not Ptr]
            b = self.bits(E, st, v[0]) if v else None
            i = E.lin(st, i[0]) if i else L(-1)
            c = st.g.get('cls')
            if c is None or not st.cons.proves_eq(i.scale(self.es) - st.env[CUR]):
                self.err(E, st, fr, node, 'an event is reported for item %r, which is not looked at, or again' % i, 'which')
            else:
                want = sum(1 << POLLBITS[self.map[k]] for k in self.map if c & k)
                if b is None or not b.const or b.c != want:
                    self.err(E, st, fr, node, 'events %d of an item are reported as %r instead of %d' % (c, b, want), 'map')
            st.g.pop('cls', None)
            return [(st, Z)]
        return None


class LoopNative(Native):
    """Every item is polled by a function; it reports events, or nothing, or fails."""
    big = 0

    def at_head(self, E, st, fr, b, body):
        # the outer loop: the next round may start
        self.big = max(self.big, len(body))
        if len(body) == self.big and st.g.get('full') == 1:
            st.g['full'] = 2
        return None

    def element(self, E, st, loc):
        if loc.base == self.ib:
            return Ptr(('at', loc.off), Z)
        return None

    def call(self, E, st, fr, node, ci):
        x = self.index(E, st, fr, node, ci)
        if x is not None:
            return [(st, Ptr(self.ib, x[1]))]
        if ci.short == 'poll_once':
            self.nev += 1
            p = ci.args[0]
            k = st.env[SEEN]
            if st.g.get('cls'):
                self.err(E, st, fr, node, 'the events of an item are not reported', 'skipped')
            if st.g.pop('full', 0):
                # the next round
                if st.g.get('res') or st.g.get('any'):
                    self.err(E, st, fr, node, 'polls again although there is something to report', 'again')
                if not st.cons.proves_le(self.tmo + 1):
                    self.err(E, st, fr, node, 'polls again although it must not wait', 'wait')
            if p.__class__ is not Ptr or p.base[0] != 'at' or not st.cons.proves_eq(p.base[1] - k.scale(8)):
                self.err(E, st, fr, node, '%r is polled after %r others' % (p, k), 'order')
            out = []
            full = self.nn - k - 1
            for kind_, rv, bit, more in [x + (y,) for x in ((0, 0, 5), (0, 0, 0), (1, 11, None), (2, None, None)) for y in (0, 1)]:
                s = st.copy()
                s.cons.add_le(L(1) - full if more else full)
                if s.cons.bot:
                    continue
                if not more:
                    s.g['full'] = 1
                s.env[SEEN] = k + 1 if more else Z
                s.env[CUR] = k
                if kind_ == 0:
                    self.setbits(E, s, ci.args[1], bit)
                    s.g['cls'] = 'any' if bit else 'none'
                    if bit:
                        s.g['any'] = 1
                    out.append((s, L(rv)))
                elif kind_ == 1:
                    out.append((s, L(rv)))
                else:
                    s.g['res'] = 1
                    e = E.fresh('errno', None, None, None, 12, 4095)
                    if RC not in s.env:
                        s.env[RC] = e
                    out.append((s, e))
            return out
        if self.mine(ci, 'event', 2):
            self.nev += 1
            v = [x for x in ci.args if x.__class__ is Ptr]
            i = [x for x in ci.args if x.__class__ is not Ptr]
            b = self.bits(E, st, v[0]) if v else None
            i = E.lin(st, i[0]) if i else L(-1)
            c = st.g.pop('cls', None)
            if c is None or not st.cons.proves_eq(i - st.env[CUR]):
                self.err(E, st, fr, node, 'an event is reported for item %r, which is not polled' % i, 'which')
            elif b is None or not b.const or b.c != (5 if c == 'any' else 0):
                self.err(E, st, fr, node, 'other events are reported than those polled', 'map')
            return [(st, Z)]
        return None


def native(ctx, cls, map_, extra, R=Native):
    m = model('std', ['poller'])
    reset_atoms()
    fs = own_methods(m, cls, 'doPoll', 2)
    ctx.need(fs, cls + '::doPoll')
    f = fs[0]
    r = R(m, f)
    E = PollEngine(m, r)
    st, this, args = start(E, f)
    v = [k for k, p in enumerate(f.params) if p.get('isref')]
    ctx.need(len(v) == 1, 'the items of ' + f.name)
    base = args[v[0]].base
    et = unq(targs(unq(f.params[v[0]]['t'].rstrip('& ')))[0])
    r.es = sizeof(et) or {'zmq_pollitem_t': 16, 'pollfd': 8}.get(et, 8)
    r.vecs = {base: ('items', r.es)}
    r.ib = ('buf', base)
    r.map = map_
    r.nn = E.fresh('n', None, None, None, R is LoopNative, NMAX)
    E.set_size(st, base, r.nn)
    r.tmo = E.lin(st, args[1 - v[0]])
    st.env[SEEN] = Z
    st.env[LEFT] = Z
    st.env[CUR] = L(-1)
    bits = list(map_) + extra
    r.classes = [0]
    for b in bits:
        r.classes += [x | b for x in r.classes]
    r.keep = [r.nn, r.tmo]
    r.K = 4 * len(r.classes) + 20
    st.g['res'] = 0
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        r.n += 1
        v = E.lin(s, v)
        if R is LoopNative:
            if s.g.get('cls'):
                r.err(E, s, None, None, 'the events of an item are not reported', 'skipped')
            if s.g.get('full') != 1 and not s.cons.proves_eq(r.nn):
                r.err(E, s, None, None, 'only %r of %r items are polled' % (s.env[SEEN], r.nn), 'all')
            if s.g.get('res'):
                ok = s.cons.proves_ne(v)
            elif s.g.get('any'):
                ok = s.cons.proves_eq(v)
            else:
                ok = s.cons.proves_eq(v - 11)
            if not ok:
                r.err(E, s, None, None, 'returns %r after %s' % (v, 'an error' if s.g.get('res') else 'events' if s.g.get('any') else 'nothing'), 'ret')
            continue
        if s.g.get('rc') != 0:
            if not s.g.get('polled') or not s.cons.proves_eq(v - s.env[RC]):
                r.err(E, s, None, None, 'returns %r when polling fails' % v, 'fail')
            continue
        if s.g.get('cls'):
            r.err(E, s, None, None, 'the events %d of an item are not reported' % s.g['cls'], 'skipped')
        if not s.cons.proves_le(s.env[LEFT]):
            r.err(E, s, None, None, '%r items with events are not looked at' % s.env[LEFT], 'left')
        if not s.cons.proves_eq(v):
            r.err(E, s, None, None, 'returns %r although polling succeeds' % v, 'ret')
    finish(ctx, r, E, outs, 'poll')


# ------------------------------------------------------------ what is polled for
class Init(Poll):
    def call(self, E, st, fr, node, ci):
        if ci.short == 'staticType':
            return [(st, Ptr(('type', ci.fn.rsplit('::', 1)[0]), Z))]
        if ci.short == 'type' and not ci.args:
            return [(st, Ptr(('type', self.type), Z))]
        if ci.short in ('operator==', 'operator!=') and 'type_info' in ci.fn:
            x = [ci.obj] + list(ci.args) if ci.obj is not None else list(ci.args)
            self.nev += 1
            return [(st, L(int((x[0] == x[1]) == (ci.short == 'operator=='))))]
        if ci.short in ('fd', 'socket', 'fd_r') and not ci.args:
            v = self.fd if ci.short == 'fd' else self.sock
            return [(st, v)]
        if (ci.cls or '').startswith('std::bitset') and ci.obj.__class__ is Ptr and 'events' in str(ci.obj):
            self.setbits(E, st, ci.obj, self.events)
            return self.bitset(E, st, fr, node, ci)
        return None

    def bits(self, E, st, p):
        if 'events' in str(p) and 'revents' not in str(p) and "'p'" in str(p):
            return L(self.events)
        return Poll.bits(self, E, st, p)


def init(ctx, cls, map_, types):
    m = model('std', ['poller'])
    bad = {v: k for k, v in map_.items()}
    for T, what in types:
        for ev in range(32):
            reset_atoms()
            fs = own_methods(m, cls, 'init', 2)
            ctx.need(fs, cls + '::init')
            f = fs[0]
            r = Init(m, f)
            r.type, r.events = T, ev
            E = PollEngine(m, r)
            st, this, args = start(E, f)
            r.fd = E.fresh('fd', 'int', 32, False, 0, (1 << 31) - 1)
            r.sock = Ptr(('ghost', 'sock'), Z)
            pb, ib = args[0].base, args[1].base
            want = None
            outs = E.exec_fn(f, st, None, ('root',), args, this, this)
            for s, v in outs:
                r.n += 1
                v = E.lin(s, v)
                if what is None:
                    if not s.cons.proves_ne(v):
                        r.err(E, s, None, None, 'accepts %s, which cannot be polled' % T, 'type')
                    continue
                if not s.cons.proves_eq(v):
                    r.err(E, s, None, None, 'does not accept %s' % T, 'type')
                    continue
                g = lambda n, t, w: E.load(s, Ptr(('fld', ib, n), Z), t, w, False)
                fd = E.lin(s, g('fd', 'int', 32))
                if what == 'fd':
                    ok = s.cons.proves_eq(fd - E.lin(s, E.load(s, Ptr(('fld', pb, 'fd'), Z), 'int', 32, False)))
                elif what == 'layerfd':
                    ok = s.cons.proves_eq(fd - r.fd)
                else:
                    ok = True
                if cls == 'stored::ZmqPoller':
                    k = E.as_ptr(s, g('socket', 'void *', None), None)
                    if what == 'socket':
                        ok = k == E.as_ptr(s, E.load(s, Ptr(('fld', pb, 'socket'), Z), 'void *'), None)
                    elif what == 'layersocket':
                        ok = k == r.sock
                    else:
                        ok = ok and k.base == NULLB
                if not ok:
                    r.err(E, s, None, None, 'polls something else than the %s of a %s' % (what, T), 'what')
                e = E.lin(s, g('events', 'short', 16))
                # errors are always reported, and cannot be asked for
                want = sum(bad.get(n, 0) for n, b in POLLBITS.items() if ev >> b & 1 and n != 'ERR')
                free = sum(bad.get(n, 0) for n in ('ERR', 'HUP'))
                if not e.const or (e.c ^ want) & ~free:
                    r.err(E, s, None, None, 'events %d are polled as %r instead of %d' % (ev, e, want), 'events')
            finish(ctx, r, E, outs, 'init')


TYPES = [('stored::PollableFd', 'fd'), ('stored::PollableFileLayer', 'layerfd')]
ZTYPES = TYPES + [('stored::PollableZmqSocket', 'socket'), ('stored::PollableZmqLayer', 'layersocket')]
NONE = [('stored::PollableCallbackBase', None)]


# ------------------------------------------------------------ objects that a poller creates
class Own(Lists):
    """What is created for a descriptor is registered, kept, and deleted together."""
    def element(self, E, st, loc):
        if loc.base == self.pb:
            if self.is_match(st, loc.off, 8):
                return P
            return LAST
        return None

    def ev(self, st, *x):
        st.g['ev'] = st.g.get('ev', ()) + (x,)
        self.nev += 1

    def name(self, st, p):
        return 'old' if p == P else 'new' if p.__class__ is Ptr and st.g.get('new') == str(p.base) else '?'

    def on_new(self, E, st, fr, node, ptr):
        if st.g.get('new'):
            self.err(E, st, fr, node, 'creates two objects', 'new2')
        st.g['new'] = str(ptr.base)
        st.g['newb'] = ptr.base

    def on_delete(self, E, st, fr, node, ptr):
        self.ev(st, 'delete', self.name(st, E.as_ptr(st, ptr, None)))

    def call(self, E, st, fr, node, ci):
        if ci.short == 'find' and ci.cls == self.f.cls and len(ci.args) == 2:
            self.nev += 1
            n = E.size(st, self.pb[1])
            if 'm' in st.g and not st.g.get('log') and not st.g.get('ev'):
                return [(st, Ptr(self.pb, (st.env[MATCH] if st.g['m'] == 1 else n).scale(8)))]
            if 'm' in st.g:
                self.err(E, st, fr, node, 'searches again', 'again')
            a, b = self.fork(st)
            b.g['m'] = 0
            i = E.fresh('found', None, None, None, 0, NMAX)
            a.cons.add_le(i + 1 - n)
            out = [(b, Ptr(self.pb, n.scale(8)))]
            if not a.cons.bot:
                a.env[MATCH] = i
                a.g['m'] = 1
                out.append((a, Ptr(self.pb, i.scale(8))))
            return out
        pt = node.get('pt') or ()
        if ci.short in ('add', 'remove') and len(ci.args) == 1 and pt and unq(pt[0].rstrip('& ')) == 'stored::Pollable':
            x = ci.args[0]
            nm = self.name(st, x)
            if ci.short == 'add' and nm == 'new':
                self.filled(E, st, fr, node, x)
            a, b = self.fork(st)
            self.ev(a, ci.short, nm)
            self.ev(b, ci.short + ' fails', nm)
            b.env[RC] = E.fresh('errno', None, None, None, 1, 4095)
            return [(a, Z), (b, b.env[RC])]
        if ci.short in ('operator==', 'operator!=') and '__normal_iterator' in ci.fn + str(ci.cls):
            x = [E.iter_val(st, fr, c, v) for c, v in zip(node['c'], ci.args)] if ci.obj is None else None
            if x and len(x) == 2 and x[0].__class__ is Ptr and x[1].__class__ is Ptr and x[0].base == x[1].base == self.pb:
                d = x[0].off - x[1].off
                f = B('eq', d)
                r = E.decide(st, f)
                if r is not None:
                    return [(st, L(int(r == (ci.short == 'operator=='))))]
        return Lists.call(self, E, st, fr, node, ci)

    def filled(self, E, st, fr, node, x):
        u = E.as_ptr(st, E.load(st, Ptr(('fld', x.base, 'user_data'), Z), 'void *'), None)
        if u != self.user(E, st):
            self.err(E, st, fr, node, 'the user data of the new object is not what is given', 'user')
        ok = False
        for n in ('fd', 'layer', 'socket', 'handle'):
            k = ('fld', x.base, n)
            if k in st.env:
                v = st.env[k]
                a = self.arg
                ok |= v == a or v.__class__ is Lin and a.__class__ is Lin and st.cons.proves_eq(v - a)
        if not ok:
            self.err(E, st, fr, node, 'the new object is not for what is given', 'arg')

    def user(self, E, st):
        if self.ud is not None:
            return self.ud
        return E.as_ptr(st, E.load(st, Ptr(('fld', P.base, 'user_data'), Z), 'void *'), None)


DEL = (('set', 'match', 'last'), ('pop',)), (('erase', 'match'),)
ADDED = [('add', 'new')], [('push', 'new')]


def own(ctx, short, k):
    n = {'add': 3, 'remove': 2, 'modify': 3}[short]
    m = model('std', ['poller'])
    reset_atoms()
    fs = [f for f in own_methods(m, 'stored::Poller', short, n) if f.d.get('targs')]
    ctx.need(len(fs) > k, 'Poller::%s<>' % short)
    f = fs[k]
    r = Own(m, f)
    r.searching = 0
    E = PollEngine(m, r)
    this = ('this', 'stored::Poller')
    fl = [x['n'] for c, x in m.fields('stored::Poller') if c == 'stored::Poller' and kind(unq(x['t'])) == 'vector']
    ctx.need(len(fl) == 1, 'the objects of a Poller')
    base = ('fld', this, fl[0])
    r.vecs = {base: ('pollables', 8)}
    r.pb, r.ib = ('buf', base), ('no', 'items')
    st, _, args = start(E, f)
    r.nn = E.fresh('n', None, None, None, 0, NMAX)
    E.set_size(st, base, r.nn)
    r.keep = [r.nn]
    E.basetype[P.base] = 'stored::TypedPollable'
    r.arg = args[0]
    r.ud = args[1] if short == 'add' else None
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        r.n += 1
        v = E.lin(s, v)
        lst = per(s.g.get('log', ()), 'p')
        ev = s.g.get('ev', ())
        found = s.g.get('m') == 1
        if short != 'add' and not found:
            if lst or ev or not s.cons.proves_ne(v):
                r.err(E, s, None, None, 'what is not registered: %s, %s, result %r' % (ev, lst, v), 'none')
            continue
        if short == 'remove':
            rm = [x for x in ev if x[0].startswith('remove')]
            ok = len(rm) == 1 and rm[0][1] == 'old' and [x for x in ev if x[0] == 'delete'] == [('delete', 'old')] and ev.index(rm[0]) < ev.index(('delete', 'old')) and lst in DEL
            ok = ok and (s.cons.proves_eq(v) if rm[0][0] == 'remove' else s.cons.proves_ne(v))
            if rm and rm[0][0] != 'remove' and not ok:
                ok = s.cons.proves_ne(v) and not lst and len(ev) == 1     # refusing is fine too
            if not ok:
                r.err(E, s, None, None, 'removal: %s, %s, result %r' % (ev, lst, v), 'remove')
            continue
        added = ('add', 'new') in ev
        failed = ('add fails', 'new') in ev
        rest = tuple(x for x in ev if x[1] != 'new')
        mine = tuple(x for x in ev if x[1] == 'new')
        push = [x for x in lst if x[0] == 'push']
        if short == 'modify':
            rm = [x for x in rest if x[0].startswith('remove')]
            if rm and rm[0][0] != 'remove':
                if not s.cons.proves_ne(v):
                    r.err(E, s, None, None, 'removal fails, but %r is returned' % v, 'rmfail')
                continue
            if rest != (('remove', 'old'), ('delete', 'old')) or tuple(x for x in lst if x[0] != 'push') not in DEL:
                r.err(E, s, None, None, 'the old registration: %s, %s' % (rest, lst), 'old')
        elif rest:
            r.err(E, s, None, None, 'something else is changed: %s' % (rest,), 'rest')
        if added:
            ok = mine == (('add', 'new'),) and len(push) == 1 and push[0][1] == 'new' and s.cons.proves_eq(v)
        elif failed:
            ok = mine == (('add fails', 'new'), ('delete', 'new')) and not push and s.cons.proves_ne(v)
        else:
            ok = False
        if not ok:
            r.err(E, s, None, None, 'the new registration: %s, %s, result %r' % (mine, lst, v), 'new')
    finish(ctx, r, E, outs, 'own')


class Find(Own):
    """The first object of the right type for which the comparison holds."""
    def element(self, E, st, loc):
        if loc.base == self.pb:
            return Ptr(('at', loc.off), Z)
        return None

    def call(self, E, st, fr, node, ci):
        if ci.short == 'staticType':
            return [(st, Ptr(('type', 'T'), Z))]
        if ci.short == 'type' and not ci.args:
            o = ci.obj
            k = st.env[SEEN]
            if o.base[0] != 'at' or not st.cons.proves_eq(o.base[1] - k.scale(8)):
                self.err(E, st, fr, node, '%r is looked at after %r others' % (o, k), 'order')
            a, b = self.fork(st)
            b.env[SEEN] = k + 1
            self.nev += 1
            a.g['t'] = 1
            a.g.pop('c', None)
            return [(a, Ptr(('type', 'T'), Z)), (b, Ptr(('type', 'U'), Z))]
        if ci.short in ('operator==', 'operator!=') and 'type_info' in ci.fn:
            x = [ci.obj] + list(ci.args) if ci.obj is not None else list(ci.args)
            return [(st, L(int((x[0] == x[1]) == (ci.short == 'operator=='))))]
        if ci.short == 'operator()' and len(ci.args) == 2:
            k = st.env[SEEN]
            p, y = ci.args
            if p.__class__ is not Ptr or p.base[0] != 'at' or not st.cons.proves_eq(p.base[1] - k.scale(8)) or st.g.pop('t', 0) != 1:
                self.err(E, st, fr, node, 'compares something else', 'cmp')
            y0 = self.arg
            if y != y0 and not (y.__class__ is Lin and st.cons.proves_eq(y - y0)):
                self.err(E, st, fr, node, 'compares with something else', 'cmpto')
            a, b = self.fork(st)
            a.g['m'] = 1
            a.env[MATCH] = k
            b.env[SEEN] = k + 1
            return [(a, L(1)), (b, Z)]
        return None


def find(ctx, k):
    m = model('std', ['poller'])
    reset_atoms()
    fs = own_methods(m, 'stored::Poller', 'find', 2)
    ctx.need(len(fs) > k, 'Poller::find<>')
    f = fs[k]
    r = Find(m, f)
    E = PollEngine(m, r)
    this = ('this', 'stored::Poller')
    fl = [x['n'] for c, x in m.fields('stored::Poller') if c == 'stored::Poller' and kind(unq(x['t'])) == 'vector']
    base = ('fld', this, fl[0])
    r.vecs = {base: ('pollables', 8)}
    r.pb, r.ib = ('buf', base), ('no', 'items')
    st, _, args = start(E, f)
    r.nn = E.fresh('n', None, None, None, 0, NMAX)
    E.set_size(st, base, r.nn)
    r.keep = [r.nn]
    st.env[SEEN] = Z
    r.arg = args[0]
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        r.n += 1
        if s.g.get('m') == 1:
            ok = v.__class__ is Ptr and v.base == r.pb and MATCH in s.env and s.cons.proves_eq(v.off - s.env[MATCH].scale(8))
        else:
            ok = v.__class__ is Ptr and v.base == r.pb and s.cons.proves_eq(v.off - r.nn.scale(8)) and s.cons.proves_eq(s.env[SEEN] - r.nn)
        if not ok:
            r.err(E, s, None, None, 'returns %r' % (v,), 'ret')
    finish(ctx, r, E, outs, 'find')


def compare(ctx):
    m = model('std', ['poller'])
    fs = [f for f in m.fns.values() if f.short == 'operator()' and f.cls and f.cls.startswith('stored::Poller::compare')]
    ctx.need(fs, 'the comparisons of Poller')
    for f in fs:
        cls = unq(f.params[0]['t'].rstrip('& '))
        vt = f.params[1]
        fl = [x for c, x in m.fields(cls) if c == cls]
        ctx.need(len(fl) == 1, 'the member of ' + cls)
        for eq in (1, 0):
            reset_atoms()
            r = Poll(m, f)
            r.nev = 1
            E = PollEngine(m, r)
            st, this, args = start(E, f)
            loc = Ptr(('fld', args[0].base, fl[0]['n']), Z)
            if vt.get('w'):
                x = E.load(st, loc, fl[0]['t'], vt['w'], vt.get('u'))
                for s in E.assume(st, B('eq' if eq else 'ne', E.lin(st, x) - E.lin(st, args[1]))):
                    st = s
            else:
                v = args[1] = Ptr(('new', 'arg'), Z)
                E.store(st, loc, v if eq else Ptr(('new', 'another'), Z), fl[0]['t'])
            outs = E.exec_fn(f, st, None, ('root',), args, this, this)
            for s, v in outs:
                r.n += 1
                if E.decide(s, E.truth(s, v)) is not bool(eq):
                    r.err(E, s, None, None, 'does not tell whether a pollable is for what is given', 'compare')
            finish(ctx, r, E, outs, 'compare')


def p24(ctx):
    ctx.rule('lists: the item and the pollable are added and removed together, at the same place, and released once')
    ctx.rule('poll: the result holds the events of this poll; errno is 0 if and only if there are any')
    ctx.rule('event: the events are stored in the pollable at that index, which is reported if and only if there are any')

    ctx.rule('own: what is created for a descriptor, socket or layer is registered, kept, and deleted together')
    ctx.rule('doPoll: all items are polled, and exactly the events of every item are reported for it; init: exactly the events that are asked for are polled')

    def job(c, j):
        j[0](c, *j[1:])
    jobs = [(own, x, k) for x in ('add', 'remove', 'modify') for k in range(4)] + [(find, k) for k in range(4)] + [(compare,)]
    pmap(ctx, job, jobs + [(lists_remove,), (lists_add,), (lists_clear,), (poll_result,), (event,),
                    (native, 'stored::ZmqPoller', ZMQ, [8]), (native, 'stored::PollPoller', POSIX, [32]), (native, 'stored::LoopPoller', {}, [], LoopNative),
                    (init, 'stored::ZmqPoller', ZMQ, ZTYPES + NONE), (init, 'stored::PollPoller', POSIX, TYPES + NONE + [(ZTYPES[2][0], None)])])
