"""FIFOs: which slots are accessed, when they are published, and what is in them."""
from common import *
from frames import None_fr
from hooks import eqv, done
import re, engine

engine.SIZES['drv::Elem'] = 12     # a type of the driver
engine.SIZES['drv::Item'] = 8
engine.SIZES['std::basic_string_view<char>'] = 16

BUF = ('buf', ('fifo',))
SIZE = ('ghost', 'size')
DONE = ('ghost', 'done')
ACQ, REL = (2, 4, 5), (3, 4, 5)
QUERY = ('empty', 'available', 'available_chunk', 'view')
ROOM = ('space', 'full')


def isatomic(cls):
    return bool(cls) and (cls.startswith('std::atomic<') or cls.startswith('std::__atomic_base<'))


def div(v, k):
    """v / k, when that is integral."""
    if v.c % k or any(x % k for _, x in v.t):
        return None
    return Lin(v.c // k, tuple((a, x // k) for a, x in v.t))


class Mem(Rule):
    """Access to the atomic pointers and the buffer of a FIFO."""
    maxdepth = 10
    K = 30
    strong = False

    def __init__(self, m, cls, es, n=None):
        self.m, self.cls, self.es, self.nconst = m, cls, es, n
        self.this = None
        self.n = 0
        self.loads = []     # (field, order, node, frame)
        self.stores = []
        self.locs = {}
        self.copyof = {}

    def bad(self, E, fr, node, st, msg):
        E.report(fr, node, msg, st, key=msg[:40])

    def size(self, st):
        return L(self.nconst) if self.nconst else st.env[SIZE]

    def mine(self, base):
        """The buffer of the object under analysis, or of a view on it."""
        while base and base[0] in ('fld', 'elem'):
            base = base[1]
        return base == self.this or base in self.bufs

    bufs = ()
    il = False

    def roots(self, st):
        return [k for k in st.env if k[0] == 'ghost' or (k[0] == 'fld' and k[1] == self.this)]

    def pre_call(self, E, st, fr, node, ci):
        s, a = ci.short, ci.args
        if isatomic(ci.cls) and ci.obj.__class__ is Ptr and ci.obj.base[0] == 'fld' and ci.obj.base[1] == self.this:
            return self.atomic(E, st, fr, node, ci)
        k = kind(ci.cls) if ci.cls else None
        if k in ('array', 'vector') and ci.obj.__class__ is Ptr and self.mine(ci.obj.base) and node['k'] != 'ctor':
            sz = self.size(st)
            if s in ('operator[]', 'at'):
                i = E.lin(st, a[0])
                self.n += 1
                return [(x, Ptr(BUF, i.scale(self.es))) for x in self.fork(E, st)]
            if s in ('data', 'begin', 'cbegin', 'front'):
                return [(st, Ptr(BUF, Z))]
            if s in ('end', 'cend'):
                return [(st, Ptr(BUF, sz.scale(self.es)))]
            if s in ('size', 'max_size') and (s == 'size' or k == 'array'):
                return [(st, sz)]
            if s == 'empty':
                return [(st, B('le', sz))]
            if s == 'resize' and self.nconst is None:
                n = E.lin(st, a[0])
                self.resized(E, st, fr, node, n)
                st.env[SIZE] = n
                return [(st, Z)]
        if ci.fn in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy', '__builtin_memmove'):
            d, p, nb = E.as_ptr(st, a[0], None), E.as_ptr(st, a[1], None), E.lin(st, a[2])
            if d.base == BUF and p.base == BUF:
                if st.cons.proves_eq(nb):
                    return [(st, d)]
                if 'memcpy' in ci.fn and not st.cons.proves_le(d.off + nb - p.off) and not st.cons.proves_le(p.off + nb - d.off):
                    self.bad(E, fr, node, st, 'overlapping items are copied, without allowing for the overlap')
                self.moved(E, st, fr, node, d.off, p.off, nb)
                return [(st, d)]
            if d.base == BUF:
                self.range(E, st, fr, node, d.off, nb)
                self.wrote(E, st, fr, node, d.off, nb, p)
                return [(st, d)]
            if p.base == BUF:
                self.range(E, st, fr, node, p.off, nb)
                self.copied(E, st, fr, node, d, p, nb)
                return [(st, d)]
            return None
        if node['k'] == 'ctor' and node.get('cpy') and a and a[0].__class__ is Ptr:
            self.copyof[ci.obj.base] = a[0]
        if ci.obj.__class__ is Ptr and ci.obj.base == BUF:
            if s == 'operator=' or node['k'] == 'ctor':
                p = a[0] if a and a[0].__class__ is Ptr else None
                self.range(E, st, fr, node, ci.obj.off, L(self.es))
                if p is not None and p.base == BUF:
                    self.moved(E, st, fr, node, ci.obj.off, p.off, L(self.es))
                else:
                    self.wrote(E, st, fr, node, ci.obj.off, L(self.es), p)
                return [(st, ci.obj)]
            if s.startswith('~') or s == '(dtor)':
                return [(st, Z)]
        elif s == 'operator=' and len(a) == 1 and a[0].__class__ is Ptr and a[0].base == BUF and ci.obj.__class__ is Ptr:
            self.copied(E, st, fr, node, ci.obj, a[0], L(self.es))
            return [(st, ci.obj)]
        return self.more(E, st, fr, node, ci)

    def more(self, E, st, fr, node, ci):
        return None

    def atomic(self, E, st, fr, node, ci):
        s, a, loc = ci.short, ci.args, ci.obj
        t = targ0(ci.cls)
        f = loc.base[2]
        w = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get(t, 64)

        def order(i):
            return a[i].c if len(a) > i and a[i].__class__ is Lin and a[i].const else 5
        if s == 'load' or s.startswith('operator ') or s == 'conv':
            self.loads.append((f, order(0) if s == 'load' else 5, node, fr))
            return [(st, E.load(st, loc, t, w, True))]
        if s in ('store', 'operator=', 'exchange', 'fetch_add', 'fetch_sub'):
            v = E.lin(st, a[0])
            old = E.load(st, loc, t, w, True)
            if s.startswith('fetch'):
                v = E.cast(st, old + v if s == 'fetch_add' else old - v, t, w, True)
            self.n += 1
            self.stores.append((f, order(1) if s != 'operator=' else 5, node, fr))
            self.publish(E, st, fr, node, f, old, v, self.stores[-1][1])
            E.store(st, loc, v, t, w, True)
            return [(st, v if s == 'operator=' else old)]
        E.report(fr, node, 'the pointer is accessed in an unknown way: ' + s, st)
        return [(st, Z)]

    # events
    def fork(self, E, st):
        return [st]

    def publish(self, E, st, fr, node, f, old, v, order):
        pass

    def resized(self, E, st, fr, node, n):
        pass

    def moved(self, E, st, fr, node, d, s, nb):
        self.bad(E, fr, node, st, 'items in the buffer are moved')

    def wrote(self, E, st, fr, node, off, nb, src):
        self.bad(E, fr, node, st, 'an item is overwritten')

    def copied(self, E, st, fr, node, d, src, nb):
        pass

    def range(self, E, st, fr, node, off, nb):
        end = self.size(st).scale(self.es)
        if not st.cons.proves_le(-off) or not st.cons.proves_le(off + nb - end):
            self.bad(E, fr, node, st, 'the buffer is accessed out of its bounds')

    def on_access(self, E, st, fr, node, ptr, nb, write, what):
        if ptr.__class__ is Ptr and ptr.base == BUF:
            self.range(E, st, fr, node, ptr.off, nb)

    def on_load(self, E, st, fr, node, loc, val):
        if val.__class__ is not Lin:
            return
        self.locs.setdefault(val, [])
        if loc not in self.locs[val]:
            self.locs[val].append(loc)

    def on_store(self, E, st, fr, node, loc, val):
        if loc.__class__ is not Ptr or node.get('k') == 'decl':
            return
        if loc.base == BUF:
            c = val if val.__class__ is Lin else None
            ls = self.locs.get(c, ())
            for p in ls:
                if p.base == BUF:
                    self.moved(E, st, fr, node, loc.off, p.off, L(self.es))
                    return
            self.wrote(E, st, fr, node, loc.off, L(self.es), ls)
        elif val.__class__ is Lin and loc.base[0] not in ('loc', 'tmp'):
            for p in self.locs.get(val, ()):
                if p.base == BUF:
                    self.copied(E, st, fr, node, loc, p, L(self.es))
                    return

    def on_new(self, E, st, fr, node, ptr):
        if ptr.__class__ is Ptr and ptr.base == BUF:
            iv = E.get(st, fr, node['c'][0]) if node['c'][0] else None
            self.range(E, st, fr, node, ptr.off, L(self.es))
            if iv.__class__ is Lin:
                self.wrote(E, st, fr, node, ptr.off, L(self.es), self.locs.get(iv, ()))
            elif iv.__class__ is Ptr and iv != ptr:
                self.wrote(E, st, fr, node, ptr.off, L(self.es), self.copyof.get(iv.base, iv))


class Items(Mem):
    """One call of a function of Fifo."""

    def setup(self, E, st, this, rp, wp, split, count=None):
        self.this, self.rpf, self.wpf = this, rp, wp
        self.RP, self.WP = ('fld', this, rp), ('fld', this, wp)
        N = L(self.nconst) if self.nconst else None
        t = 'unsigned char' if self.nconst and self.nconst < 256 else 'unsigned long'
        if N is None:
            N = st.env[SIZE] = E.fresh('size', None, None, None, 0, 1 << 40)
        r = E.load(st, Ptr(self.RP, Z), t, 8 if t == 'unsigned char' else 64, True)
        w = E.load(st, Ptr(self.WP, Z), t, 8 if t == 'unsigned char' else 64, True)
        self.r0, self.w0, self.N = r, w, N
        st.env[self.RP], st.env[self.WP] = r, w
        hi = N - 1 if self.nconst else N
        for v in (r, w):
            st.cons.add_le(-v)
            st.cons.add_le(v - hi)
        if split:
            st.cons.add_le(w - r + 1)
            self.avail = w - r + N
        else:
            st.cons.add_le(r - w)
            self.avail = w - r
        st.env[DONE] = Z
        self.count = count
        self.src = None

    def more(self, E, st, fr, node, ci):
        if ci.short == 'move' and 'drv::Item' in self.cls and len(ci.args) == 4 and 'buffer_ops<' in ci.fn:
            # decided by run_move()
            d, s, n = [E.lin(st, x).scale(self.es) for x in ci.args[1:]]
            self.moved(E, st, fr, node, d, s, n)
            return [(st, Z)]
        return None

    def need_room(self, st, count, wrap):
        """There is room, and the slots to write do or do not pass the end."""
        self.count = count
        st.cons.add_le(-count)
        if self.nconst:
            st.cons.add_le(self.avail + count - (self.N - 1))
            st.cons.add_le(self.N - self.w0 - count if wrap else self.w0 + count - self.N + 1)
        else:
            st.cons.add_le(count - L(1 << 40))

    def pos(self, st):
        """Where the next item is to be written."""
        p = st.env[self.WP] + st.env[DONE]
        if self.nconst and st.g.get('w'):
            p = p - self.N
        return p

    def fork(self, E, st):
        if self.count is not None and self.es > 1:
            d = st.env[DONE] - self.count
            if st.cons.proves(d + 1):
                st.cons.add_le(d + 1)
        if not self.nconst or st.g.get('w') or self.count is None or st.g.get('pub'):
            return [st]
        p = st.env[self.WP] + st.env[DONE]
        out = []
        s2 = st.copy()
        for s_, f, w in ((st, B('le', p - self.N + 1), 0), (s2, B('le', self.N - p), 1)):
            if s2.cons.proves(p - self.N + 1 if w else self.N - p):
                continue
            for x in E.assume(s_, f):
                if not x.cons.bot:
                    if w:
                        x.g['w'] = 1
                    self.settle(x)
                    out.append(x)
        return out

    def settle(self, st):
        """Values modulo the size that are known by now."""
        for k, v in list(st.env.items()):
            if v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1:
                q = ATOMS[v.t[0][0]].key
                if q and q[0] == 'mod':
                    if st.cons.proves(q[1] - (q[2] - 1)):
                        st.env[k] = q[1] + v.c
                    elif st.cons.proves_le(L(q[2]) - q[1]) and st.cons.proves_le(q[1] - (2 * q[2] - 1)):
                        st.env[k] = q[1] - q[2] + v.c

    def at_head(self, E, st, fr, b, body):
        return self.fork(E, st)

    def templates(self, E, env):
        if self.count is None or DONE not in env or self.WP not in env:
            return
        p = env[self.WP] + env[DONE]
        for k, v in env.items():
            if k[0] == 'loc' and v.__class__ is Lin and v.t:
                for d in (p - v, p - v - self.N) if self.nconst else (p - v,):
                    yield d
                    yield -d
            elif k[0] == 'loc' and v.__class__ is Ptr and v.off.t and (v.base == self.src.base or v.base[0] == 'buf'):
                d = v.off - env[DONE].scale(self.es) - (Z if self.il else self.src.off)
                yield d
                yield -d
                yield d + (env[DONE] - self.count).scale(self.es)

    def wrote(self, E, st, fr, node, off, nb, src):
        self.n += 1
        if self.count is None:
            return self.bad(E, fr, node, st, 'an item is overwritten')
        if st.g.get('pub'):
            return self.bad(E, fr, node, st, 'an item is written after it was published')
        if not st.cons.proves_eq(off - self.pos(st).scale(self.es)):
            self.bad(E, fr, node, st, 'an item is not written at the next free slot')
        k = div(nb, self.es)
        if k is None:
            return self.bad(E, fr, node, st, 'part of an item is written')
        if not st.cons.proves_le(st.env[DONE] + k - self.count):
            self.bad(E, fr, node, st, 'more items are written than were given')
        want = Ptr(self.src.base, self.src.off + st.env[DONE].scale(self.es))
        if src.__class__ is Ptr:
            src = (src,)
        if self.il and src:
            # the list is passed by value
            src = [Ptr(want.base, x.off) for x in src if x.base[0] == 'buf' and 'initializer_list' in (E.basetype.get(x.base[1]) or '')]
        if not src or not any(eqv(st, E, x, want) for x in src):
            self.bad(E, fr, node, st, 'another value is written than was given')
        st.env[DONE] = st.env[DONE] + k

    def moved(self, E, st, fr, node, d, s, nb):
        if self.nconst or self.count is None or st.g.get('mv') or not st.cons.proves_eq(st.env[DONE]):
            return self.bad(E, fr, node, st, 'items in the buffer are moved')
        self.n += 1
        w, r = st.env[self.WP], st.env[self.RP]
        if not (st.cons.proves_eq(s - r.scale(self.es)) and st.cons.proves_eq(nb - (w - r).scale(self.es))):
            self.bad(E, fr, node, st, 'not exactly the items that are in the FIFO are moved')
        self.range(E, st, fr, node, d, nb)
        self.range(E, st, fr, node, s, nb)
        st.g['mv'] = 1
        st.env[('ghost', 'mvto')] = div(d, self.es) or Z
        st.env[('ghost', 'mvn')] = w - r

    def resized(self, E, st, fr, node, n):
        if not st.cons.proves_le(st.env[self.WP] - n):
            self.bad(E, fr, node, st, 'items are lost as the buffer becomes smaller')

    def publish(self, E, st, fr, node, f, old, v, order):
        if st.g.get('pub'):
            return self.bad(E, fr, node, st, 'the pointers are changed after the items were published')
        if self.nconst is None and (f == self.rpf or not st.cons.proves_eq(st.env[DONE] - self.count if self.count is not None else Z)):
            st.g['rel'] = 1
            return      # moving to the start of the buffer
        if f == self.wpf:
            if self.count is None:
                if self.nconst:
                    self.bad(E, fr, node, st, 'the consumer moves the pointer of the producer')
                return
            for x in self.fork(E, st.copy()):
                if not x.cons.proves_eq(v - self.pos(x)):
                    self.bad(E, fr, node, st, 'other items are published than were written')
            if not st.cons.proves_eq(st.env[DONE] - self.count):
                self.bad(E, fr, node, st, 'not all items are published that were given')
            st.g['pub'] = 1
        elif self.count is not None:
            self.bad(E, fr, node, st, 'the producer moves the pointer of the consumer')


def elem(cls):
    t = targs(cls)
    return t[0]


def order_check(ctx, E, r, f, ts, queries=True):
    if not ts:
        return
    if queries and f.short.startswith(QUERY) or f.short.startswith('operator Buffer'):
        for x, o, node, fr in r.loads:
            if x == r.wpf and o not in ACQ:
                E.report(fr, node, 'items may be read before they were written, as the pointer is not acquired', None)
    if queries and f.short in ROOM:
        for x, o, node, fr in r.loads:
            if x == r.rpf and o not in ACQ:
                E.report(fr, node, 'items may be overwritten before they were read, as the pointer is not acquired', None)
    for x, o, node, fr in r.stores:
        if o not in REL:
            E.report(fr, node, 'the pointer is not released after the access to the items', None)


def fifos(m):
    """(class, element type, item size, slots, thread-safe)"""
    out = []
    for c in sorted(m.records):
        g = re.match(r'stored::Fifo<(uint8_t|drv::Elem|drv::Item), (\d+), (true|false)>$', c)
        if g:
            cap = int(g.group(2))
            es = {'uint8_t': 1, 'drv::Elem': 12, 'drv::Item': 8}[g.group(1)]
            out.append((c, g.group(1), es, cap + 1 if cap else None, g.group(3) == 'true'))
    return out


def roles(m, ctx, cls, es, n):
    """The fields that hold the read and write pointers."""
    fs = [x['n'] for x in m.records[cls]['fields'] if isatomic(x['t'].replace('struct ', ''))]
    ctx.need(len(fs) == 2, 'two atomic pointers in ' + cls)
    if 'm_rp' in fs and 'm_wp' in fs:
        return 'm_rp', 'm_wp'
    f = [x for x in m.fns.values() if x.cls == cls and x.short == 'pop_front'][0]
    reset_atoms()
    r = Mem(m, cls, es, n)
    E = Engine(m, r)
    st, r.this, args = start(E, f)
    st.env[SIZE] = E.fresh('size', None, None, None, 0, 1 << 40)
    list(E.exec_fn(f, st, None, ('root',), args, r.this, r.this))
    fr = {x[0] for x in r.stores}
    ctx.need(len(fr) == 1, 'the pointer that pop_front() moves')
    rp = fr.pop()
    return rp, [x for x in fs if x != rp][0]


ITEM = ('front', 'peek', 'operator[]')


def run_fifo(ctx, cfg, cls, et, es, n, ts, short):
    m = model(cfg, ['d_fifo'])
    rp, wp = roles(m, ctx, cls, es, n)
    fs = [f for f in m.fns.values() if f.cls == cls and f.short == short and f.d.get('acc') != 'protected']
    for f in fs:
        for split in ((0, 1) if n else (0,)):
            push = short in ('push_back', 'emplace_back')
            for wrap in ((0, 1) if n and (push or short in ITEM) else (0,)):
                for case in ((0, 1) if short in ('empty', 'full', 'space') else (0,)):
                    one(ctx, m, f, cls, es, n, ts, rp, wp, split, wrap, case)


def one(ctx, m, f, cls, es, n, ts, rp, wp, split, wrap, case):
    reset_atoms()
    r = Items(m, cls, es, n)
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.setup(E, st, this, rp, wp, split)
    s, p = f.short, [x['t'] for x in f.params]
    N, av = r.N, r.avail
    post = None

    def bad(x, msg):
        E.report(None_fr(f), None, msg, x)
    if s in ('push_back', 'emplace_back'):
        if len(p) == 1 and 'initializer_list' in p[0]:
            il = args[0].base
            r.il = True
            r.src = Ptr(('buf', il), Z)
            cnt = E.size(st, il)
        elif len(p) == 1:
            cnt, r.src = L(1), args[0]
        elif p[1] == 'unsigned long':
            cnt, r.src = args[1], args[0]
        else:
            return None if split or wrap else repeated(ctx, m, f, es)
        r.need_room(st, cnt, wrap)

        def post(x, v):
            w, q = x.env[r.WP], x.env[r.RP]
            if not x.g.get('pub'):
                if not x.cons.proves_eq(cnt):
                    bad(x, 'the items are not published')
            elif n and not (x.cons.proves_eq(q - r.r0) and x.cons.proves_eq(w - r.w0 - cnt + (N if wrap else Z))):
                bad(x, 'the number of items in the FIFO does not increase by the number that was given')
            elif not n:
                if not x.cons.proves_eq(w - q - av - cnt):
                    bad(x, 'the number of items in the FIFO does not increase by the number that was given')
                if not x.cons.proves_eq(q - r.r0) and not x.cons.proves_eq(av) and not (x.g.get('mv') and x.cons.proves_eq(q - x.env[('ghost', 'mvto')])):
                    bad(x, 'the items that were in the FIFO are lost')
                if not x.cons.proves_le(w - r.size(x)):
                    bad(x, 'the pointers are out of the bounds of the buffer')
    elif s == 'pop_front':
        cnt = args[0] if p else L(1)
        st.cons.add_le(-cnt)
        st.cons.add_le(cnt - av)

        def post(x, v):
            w, q = x.env[r.WP], x.env[r.RP]
            if n:
                ok = x.cons.proves_eq(w - r.w0) and (x.cons.proves_eq(q - r.r0 - cnt) and x.cons.proves_le(q - N + 1) or x.cons.proves_eq(q - r.r0 - cnt + N) and x.cons.proves_le(-q))
            else:
                ok = x.cons.proves_eq(w - q - av + cnt) and (x.cons.proves_eq(q - r.r0 - cnt) or x.cons.proves_eq(av - cnt)) and x.cons.proves_le(w - r.size(x))
            if not ok:
                bad(x, 'not exactly the given number of items is removed from the front')
    elif s == 'clear':
        def post(x, v):
            w, q = x.env[r.WP], x.env[r.RP]
            if not x.cons.proves_eq(w - q) or n and not x.cons.proves_eq(w - r.w0):
                bad(x, 'the FIFO is not empty after clear()')
    else:
        def unchanged(x):
            return not r.stores or x.cons.proves_eq(x.env[r.WP] - r.w0) and x.cons.proves_eq(x.env[r.RP] - r.r0)
        want = {'available': av, 'size': N}.get(s)
        if n:
            want = {'space': N - 1 - av}.get(s, want)
        cond = None
        if s == 'empty':
            cond = av
        elif s == 'full' and n:
            cond = N - 1 - av
        if cond is not None:
            st.cons.add_le(-cond + 1 if case else cond)
        if s in ITEM:
            o = args[0] if p else Z
            st.cons.add_le(-o)
            st.cons.add_le(o - av + 1)
            if n:
                st.cons.add_le(N - r.r0 - o if wrap else r.r0 + o - N + 1)

        def post(x, v):
            if not unchanged(x):
                bad(x, 'the pointers of the FIFO are changed by a query')
            if s == 'available_chunk':
                c = E.lin(x, v)
                y = x.copy()
                y.cons.add_le(-av + 1)
                if not (x.cons.proves_le(c - av) and x.cons.proves_le(r.r0 + c - N) and (y.cons.bot or y.cons.proves_le(-c + 1))):
                    bad(x, 'the chunk that is available is wrong')
            elif cond is not None:
                # empty or full exactly when there are no items or slots
                if not decided(E, x, v, not case):
                    bad(x, '%s() is wrong' % s)
            elif s in ITEM:
                i = r.r0 + o
                if v.__class__ is not Ptr or v.base != BUF or not (
                        x.cons.proves_eq(v.off - i.scale(es)) and x.cons.proves_le(i - r.size(x) + 1)
                        or n and x.cons.proves_eq(v.off - (i - N).scale(es)) and x.cons.proves_le(N - i)):
                    bad(x, 'another item is returned than the one at that position')
            elif want is not None:
                if not x.cons.proves_eq(E.lin(x, v) - want):
                    bad(x, '%s() is wrong' % s)
    k = 0
    if st.cons.bot or st.cons.proves_le(L(1)):
        return      # there is no such case
    for x, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if not x.cons.bot:
            k += 1
            post(x, v)
    order_check(ctx, E, r, f, ts and n)
    ctx.count('paths', k)
    done(ctx, E, r)


def decided(E, x, v, want):
    """Whether v is want in all of x."""
    return E.decide(x, E.truth(x, v)) is bool(want)


class Each(Rule):
    """A range of which every item is pushed once, in order."""
    maxdepth = 6
    K = 20

    def __init__(self, es, count, src, stops=False):
        self.es, self.count, self.src, self.stops = es, count, src, stops
        self.n = 0
        self.this = None

    def roots(self, st):
        return [k for k in st.env if k[0] == 'ghost']

    def templates(self, E, env):
        if DONE not in env:
            return
        for k, v in env.items():
            if k[0] == 'loc' and v.__class__ is Ptr and v.off.t and (v.base == self.src.base or v.base[0] == 'buf'):
                d = v.off - env[DONE].scale(self.es) - (self.src.off if v.base == self.src.base else Z)
                yield d
                yield -d
                yield d + (env[DONE] - self.count).scale(self.es)
            elif k[0] == 'loc' and v.__class__ is Lin and v.t:
                yield v - env[DONE]
                yield env[DONE] - v
        yield env[DONE] - self.count

    def pre_call(self, E, st, fr, node, ci):
        if ci.obj.__class__ is Ptr and ci.obj.base == self.this and ci.short in ('push_back', 'emplace_back') and len(ci.args) == 1:
            self.n += 1
            p = ci.args[0]
            want = self.src.off + st.env[DONE].scale(self.es)
            if p.__class__ is not Ptr or not (p.base == self.src.base or p.base[0] == 'buf' and 'initializer_list' in (E.basetype.get(p.base[1]) or '')) or not st.cons.proves_eq(p.off - want):
                E.report(fr, node, 'items of the range are not pushed once and in order', st)
            if st.g.get('stop'):
                E.report(fr, node, 'items are pushed after one was refused', st)
            st.cons.add_le(st.env[DONE] - self.count + 1)
            if self.stops:
                s2 = st.copy()
                s2.g['stop'] = 1
                st.env[DONE] = st.env[DONE] + 1
                return [(st, L(1)), (s2, Z)]
            st.env[DONE] = st.env[DONE] + 1
            return [(st, Z)]
        return None


def repeated(ctx, m, f, es, stops=False, init=False):
    reset_atoms()
    E = Engine(m, None)
    r = E.rule = Each(es, None, None, stops)
    st, r.this, args = start(E, f)
    if init:
        il = args[0].base
        r.src, r.count = Ptr(('buf', il), Z), E.size(st, il)
    else:
        r.count = E.fresh('count', None, None, None, 0, 1 << 40)
        r.src = args[0]
        args[1] = Ptr(r.src.base, r.src.off + r.count.scale(es))
    st.env[DONE] = Z
    n = 0
    for x, v in E.exec_fn(f, st, None, ('root',), args, r.this, r.this):
        if x.cons.bot:
            continue
        n += 1
        if not x.g.get('stop') and not x.cons.proves_eq(x.env[DONE] - r.count):
            E.report(None_fr(f), None, 'not all items of the range are pushed', x)
        if stops and not x.cons.proves_eq(E.lin(x, v) - x.env[DONE]):
            E.report(None_fr(f), None, 'not the number of items is returned that were pushed', x)
    ctx.need(n, 'paths through ' + f.name)
    done(ctx, E, r)


class Seen(Mem):
    """Reading a buffer through a view."""

    def setup(self, E, st, split):
        t = 'unsigned char' if self.nconst and self.nconst < 256 else 'unsigned long'
        w = 8 if self.nconst and self.nconst < 256 else 64
        if self.nconst is None:
            st.env[SIZE] = E.fresh('size', None, None, None, 0, 1 << 40)
        self.N = N = self.size(st)
        f, to = E.fresh('from', t, w, True), E.fresh('to', t, w, True)
        hi = N - 1 if self.nconst else N
        for v in (f, to):
            st.cons.add_le(-v)
            st.cons.add_le(v - hi)
        if split:
            st.cons.add_le(to - f + 1)
            self.len = to - f + N
        else:
            st.cons.add_le(f - to)
            self.len = to - f
        self.frm, self.to = f, to
        st.env[DONE] = Z
        self.buf = ('arg', 'buffer')
        E.basetype[self.buf] = targ0(self.cls)
        self.bufs = (self.buf,)
        self.dst = None

    def view(self, E, st, base):
        """Constructs the view on base."""
        f = [x for x in E.m.fns.values() if x.cls == self.cls and x.short == '(ctor)' and len(x.params) == 3]
        if not f:
            raise Broken('anchor vanished: the constructor of ' + self.cls)
        E.basetype[base] = self.cls
        return [s for s, _ in E.exec_fn(f[0], st, None, ('view',), [Ptr(self.buf, Z), self.frm, self.to], base, base)]

    def at(self, st, off, i):
        """Whether off is where item i of the view is."""
        p = self.frm + i
        return st.cons.proves_eq(off - p.scale(self.es)) and st.cons.proves_le(p - self.N + 1) or \
            st.cons.proves_eq(off - (p - self.N).scale(self.es)) and st.cons.proves_le(self.N - p)

    def templates(self, E, env):
        if self.dst is None or DONE not in env:
            return
        for k, v in env.items():
            if k[0] == 'loc' and v.__class__ is Lin and v.t:
                for d in (env[DONE] - v, env[DONE] - v - self.N + self.frm, env[DONE] - v + self.frm):
                    yield d
                    yield -d
            elif k[0] == 'loc' and v.__class__ is Ptr and v.off.t:
                for d in (v.off - env[DONE].scale(self.es), v.off - (env[DONE] + self.frm).scale(self.es), v.off - (env[DONE] + self.frm - self.N).scale(self.es)):
                    yield d
                    yield -d
        yield env[DONE] - self.len

    def copied(self, E, st, fr, node, d, src, nb):
        if self.dst is None or d.base != self.dst.base:
            return
        self.n += 1
        k = div(nb, self.es)
        if k is None:
            return self.bad(E, fr, node, st, 'part of an item is copied')
        if st.cons.proves_eq(k):
            return
        if not st.cons.proves_eq(d.off - st.env[DONE].scale(self.es)) or not self.at(st, src.off, st.env[DONE]):
            self.bad(E, fr, node, st, 'another item is copied than the next one of the view')
        st.env[DONE] = st.env[DONE] + k
        if not st.cons.proves(st.env[DONE] - self.len):
            self.bad(E, fr, node, st, 'more is copied than is in the view')


def run_view(ctx, cfg, cls, es, n):
    m = model(cfg, ['d_fifo'])
    fs = {}
    for f in m.fns.values():
        if f.cls == cls:
            fs.setdefault(f.short, []).append(f)
    ctx.need(all(k in fs for k in ('size', 'operator[]', 'empty')), 'the functions of ' + cls)

    def probe(E, r, x, f, base, first, length):
        """What the view on base has."""
        for y, v in E.exec_fn(fs['size'][0], x.copy(), None, ('size',), [], base, base):
            if not y.cons.bot and not y.cons.proves_eq(E.lin(y, v) - length):
                E.report(None_fr(f), None, 'the view has another size', y)
        for y in one_item(E, x, length):
            for z, v in E.exec_fn(fs['operator[]'][0], y, None, ('item',), [r.i], base, base):
                if not z.cons.bot:
                    item(E, r, z, f, v, first + r.i)

    def one_item(E, x, length):
        y = x.copy()
        E.rule.i = E.fresh('i', 'unsigned long', 64, True)
        y.cons.add_le(E.rule.i - length + 1)
        out = []
        for s_, c in ((y, 1), (y.copy(), 0)):
            p = E.rule.frm + E.rule.i
            s_.cons.add_le(p - E.rule.N + 1 if c else E.rule.N - p)
            if not s_.cons.bot and not s_.cons.proves(L(1)):
                out.append(s_)
        return out

    def item(E, r, z, f, v, i):
        r.n += 1
        p = z.copy()
        for c in (B('le', r.frm + i - r.N + 1), B('le', r.N - r.frm - i)):
            for q in E.assume(z.copy(), c):
                if q.cons.bot or q.cons.proves(L(1)):
                    continue
                if v.__class__ is not Ptr or v.base != BUF or not r.at(q, v.off, i):
                    E.report(None_fr(f), None, 'another item is returned than the one at that position of the view', q)

    for short in sorted(fs):
        if short not in ('size', 'empty', 'operator[]', 'subview', 'lstrip', 'rstrip', 'copy', 'contiguous', 'begin'):
            continue
        for f in fs[short]:
            for split in ((0, 1) if n else (0,)):
                reset_atoms()
                r = Seen(m, cls, es, n)
                E = Engine(m, r)
                st, this, args = start(E, f)
                r.setup(E, st, split)
                r.this = this
                a = [E.lin(st, x) if x.__class__ is Lin else x for x in args]
                k = 0
                for s in r.view(E, st, this):
                    if s.cons.bot or s.cons.proves(L(1)):
                        continue
                    if short in ('size', 'operator[]'):
                        probe(E, r, s, f, this, Z, r.len)
                        k += 1
                        continue
                    if short == 'empty':
                        for c, want in ((-r.len + 1, 0), (r.len, 1)):
                            y = s.copy()
                            y.cons.add_le(c)
                            if y.cons.bot or y.cons.proves(L(1)):
                                continue
                            for x, v in E.exec_fn(f, y, None, ('root',), args, this, this):
                                k += 1
                                if not x.cons.bot and not decided(E, x, v, want):
                                    E.report(None_fr(f), None, 'empty() is wrong', x)
                        continue
                    if short in ('subview', 'lstrip', 'rstrip'):
                        for x in a:
                            s.cons.add_le(-x)
                            s.cons.add_le(x - r.len)
                        if len(a) == 2:
                            s.cons.add_le(a[0] + a[1] - r.len)
                        first = a[0] if short != 'rstrip' else Z
                        length = a[1] if len(a) == 2 else r.len - a[0]
                    if short == 'begin':
                        iterate(ctx, m, E, r, s, f, this, fs, item)
                        k += 1
                        continue
                    if short in ('copy', 'contiguous'):
                        r.dst = a[0]
                    for x, v in E.exec_fn(f, s, None, ('root',), a, this, this):
                        if x.cons.bot:
                            continue
                        k += 1
                        if short == 'subview':
                            ctx.need(v.__class__ is Ptr, 'the view of subview()')
                            probe(E, r, x, f, v.base, first, length)
                        elif short in ('lstrip', 'rstrip'):
                            probe(E, r, x, f, this, first, length)
                        elif short == 'contiguous' and v.__class__ is Ptr and v.base == BUF:
                            if not x.cons.proves_eq(v.off - r.frm.scale(es)) or not x.cons.proves_le(r.frm + r.len - r.N):
                                E.report(None_fr(f), None, 'the items that are returned are not those of the view', x)
                        elif not x.cons.proves_eq(x.env[DONE] - r.len) or short == 'contiguous' and v != r.dst:
                            E.report(None_fr(f), None, 'not all items of the view are copied', x)
                ctx.need(k, 'paths through ' + f.name)
                ctx.count('paths', k)
                done(ctx, E, r)


def iterate(ctx, m, E, r, s, f, this, fs, item):
    it = [c for c in m.records if c.startswith('stored::BufferView<') and c.endswith('::Iterator')]
    def call(x, name, base, args=()):
        for g in m.fns.values():
            if g.short == name and g.cls and g.cls.endswith('::Iterator') and key_of(g.cls) == key_of(r.cls):
                return [(y, v) for y, v in E.exec_fn(g, x, None, ('it', name), list(args), base, base) if not y.cons.bot]
        raise Broken('anchor vanished: %s of the iterator of a view' % name)

    for x, b in E.exec_fn(f, s, None, ('root',), [], this, this):
        for y, e in E.exec_fn(fs['end'][0], x, None, ('end',), [], this, this):
            if y.cons.bot:
                continue
            ctx.need(b.__class__ is Ptr and e.__class__ is Ptr, 'the iterators of a view')
            for c, want in ((-r.len + 1, 1), (r.len, 0)):
                z = y.copy()
                z.cons.add_le(c)
                if z.cons.bot or z.cons.proves(L(1)):
                    continue
                for q, v in call(z, 'operator!=', b.base, [e]):
                    if not decided(E, q, v, want):
                        E.report(None_fr(f), None, 'iterating over a view ends at another position', q)
                    if not want:
                        continue
                    for t, v in call(q.copy(), 'operator*', b.base):
                        item(E, r, t, f, v, Z)
                    q.cons.add_le(L(2) - r.len)
                    if q.cons.bot or q.cons.proves(L(1)):
                        continue
                    for t, v in call(q, 'operator++', b.base):
                        for t, v in call(t, 'operator*', b.base):
                            item(E, r, t, f, v, L(1))


def key_of(cls):
    g = re.search(r'BufferView<stored::Buffer<([^,]*), (\d+)>', cls)
    return g.group(1).replace('uint8_t', 'unsigned char'), g.group(2)


def views(m):
    out = []
    for c in sorted(m.records):
        g = re.match(r'stored::BufferView<stored::Buffer<(uint8_t|drv::Elem), (17|201)>>$', c)
        if g:
            out.append((c, sizeof(g.group(1)) or 1, int(g.group(2))))
    return out


SHORTS = ('empty', 'full', 'size', 'available', 'available_chunk', 'space', 'front', 'peek', 'operator[]', 'pop_front', 'push_back', 'emplace_back', 'clear')


class Move(Mem):
    """Moving items, one by one."""
    def templates(self, E, env):
        for k, v in env.items():
            if k[0] == 'loc' and v.__class__ is Lin and v.t:
                yield v - env[DONE]
                yield env[DONE] - v

    def moved(self, E, st, fr, node, d, s, nb):
        self.n += 1
        k = st.env[DONE]
        i = k if st.g['up'] else self.len - k - 1
        if not st.cons.proves_eq(d - (self.d + i).scale(self.es)) or not st.cons.proves_eq(s - (self.s + i).scale(self.es)):
            self.bad(E, fr, node, st, 'an item is moved to another place, or in an order that overwrites others')
        st.env[DONE] = k + 1


def run_move(ctx, cfg):
    m = model(cfg, ['d_fifo'])
    fs = [f for f in m.fns.values() if f.short == 'move' and f.cls and f.cls.startswith('stored::impl::buffer_ops<std::vector<drv::Item>')]
    ctx.need(len(fs) == 1 and len(fs[0].params) == 4, 'the function to move items')
    f = fs[0]
    for up in (1, 0):
        reset_atoms()
        r = Move(m, f.cls, 8)
        E = Engine(m, r)
        st, this, args = start(E, f)
        r.this = args[0].base
        E.basetype[r.this] = 'std::vector<drv::Item>'
        st.env[SIZE] = E.fresh('size', None, None, None, 0, 1 << 40)
        r.d, r.s, r.len = [E.lin(st, x) for x in args[1:]]
        st.cons.add_le((r.d - r.s if up else r.s - r.d) + 1)
        for x in (r.d, r.s):
            st.cons.add_le(x + r.len - st.env[SIZE])
        st.env[DONE] = Z
        st.g['up'] = up
        k = 0
        for x, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            if x.cons.bot:
                continue
            k += 1
            if not x.cons.proves_eq(x.env[DONE] - r.len):
                E.report(None_fr(f), None, 'not all items are moved', x)
        ctx.need(k, 'paths through ' + f.name)
        done(ctx, E, r)


AT = ('ghost', 'at')
MSG = ('msg',)


class Msgs(Mem):
    """One call of a function of MessageFifo."""
    wrap = None

    def setup(self, E, st, this, rf, wf, pf, case, cap):
        self.this, self.cap = this, cap
        self.rf, self.wf, self.pf = [('fld', this, x) for x in (rf, wf, pf)]
        t = 'unsigned char' if self.nconst and self.nconst < 256 else 'unsigned long'
        if self.nconst is None:
            st.env[SIZE] = E.fresh('size', None, None, None, 0, 1 << 40)
        self.N = N = self.size(st)
        vs = []
        for f in (self.rf, self.wf, self.pf):
            v = E.load(st, Ptr(f, Z), t, 8 if t == 'unsigned char' else 64, True)
            st.env[f] = v
            vs.append(v)
        self.r0, self.w0, self.p0 = vs
        for c in self.inv(case, *vs):
            st.cons.add_le(c)
        self.part = self.p0 - self.w0
        st.env[DONE] = Z
        self.src, self.len = None, Z
        st.env[('fld', MSG, 'first')] = self.m1 = E.fresh('first', None, None, None, 0, 1 << 40)
        st.env[('fld', MSG, 'second')] = self.m2 = E.fresh('second', None, None, None, 0, 1 << 40)
        st.cons.add_le(self.m1 + self.m2 - N)

    def inv(self, case, r, w, p):
        """What is known of the pointers; all of these are <= 0."""
        N = self.N
        if case == 0:
            return [-r, r - w, w - p, p - N + 1 if self.nconst else p - N]
        if case == 1:
            return [-r + 1, r - w, w - p, p - N, N - p]
        return [-w, w - p, p - r + 1, r - N]

    def holds(self, st):
        r, w, p = [st.env[x] for x in (self.rf, self.wf, self.pf)]
        self.N = self.size(st)
        return any(all(st.cons.proves(c) for c in self.inv(k, r, w, p)) for k in ((0, 1, 2) if self.nconst else (0,))) or \
            self.nconst and all(st.cons.proves(c) for c in (-r + 1, r - w, w - p, p - self.N))

    def disjoint(self, st, off, nb):
        """Whether nothing that is still to be read is there."""
        r, w = self.r0, self.w0
        return st.cons.proves_eq(nb) or st.cons.proves_eq(w - r) or \
            (st.cons.proves_le(w - off) and st.cons.proves_le(off + nb - r) if self.case == 2 else
             st.cons.proves_le(w - off) or st.cons.proves_le(off + nb - r))

    def fork(self, E, st):
        return [st]

    def publish(self, E, st, fr, node, f, old, v, order):
        pass

    def moved(self, E, st, fr, node, d, s, nb):
        self.n += 1
        if st.g.get('mv') or AT in st.env:
            self.bad(E, fr, node, st, 'data in the buffer is moved')
        if not (st.cons.proves_eq(s - self.w0) and st.cons.proves_eq(nb - self.part)):
            self.bad(E, fr, node, st, 'not exactly the data is moved of the message that is being written')
        self.range(E, st, fr, node, d, nb)
        self.range(E, st, fr, node, s, nb)
        if not self.disjoint(st, d, nb):
            self.bad(E, fr, node, st, 'a message that is not read yet is overwritten')
        st.g['mv'] = 1
        st.env[('ghost', 'mvto')] = d

    def wrote(self, E, st, fr, node, off, nb, src):
        self.n += 1
        if self.src is None:
            return self.bad(E, fr, node, st, 'data of a message is overwritten')
        if st.g.get('emp'):
            return self.bad(E, fr, node, st, 'data is written after the message was pushed')
        if not self.disjoint(st, off, nb):
            self.bad(E, fr, node, st, 'a message that is not read yet is overwritten')
        if AT not in st.env:
            st.env[AT] = off
        if not st.cons.proves_eq(off - st.env[AT] - st.env[DONE]):
            self.bad(E, fr, node, st, 'the data of a message is not written consecutively')
        want = Ptr(self.src.base, self.src.off + st.env[DONE])
        for x in (src,) if src.__class__ is Ptr else src or ():
            if eqv(st, E, x, want):
                break
        else:
            self.bad(E, fr, node, st, 'other data is written than was given')
        st.env[DONE] = st.env[DONE] + nb
        if not st.cons.proves_le(st.env[DONE] - self.len):
            self.bad(E, fr, node, st, 'more data is written than was given')

    def resized(self, E, st, fr, node, n):
        if not st.cons.proves_le(st.env[self.pf] - n):
            self.bad(E, fr, node, st, 'data is lost as the buffer becomes smaller')

    def on_load(self, E, st, fr, node, loc, val):
        if loc.base[0] == 'fld' and loc.base[1] == MSG and st.g.get('pop'):
            self.bad(E, fr, node, st, 'the administration of a message is used after it was removed')
        Mem.on_load(self, E, st, fr, node, loc, val)

    def on_throw(self, E, st, fr, node):
        if self.src is None or not st.cons.proves(L(self.cap + 1) - self.len - self.part):
            self.bad(E, fr, node, st, 'a message is refused that may fit')

    def more(self, E, st, fr, node, ci):
        b = ci.obj.base if ci.obj.__class__ is Ptr else None
        if ci.cls and kind(ci.cls) == 'basic_string_view':
            if node['k'] == 'ctor':
                a = ci.args
                if len(a) == 2:
                    E.set_size(st, b, E.lin(st, a[1]))
                    st.env[('fld', b, '#data')] = E.as_ptr(st, a[0], None)
                elif len(a) == 1 and a[0].__class__ is Ptr:
                    E.set_size(st, b, E.size(st, a[0].base))
                    st.env[('fld', b, '#data')] = st.env.get(('fld', a[0].base, '#data'), Ptr(('buf', a[0].base), Z))
                else:
                    return None
                return [(st, ci.obj)]
            if ci.short in ('data', 'begin', 'cbegin') and ('fld', b, '#data') in st.env:
                return [(st, st.env[('fld', b, '#data')])]
        if not (b and b[0] == 'fld' and b[1] == self.this and (ci.cls or '').startswith('stored::Fifo<')):
            return None
        s, a = ci.short, ci.args

        def choose(k, st):
            if k in st.g:
                return [(st, L(st.g[k]))]
            s2 = st.copy()
            st.g[k], s2.g[k] = 0, 1
            return [(st, Z), (s2, ONE)]
        self.n += 1
        if s == 'full':
            return choose('mfull', st) if self.nconst else [(st, Z)]
        if s == 'empty':
            return choose('mempty', st)
        if s in ('available', 'size', 'space'):
            k = ('ghost', 'm' + s)
            if k not in st.env:
                st.env[k] = E.fresh(s, 'unsigned long', 64, True)
            return [(st, st.env[k])]
        if s in ('front', 'peek') and (not a or st.cons.proves_eq(E.lin(st, a[0]))):
            return [(st, Ptr(MSG, Z))]
        if s == 'pop_front':
            if st.g.get('pop') or a and not st.cons.proves_eq(E.lin(st, a[0]) - 1):
                self.bad(E, fr, node, st, 'more than one message is removed')
            st.g['pop'] = 1
            return [(st, Z)]
        if s == 'clear':
            st.g['clr'] = 1
            return [(st, Z)]
        if s in ('emplace_back', 'push_back') and len(a) == (2 if s == 'emplace_back' else 1):
            if s == 'push_back':
                vs = [E.load(st, Ptr(('fld', a[0].base, x), Z), 'unsigned long', 64, True) for x in ('first', 'second')]
            else:
                pt = node.get('pt') or ['', '']
                vs = [E.load(st, x, unq(t.rstrip('& ')), None, True) if x.__class__ is Ptr else x for x, t in zip(a, pt)]
            if st.g.get('emp'):
                self.bad(E, fr, node, st, 'a message is pushed twice')
            if self.nconst and st.g.get('mfull') != 0:
                self.bad(E, fr, node, st, 'a message is pushed while there may be no room for it')
            st.g['emp'] = 1
            st.env[('ghost', 'm1')], st.env[('ghost', 'm2')] = vs
            return [(st, Z)]
        self.bad(E, fr, node, st, 'the messages are accessed in an unknown way: ' + s)
        return [(st, Z)]


def mfields(m, ctx, cls):
    """The pointers to read and write, the end of the message being written, and the queue of messages."""
    r = m.records[cls]['fields']
    at = [x['n'] for x in r if isatomic(x['t'])]
    q = [x for x in r if 'Fifo<' in x['t']]
    sc = [x['n'] for x in r if x['n'] not in at and x not in q and 'Buffer' not in x['t']]
    ctx.need(len(at) == 2 and len(q) == 1 and len(sc) == 1, 'the pointers of ' + cls)
    if 'm_rp' in at and 'm_wp' in at:
        return 'm_rp', 'm_wp', sc[0], q[0]
    f = [x for x in m.fns.values() if x.cls == cls and x.short == 'pop_front'][0]
    reset_atoms()
    x = Msgs(m, cls, 1, 64)
    E = Engine(m, x)
    st, x.this, args = start(E, f)
    list(E.exec_fn(f, st, None, ('root',), args, x.this, x.this))
    rp = {y[0] for y in x.stores}
    ctx.need(len(rp) == 1, 'the pointer that pop_front() moves')
    rp = rp.pop()
    return rp, [y for y in at if y != rp][0], sc[0], q[0]


def msgfifos(m):
    out = []
    for c in sorted(m.records):
        g = re.match(r'stored::MessageFifo<(\d+), (\d+), (true|false)>$', c)
        if g:
            n = int(g.group(1))
            out.append((c, n or None, g.group(3) == 'true'))
    return out


MSHORTS = ('empty', 'available', 'size', 'full', 'space', 'front', 'pop_front', 'push_back', 'append_back', 'reset_back', 'pop_back', 'clear')


def run_msgs(ctx, cfg, cls, n, ts, short):
    m = model(cfg, ['d_fifo'])
    fl = mfields(m, ctx, cls)
    if ts and not re.search(r'>, [1-9]\d*(, true)?>$', fl[3]['t']):
        ctx.finding(cls, cls, 'queue', 'the queue of the messages of a thread-safe FIFO is not thread-safe', None, None)
    for f in m.fns.values():
        if f.cls != cls or f.short != short or f.d.get('acc') == 'protected':
            continue
        p = [x['t'] for x in f.params]
        if short == 'push_back' and p and (len(p) == 2 and p[1] != 'unsigned long' or 'initializer_list' in p[0]):
            repeated(ctx, m, f, 16, True, len(p) == 1)
            continue
        for case in ((0, 1, 2) if n else (0,)):
            for mode in (('any', 'fits', 'not') if short == 'append_back' or short == 'push_back' and p else ('any',)):
                one_msg(ctx, m, f, cls, n, ts, fl, case, mode)


def one_msg(ctx, m, f, cls, n, ts, fl, case, mode):
    reset_atoms()
    r = Msgs(m, cls, 1, n)
    r.case = case
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.setup(E, st, this, fl[0], fl[1], fl[2], case, n - 1 if n else 1 << 60)
    s, p = f.short, [x['t'] for x in f.params]
    w0, p0, r0, part = r.w0, r.p0, r.r0, r.part
    give = s in ('append_back', 'push_back') and p

    def bad(x, msg):
        E.report(None_fr(f), None, msg, x)
    if give:
        if len(p) == 2:
            r.src, r.len = args[0], args[1]
            st.env[('ext', args[0].base)] = args[1]
        else:
            b = args[0].base
            r.src, r.len = Ptr(('buf', b), Z), E.size(st, b)
        st.cons.add_le(r.len - L(1 << 40))
    if st.cons.bot or st.cons.proves_le(L(1)):
        return
    entry = [(st, None)]
    if mode != 'any':
        sp = [x for x in m.fns.values() if x.cls == cls and x.short == 'space'][0]
        entry = []
        for x, v in E.exec_fn(sp, st, None, ('space',), [], this, this):
            if x.cons.bot:
                continue
            v = E.lin(x, v)
            x.cons.add_le(r.len - v if mode == 'fits' else v - r.len + 1)
            if not (x.cons.bot or x.cons.proves_le(L(1))):
                entry.append((x, v))
        if not n and mode == 'not':
            return
    k = 0
    for x0, sp in entry:
        for x, v in E.exec_fn(f, x0, None, ('root',), args, this, this):
            if x.cons.bot or x.cons.proves(L(1)):
                continue
            k += 1
            rr, w, p_ = [x.env[y] for y in (r.rf, r.wf, r.pf)]
            if give or s == 'push_back':
                for y, yes in ((x, 1), (x.copy(), 0)):
                    for z in E.assume(y, E.truth(y, v) if yes else negate(E.truth(y, v))):
                        if not z.cons.bot and not z.cons.proves(L(1)):
                            pushed(E, r, f, z, yes, mode, s, bool(give), bad)
                continue
            if s in ('empty', 'available', 'size', 'full', 'space', 'front'):
                if not all(x.cons.proves_eq(i - j) for i, j in ((rr, r0), (w, w0), (p_, p0))) or x.g.get('pop') or x.g.get('clr') or x.g.get('emp'):
                    bad(x, 'a query changes the FIFO')
            if s == 'empty' and not ('mempty' in x.g and decided(E, x, v, x.g['mempty'])):
                bad(x, 'empty() is wrong')
            elif s == 'available' and not x.cons.proves_eq(E.lin(x, v) - x.env.get(('ghost', 'mavailable'), L(-1))):
                bad(x, 'another number of messages is returned')
            elif s == 'size' and not x.cons.proves_eq(E.lin(x, v) - r.size(x)):
                bad(x, 'another size is returned than that of the buffer')
            elif s in ('full', 'space') and n:
                room(E, r, f, x, v, s, bad)
            elif s == 'front':
                front(ctx, E, r, x, v, bad)
            elif s == 'pop_front':
                if not x.g.get('pop'):
                    bad(x, 'the message is not removed')
                if not x.cons.proves_eq(w - w0) or not x.cons.proves_eq(p_ - p0):
                    bad(x, 'the consumer moves the pointer of the producer')
                for c, want in ((-r.m2 + 1, r.m1 + r.m2), (r.m2, r0)):
                    y = x.copy()
                    y.cons.add_le(c)
                    if not y.cons.bot and not y.cons.proves(L(1)) and not y.cons.proves_eq(rr - want):
                        bad(y, 'not exactly the space of the message is released')
            elif s in ('reset_back', 'pop_back'):
                if not (x.cons.proves_eq(rr - r0) and x.cons.proves_eq(w - w0) and x.cons.proves_eq(p_ - w0)) or x.g.get('emp'):
                    bad(x, 'not exactly the data is dropped of the message that is being written')
            elif s == 'clear':
                if not (x.cons.proves_eq(rr - w) and x.cons.proves_eq(p_ - w) and x.g.get('clr')):
                    bad(x, 'the FIFO is not empty after clear()')
                elif not r.holds(x):
                    bad(x, 'the pointers of the FIFO are inconsistent')
    ctx.count('paths', k)
    if mode == 'any':
        ctx.need(k, 'paths through ' + f.name)
    if ts:
        for x, o, node, fr in r.loads:
            if x == fl[0] and o not in ACQ and s in ('append_back', 'push_back', 'space', 'full'):
                E.report(fr, node, 'a message may be overwritten before it was read, as the pointer is not acquired', None)
        for x, o, node, fr in r.stores:
            if x == fl[0] and o not in REL and s == 'pop_front':
                E.report(fr, node, 'the space of a message may be released before it was read', None)
    done(ctx, E, r)


def room(E, r, f, x, v, s, bad):
    """The space is what append_back() accepts, which is decided there; it is none when no message can be pushed."""
    full = x.g.get('mfull')
    if full is None:
        return bad(x, 'the number of messages that fit is ignored')
    if s == 'full':
        sp = [g for g in r.m.fns.values() if g.cls == f.cls and g.short == 'space'][0]
        for y, n in E.exec_fn(sp, x.copy(), None, ('space',), [], r.this, r.this):
            for c, want in ((E.lin(y, n), 1), (L(1) - E.lin(y, n), full)):
                z = y.copy()
                z.cons.add_le(c)
                if not z.cons.bot and not z.cons.proves(L(1)) and not decided(E, z, v, want):
                    bad(z, 'full() is wrong')
    elif full and not x.cons.proves_eq(E.lin(x, v)):
        bad(x, 'there is space for data but not for a message')


def front(ctx, E, r, x, v, bad):
    if v.__class__ is not Ptr:
        return bad(x, 'another message is returned than the first one')
    t = E.basetype.get(v.base) or ''
    if 'string_view' in t:
        p = x.env.get(('fld', v.base, '#data'))
        n = E.size(x, v.base)
    else:
        p = n = None
        for g in r.m.fns.values():
            if g.cls == 'stored::Message' and g.short in ('data', 'size'):
                for y, q in E.exec_fn(g, x.copy(), None, ('msg',), [], v.base, v.base):
                    if g.short == 'data':
                        p = q
                    else:
                        n = E.lin(y, q)
    r.n += 1
    if p.__class__ is not Ptr or p.base != BUF or not x.cons.proves_eq(p.off - r.m1) or not x.cons.proves_eq(n - r.m2):
        bad(x, 'another message is returned than the first one')


def pushed(E, r, f, x, yes, mode, s, give, bad):
    rr, w, p = [x.env[y] for y in (r.rf, r.wf, r.pf)]
    le = r.len
    part = r.part
    if not r.holds(x):
        bad(x, 'the pointers of the FIFO are inconsistent')
    if not (x.cons.proves_eq(rr - r.r0) or x.cons.proves_eq(r.r0 - r.w0) and x.cons.proves_eq(part)):
        bad(x, 'the producer moves the pointer of the consumer')
    newest = x.env.get(('ghost', 'm1')) if x.g.get('emp') else w
    if not x.g.get('emp') and (x.g.get('mv') and not x.cons.proves_eq(newest - x.env[('ghost', 'mvto')]) or not x.g.get('mv') and not x.cons.proves_eq(newest - r.w0)) and not x.cons.proves_eq(part):
        bad(x, 'the data is lost of the message that is being written')
    if yes:
        if not x.cons.proves_eq(x.env[DONE] - le):
            bad(x, 'the data of a message is not written')
        if not x.cons.proves_eq(le) and (AT not in x.env or not x.cons.proves_eq(x.env[AT] + le - p)):
            bad(x, 'the data of a message is not written after that of the same message')
        if not x.cons.proves_eq(p - newest - part - le):
            bad(x, 'the message that is being written has another length')
        if s == 'push_back':
            m1, m2 = x.env.get(('ghost', 'm1')), x.env.get(('ghost', 'm2'))
            if m1 is None:
                bad(x, 'the message is not pushed')
            else:
                if not (x.cons.proves_eq(m2 - part - le) and x.cons.proves_eq(m1 + m2 - p) and x.cons.proves_eq(w - p)):
                    bad(x, 'a message is pushed with another position or length')
                if not x.cons.proves_eq(part) and not x.cons.proves_eq(m1 - (x.env[('ghost', 'mvto')] if x.g.get('mv') else r.w0)):
                    bad(x, 'the data is lost of the message that is being written')
        elif x.g.get('emp'):
            bad(x, 'a message is pushed that is not complete')
        if mode == 'not' and not (x.cons.proves_eq(r.r0 - r.w0) and x.cons.proves_eq(part)) and x.g.get('mfull') == 0:
            bad(x, 'a message is accepted while there is no space for it')
    else:
        if x.g.get('emp') or s == 'append_back' and (not x.cons.proves_eq(x.env[DONE]) or not x.cons.proves_eq(p - w - part)):
            bad(x, 'a message is refused, but the FIFO has changed')
        if mode == 'fits' and x.g.get('mfull') == 0:
            bad(x, 'a message is refused while there is space for it')
        if s == 'push_back' and not give and not x.g.get('mfull') == 1:
            bad(x, 'a message is refused while there is space for it')


FIFO = ('thefifo',)
AV = ('ghost', 'avail')


class Pop(Rule):
    """Somebody who uses a FIFO."""
    maxdepth = 10
    K = 12

    def __init__(self, m):
        self.m = m
        self.n = 0
        self.fifo = FIFO
        self.grow = True
        self.this = None

    def bad(self, E, fr, node, st, msg):
        E.report(fr, node, msg, st, key=msg[:40])

    def roots(self, st):
        return [k for k in st.env if k[0] == 'ghost' or (k[0] == 'fld' and k[1] == self.this)]

    def pre_call(self, E, st, fr, node, ci):
        if ci.obj.__class__ is Ptr and ci.obj.base == self.fifo and node['k'] != 'ctor':
            s, a = ci.short, ci.args
            self.n += 1
            if s in ('available', 'empty'):
                if s == 'available' and st.g.get('q') and self.grow:
                    # the producer may have pushed more meanwhile
                    v = E.fresh('available', 'unsigned long', 64, True)
                    st.cons.add_le(st.env[AV] - v)
                    st.env[AV] = v
                st.g['q'] = 1
                av = st.env[AV]
                return [(st, av if s == 'available' else B('le', av))]
            if s == 'front':
                st.g['fr'] = 1
                if not st.cons.proves_le(L(1) - st.env[AV]):
                    self.bad(E, fr, node, st, 'an item is read from the FIFO while it may be empty')
                t = unq(node.get('t', ''))
                if t == 'stored::Message':
                    c = [f for f in self.m.fns.values() if f.cls == t and f.short == '(ctor)' and len(f.params) == 2]
                    b = ('front',)
                    E.basetype[b] = t
                    return [(x, Ptr(b, Z)) for x, _ in E.exec_fn(c[0], st, None, ('front',), [Ptr(('data',), Z), self.len(E, st)], b, b)]
                return [(st, Ptr(('front',), Z))]
            if s == 'pop_front':
                if a and not st.cons.proves_eq(E.lin(st, a[0]) - 1):
                    self.bad(E, fr, node, st, 'another number of items is removed than one')
                if not st.cons.proves_le(L(1) - st.env[AV]):
                    self.bad(E, fr, node, st, 'an item is removed from the FIFO while it may be empty')
                self.popped(E, st, fr, node)
                st.g['fr'] = 0
                st.env[AV] = st.env[AV] - 1
                return [(st, Z)]
            return self.other(E, st, fr, node, ci)
        return self.more(E, st, fr, node, ci)

    def len(self, E, st):
        k = ('ghost', 'len')
        if k not in st.env:
            st.env[k] = E.fresh('len', 'unsigned long', 64, True)
        return st.env[k]

    def popped(self, E, st, fr, node):
        st.g['pop'] = st.g.get('pop', 0) + 1
        st.g['seen'] = st.g.get('fr')

    def other(self, E, st, fr, node, ci):
        return None

    def more(self, E, st, fr, node, ci):
        return None


def run_iter(ctx, cfg, cls):
    m = model(cfg, ['d_fifo'])
    fs = {}
    for f in m.fns.values():
        if f.cls == cls:
            fs[f.short, len(f.params)] = f
    for k in (('(ctor)', 1), ('(ctor)', 0), ('operator*', 0), ('operator++', 0), ('operator++', 1), ('operator!=', 1), ('operator==', 1)):
        ctx.need(k in fs, '%s of %s' % (k[0], cls))
    reset_atoms()
    r = Pop(m)
    E = Engine(m, r)
    st, this, args = start(E, fs['(ctor)', 1])
    r.this = this
    st.env[AV] = av = E.fresh('available', 'unsigned long', 64, True)
    E.basetype[FIFO] = targs(cls)[0]

    def call(x, name, np, args, base=this):
        ctx.count('paths', 1)
        return [(y, v) for y, v in E.exec_fn(fs[name, np], x.copy(), None, (name, np), args, base, base) if not y.cons.bot and not y.cons.proves(L(1))]
    end = ('end', cls)
    E.basetype[end] = cls
    st.g['fr'] = 0
    sts = [x for y, _ in call(st, '(ctor)', 1, [Ptr(FIFO, Z)]) for x, _ in call(y, '(ctor)', 0, [], end)]

    def ends(x, left, f):
        """Whether the iterator equals the end, exactly when nothing is left."""
        for c, want in ((L(1) - left, 0), (left, 1)):
            y = x.copy()
            y.cons.add_le(c)
            if y.cons.bot or y.cons.proves(L(1)):
                continue
            for name in ('operator==', 'operator!='):
                for z, v in call(y, name, 1, [Ptr(end, Z)]):
                    r.n += 1
                    if not decided(E, z, v, want if name == 'operator==' else not want):
                        E.report(None_fr(f), None, 'the iterator does not end when all items are popped that were available', z)
    for x in sts:
        if x.g.get('pop'):
            E.report(None_fr(fs['(ctor)', 1]), None, 'items are removed while they are not read', x)
        ends(x, av, fs['(ctor)', 1])
        x.cons.add_le(L(1) - av)
        f = fs['operator*', 0]
        for y, v in call(x, 'operator*', 0, []):
            if not y.g['fr'] or y.g.get('pop') or v.__class__ is not Ptr or v.base != ('front',):
                E.report(None_fr(f), None, 'another item is returned than the one at the front', y)
        f = fs['operator++', 0]
        for y, v in call(x, 'operator++', 0, []):
            if y.g.get('pop') != 1:
                E.report(None_fr(f), None, 'not exactly one item is removed', y)
            ends(y, av - 1, f)
        f = fs['operator++', 1]
        for y, v in call(x, 'operator++', 1, [Z]):
            if y.g.get('pop') != 1:
                E.report(None_fr(f), None, 'not exactly one item is removed', y)
            if not y.g.get('seen'):
                E.report(None_fr(f), None, 'an item is removed before it is read', y)
            ends(y, av - 1, f)
    ctx.need(sts, 'paths through ' + cls)
    done(ctx, E, r)


EAGAIN, ENOMEM = 11, 12


class Loop1(Pop):
    """A layer around a FIFO."""
    dec = False

    def dyn_type(self, E, st, base):
        return self.cls if base == self.this else None

    def templates(self, E, env):
        if AV not in env or DONE not in env:
            return
        yield env[AV] + env[DONE]
        for k, v in env.items():
            if k[0] in ('loc', 'tmp', 'fld') and v.__class__ is Lin and v.t:
                yield v - env[AV]
                yield env[AV] - v

    def popped(self, E, st, fr, node):
        if st.g.get('dec') != 1:
            self.bad(E, fr, node, st, 'a message is removed that was not passed')
        st.g['dec'] = 0
        if DONE in st.env:
            st.env[DONE] = st.env[DONE] + 1

    def pushed(self, E, st, fr, node, ci):
        if st.g.get('res') == 1:
            self.bad(E, fr, node, st, 'a message is pushed twice')
        if st.g.get('res') == 0 and st.g.get('ov') != 1:
            self.bad(E, fr, node, st, 'a message is pushed again although the overflow was not handled')
        if (ci.short == 'push_back') != bool(st.g['last']):
            self.bad(E, fr, node, st, 'a message is not complete exactly when the last part of it is pushed')
        if len(ci.args) != 2 or not eqv(st, E, ci.args[0], self.buf) or not eqv(st, E, E.lin(st, ci.args[1]), self.blen):
            self.bad(E, fr, node, st, 'other data is pushed than is encoded')
        st.g['ov'] = None
        s2 = st.copy()
        st.g['res'], s2.g['res'] = 0, 1
        return [(st, Z), (s2, ONE)]

    def other(self, E, st, fr, node, ci):
        if ci.short in ('push_back', 'append_back') and self.buf is not None:
            return self.pushed(E, st, fr, node, ci)
        if ci.short in ('begin', 'end', 'cbegin', 'cend', 'capacity'):
            return None
        if ci.short == 'size':
            return [(st, L(self.cap))]
        self.bad(E, fr, node, st, 'the FIFO is accessed in an unknown way: ' + ci.short)
        return [(st, Z)]

    buf = None

    def more(self, E, st, fr, node, ci):
        s, a = ci.short, ci.args
        if ci.obj.__class__ is not Ptr:
            return None
        mine = ci.obj.base == self.this
        if s == 'decode' and len(a) == 2 and mine:
            self.n += 1
            if st.g.get('dec'):
                self.bad(E, fr, node, st, 'a message is passed twice')
            if not st.g.get('fr') or not eqv(st, E, a[0], Ptr(('data',), Z)) or not eqv(st, E, E.lin(st, a[1]), self.len(E, st)):
                self.bad(E, fr, node, st, 'another message is passed than the one at the front')
            st.g['dec'] = 1
            return [(st, Z)]
        if s == 'encode' and len(a) == 3 and mine and self.buf is not None:
            self.n += 1
            ok = eqv(st, E, a[0], self.buf) and eqv(st, E, E.lin(st, a[1]), self.blen) and decided(E, st, a[2], st.g['last'])
            if not ok or st.g.get('enc'):
                self.bad(E, fr, node, st, 'the message is not passed on unmodified and once')
            if st.g.get('res') is None or st.g['res'] == 0 and st.g.get('ov') != 0:
                self.bad(E, fr, node, st, 'the message is not pushed before it is passed on')
            st.g['enc'] = 1
            return [(st, Z)]
        if s == 'overflow' and mine and self.buf is not None:
            self.n += 1
            if st.g.get('res') != 0:
                self.bad(E, fr, node, st, 'an overflow is reported while the message was pushed')
            s2 = st.copy()
            st.g['ov'], s2.g['ov'] = 0, 1
            return [(st, Z), (s2, ONE)]
        if s == 'mtu' and mine:
            st.env[('ghost', 'lower')] = v = E.fresh('lower', 'unsigned long', 64, True)
            return [(st, v)]
        if s == 'setLastError' and mine:
            st.env[('ghost', 'err')] = E.lin(st, a[0])
            return [(st, Z)]
        cb = ci.obj.base
        if cb[0] == 'fld' and cb[1] == self.this and 'Callable' in (ci.cls or ''):
            if s == 'operator bool':
                s2 = st.copy()
                st.g['cb'], s2.g['cb'] = 0, 1
                return [(st, Z), (s2, ONE)] if 'cb' not in st.g else [(st, L(st.g['cb']))]
            if s == 'operator()':
                if st.g.get('cb') != 1 or st.g.get('called'):
                    self.bad(E, fr, node, st, 'the handler of the overflow is not called exactly once, when it is set')
                st.g['called'] = 1
                st.env[('ghost', 'cbr')] = E.fresh('handled', 'bool', 8, True, 0, 1)
                return [(st, st.env[('ghost', 'cbr')])]
        return None


def run_loop(ctx, cfg, cls, short):
    m = model(cfg, ['d_fifo'])
    fl = [x['n'] for x in m.records[cls]['fields'] if 'MessageFifo' in x['t']]
    ctx.need(len(fl) == 1, 'the FIFO of ' + cls)
    fs = [f for f in m.fns.values() if f.cls == cls and f.short == short]
    ctx.need(len(fs) == 1, '%s of %s' % (short, cls))
    f = fs[0]
    for last in ((0, 1) if short == 'encode' else (0,)):
        for some in ((0, 1) if short in ('recv', 'recvAll') else (0,)):
            reset_atoms()
            r = Loop1(m)
            r.grow = False
            r.cls, r.cap = cls, int(re.search(r'<(\d+)', cls).group(1))
            E = Engine(m, r)
            st, this, args = start(E, f)
            r.this, r.fifo = this, ('fld', this, fl[0])
            st.env[AV] = av = E.fresh('available', 'unsigned long', 64, True)
            st.cons.add_le(L(1) - av if some else av)
            if not some:
                st.env[AV] = av = Z
            st.env[DONE] = Z
            st.g.update(last=last, dec=0)
            if short == 'encode':
                r.buf, r.blen = args[0], args[1]
                args[2] = L(last)
            k = 0
            for x, v in E.exec_fn(f, st, None, ('root',), args, this, this):
                if x.cons.bot or x.cons.proves(L(1)):
                    continue
                k += 1

                def bad(msg):
                    E.report(None_fr(f), None, msg, x)
                if short == 'recv':
                    n = L(1) if some else Z
                    if x.g['dec'] or not x.cons.proves_eq(x.env[DONE] - n):
                        bad('not exactly one message is passed and removed')
                    if not x.cons.proves_eq(E.lin(x, v) - (0 if some else EAGAIN)):
                        bad('the return value does not tell whether there was a message')
                elif short == 'recvAll':
                    if x.g['dec'] or not x.cons.proves_eq(x.env[DONE] - av):
                        bad('not all messages are passed and removed')
                elif short == 'encode':
                    if not x.g.get('enc'):
                        bad('the message is not passed on unmodified and once')
                elif short == 'mtu':
                    v = E.lin(x, v)
                    lo = x.env.get(('ghost', 'lower'), Z)
                    y = x.copy()
                    y.cons.add_le(L(1) - lo)
                    if not x.cons.proves_le(L(1) - v) or not x.cons.proves_le(v - (r.cap - 1)) or not (y.cons.bot or y.cons.proves(L(1)) or y.cons.proves_le(v - lo)):
                        bad('the largest message does not fit the FIFO, or the lower layer')
                elif short == 'overflow':
                    if x.g.get('cb') is None:
                        bad('the handler of the overflow is ignored')
                    elif x.g['cb']:
                        if not x.g.get('called') or not eqv(x, E, E.lin(x, v), x.env.get(('ghost', 'cbr'))):
                            bad('the result is ignored of the handler of the overflow')
                    elif not decided(E, x, v, 0) or not x.cons.proves_eq(x.env.get(('ghost', 'err'), Z) - ENOMEM):
                        bad('an overflow is not reported as an error')
            ctx.need(k, 'paths through ' + f.name)
            ctx.count('paths', k)
            done(ctx, E, r)


def run_wiring(ctx, cfg, cls):
    """What a sends is received by b, and the other way around."""
    m = model(cfg, ['d_fifo'])
    one1 = [c for c in m.records if c.startswith('stored::FifoLoopback1<')]
    up, down = [[f for f in m.fns.values() if f.cls == PL and f.short == s and not f.params] for s in ('up', 'down')]
    get = {s: [f for f in m.fns.values() if f.cls == cls and f.short == s] for s in ('a', 'b', 'a2b', 'b2a')}
    ctx.need(up and down and all(get.values()), 'the layers of ' + cls)
    for f in [f for f in m.fns.values() if f.cls == cls and f.short == '(ctor)']:
        reset_atoms()
        r = Rule()
        r.maxdepth, r.n = 10, 0
        r.roots = lambda st: [k for k in st.env if k[0] == 'fld']
        E = Engine(m, r)
        st, this, args = start(E, f)
        k = 0
        for x, _ in E.exec_fn(f, st, None, ('root',), args, this, this):
            if x.cons.bot:
                continue
            k += 1

            def the(fn, base):
                v = [v for _, v in E.exec_fn(fn, x.copy(), None, ('get',), [], base, base)]
                return v[0].base if len(v) == 1 and v[0].__class__ is Ptr and v[0].off == Z else None
            o = {s: the(get[s][0], this) for s in get}
            want = [(down, 'a', o['a2b']), (up, 'a2b', o['b']), (down, 'b', o['b2a']), (up, 'b2a', o['a'])]
            if len(args) == 2:
                want += [(up, 'a', args[0].base), (up, 'b', args[1].base), (down, args[0].base, o['a']), (down, args[1].base, o['b'])]
            for g, b, w in want:
                r.n += 1
                if w is None or the(g[0], o.get(b, b)) != w:
                    E.report(None_fr(f), None, 'the layers are not connected such that what one side sends is received by the other', x, key=str((g[0].short, b)))
        ctx.need(k, 'paths through ' + f.name)
        done(ctx, E, r)


def p18(ctx):
    m = model('std', ['d_fifo'])
    ctx.need(len(fifos(m)) >= 5 and len(views(m)) >= 3, 'the FIFOs')
    jobs = [(run_fifo, 'std') + x + (s,) for x in fifos(m) for s in SHORTS]
    jobs += [(run_view, 'std') + x for x in views(m)]
    jobs.append((run_move, 'std'))
    jobs.append((run_iter, 'std', 'stored::PopIterator<stored::Fifo<uint8_t, 16, true>>'))
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)


def p19(ctx):
    m = model('std', ['d_fifo'])
    ctx.need(len(msgfifos(m)) >= 3, 'the FIFOs')
    jobs = [(run_msgs, 'std') + x + (s,) for x in msgfifos(m) for s in MSHORTS]
    jobs.append((run_iter, 'std', 'stored::PopIterator<stored::MessageFifo<64, 4, true>>'))
    lo = 'stored::FifoLoopback1<64, 4>'
    ctx.need(lo in m.records, lo)
    jobs += [(run_loop, 'std', lo, s) for s in ('recv', 'recvAll', 'encode', 'overflow', 'mtu')]
    jobs.append((run_wiring, 'std', 'stored::FifoLoopback<64, 4>'))
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
