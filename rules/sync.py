"""The synchronizer: messages are applied within the store, and to the right store."""
from common import *
from bounds import Bounds, run_bounds
from effects import ctor_only
from lin import ATOMS

SJ = 'stored::StoreJournal'
SC = 'stored::SyncConnection'
SY = 'stored::Synchronizer'
KC = 'stored::impl::KeyCodec'
SUNITS = ['synchronizer', 'protocol', 'd_store', 'genstore']
CONST = {SJ: ('m_buffer', 'm_bufferSize', 'm_hash', 'm_keyCodec', 'm_callback'), SC: ('m_synchronizer',)}


def touches(m, cls, field):
    """Functions of cls that reach the field, directly or through each other."""
    out = set()
    change = True
    while change:
        change = False
        for f in m.fns.values():
            if f.id in out or f.cls != cls or f.short in ('(ctor)', '(dtor)'):
                continue
            if any(n.get('k') == 'mem' and n.get('n') == field or n.get('k') == 'call' and n.get('fid') in out for n in f.nodes.values()):
                out.add(f.id)
                change = True
    return out


def resizers(m, fns):
    """Those that may add to or remove from the journal."""
    ro = ('size', 'empty', 'operator[]', 'at', 'begin', 'end', 'data', 'front', 'back', 'cbegin', 'cend')
    out = set()
    change = True
    while change:
        change = False
        for i in fns - out:
            f = m.fns[i]
            mem = {n['i'] for n in f.nodes.values() if n.get('k') == 'mem' and n.get('n') == 'm_changes'}
            if any(n.get('k') == 'call' and (n.get('fid') in out or n.get('obj') in mem and split_name(n.get('fn') or '')[0] not in ro) for n in f.nodes.values()):
                out.add(i)
                change = True
    return out


def recorders(m, fns, resize):
    """Those that may store a length in the journal."""
    out = set(resize)
    for i in fns:
        f = m.fns[i]
        for n in f.nodes.values():
            l = f.nodes.get((n.get('c') or [None])[0]) if n.get('k') == 'asg' else None
            if l and l.get('k') == 'mem' and l.get('n') in ('len', 'key') and l.get('cls', '').endswith('ObjectInfo'):
                out.add(i)
    change = True
    while change:
        change = False
        for i in fns - out:
            if any(n.get('k') == 'call' and n.get('fid') in out for n in m.fns[i].nodes.values()):
                out.add(i)
                change = True
    return out


def uint(p, w=None):
    return bool(p.get('u')) and p.get('w') in ((w,) if w else (32, 64)) and not p.get('isref')


class SyncBounds(Bounds):
    K = 24
    maxdepth = 12
    codec = None
    strong = True

    def __init__(self, m, io=('encode', 'decode')):
        Bounds.__init__(self, m)
        self.opq = touches(m, SJ, 'm_changes')
        self.resize = resizers(m, self.opq)
        self.rec = recorders(m, self.opq, self.resize)

    def gkey(self, st):
        return Bounds.gkey(self, st) + (tuple(sorted((k, v.c) for k, v in st.env.items() if k[0] == 'loc' and v.__class__ is Lin and v.const and
                                                     self.E.keytype.get(k, ('',))[0] == 'bool')),)

    def dyn_type(self, E, st, base):
        t = E.basetype.get(base)
        if t and unq(t).replace('const ', '').strip() == KC:
            return self.codec
        if base == ('this', SC):
            return SC
        return None

    def extent(self, E, st, base):
        k = ATOMS[base[1]].key if base[0] == 'sym' else None
        if k and k[0] == 'init' and k[1][0] == 'fld' and k[1][2] == 'm_buffer':
            return E.load(st, Ptr(('fld', k[1][1], 'm_bufferSize'), Z), 'unsigned long', 64, True)
        return None

    def on_access(self, E, st, fr, node, p, nb, wr, what):
        if p is not None and p.base[0] == 'buf' and p.base[1][0] == 'fld' and p.base[1][2] == 'm_encodeBuffer':
            self.unk += 1       # its size is a matter of MaxMessageSize, see below
            return
        if 'hookChanged' in what:
            self.unk += 1       # addresses from the list in the scratch memory
            return
        n = nb.t[0][0] if nb is not None and len(nb.t) == 1 else None
        if n is not None and str(ATOMS[n].name).startswith('strlen'):
            self.unk += 1       # terminated strings
            return
        Bounds.on_access(self, E, st, fr, node, p, nb, wr, what)

    def pre_call(self, E, st, fr, node, ci):
        t = ci.target
        if t is not None and t.id in self.opq:
            this = ('this', SJ)
            if fr.fn.cls == SJ and ci.obj is not None and ci.obj.base == this:
                ps = t.params
                if self.pair(t) and not self.pair(fr.fn) and fr.fn.short != 'bumpSeq':
                    a, b = (E.lin(st, x) for x in ci.args[:2])
                    z = E.load(st, Ptr(('fld', this, 'm_bufferSize'), Z), 'unsigned long', 64, True)
                    self.n += 1
                    if st.cons.proves(a + b - z):
                        self.ok += 1
                    else:
                        E.report(fr, node, 'a change of %r bytes at %r is recorded, in a store of %r bytes' % (b, a, z), st, key='record')
                if self.slice(t):
                    self.n += 1
                    z = E.size(st, ('fld', this, 'm_changes'))
                    if st.cons.proves(E.lin(st, ci.args[len(ps) - 1]) - z):
                        self.ok += 1
                    else:
                        E.report(fr, node, 'the range passed to %s may exceed the journal' % ci.short, st, key='slice')
            elif fr.fn.cls != SJ:
                for i, pt in enumerate((ci.node.get('pt') or [])[:len(ci.args) - 1]):
                    p, n = ci.args[i], ci.args[i + 1]
                    if pt.endswith('&') and p.__class__ is Ptr:
                        p = E.load(st, p, pt.rstrip('& '))
                    if n.__class__ is Ptr:
                        n = E.load(st, n, 'unsigned long', 64, True)
                    if p.__class__ is Ptr and n.__class__ is Lin and n.__class__ is Lin and uint_t(ci.node['pt'][i + 1]):
                        self.on_access(E, st, fr, node, p, n, False, 'hand over (%s)' % ci.short)
        return Bounds.pre_call(self, E, st, fr, node, ci)

    def opaque_havoc(self, E, st, fr, ci):
        if ci.target is not None and ci.fid in self.opq and ci.fid not in self.resize and ci.obj is not None:
            b = ('fld', ci.obj.base, 'm_changes')
            if b[1] == ('this', SJ):
                self.keep = (b, E.size(st, b))
                return ()
        self.keep = None
        return ()

    keep = None

    def post_call(self, E, st, fr, node, ci, val):
        if self.keep:
            E.set_size(st, *self.keep)
            self.keep = None

    def templates(self, E, env):
        yield from Bounds.templates(self, E, env)
        z = env.get(('fld', ('fld', ('this', SJ), 'm_changes'), '#size'))
        if z is not None:
            for k, v in env.items():
                if k[0] == 'loc' and v.__class__ is Lin and not v.const:
                    yield v - z

    def pair(self, t):
        """Takes the key and the length of a change, to be recorded."""
        ps = t.params
        return t.id in self.rec and len(ps) >= 2 and uint(ps[0], 32) and uint(ps[1])

    def slice(self, t):
        """Works on a part of the journal."""
        ps = t.params
        return len(ps) >= 2 and uint(ps[-1], 64) and uint(ps[-2], 64)

    def on_load(self, E, st, fr, node, loc, val):
        # every entry of the journal was checked when it was recorded
        b = loc.base
        if loc.off == Z and b[0] == 'fld' and b[2] in ('len', 'key') and node.get('cls', '').endswith('ObjectInfo'):
            k = E.load(st, Ptr(('fld', b[1], 'key'), Z), 'unsigned int', 32, True)
            n = E.load(st, Ptr(('fld', b[1], 'len'), Z), 'unsigned int', 32, True)
            z = E.load(st, Ptr(('fld', ('this', SJ), 'm_bufferSize'), Z), 'unsigned long', 64, True)
            if k.__class__ is Lin and n.__class__ is Lin and z.__class__ is Lin:
                st.cons.add_le(k + n - z)

    def inline(self, E, st, fr, ci):
        t = ci.target
        if t.id in self.opq and (fr.fn.cls != SJ or not any(unq(p['t']).rstrip('& ').endswith('*') for p in t.params) or self.slice(t)):
            return False
        return Bounds.inline(self, E, st, fr, ci)


def uint_t(t):
    return unq(t.rstrip('& ')) in ('unsigned long', 'size_t')


def p11(ctx):
    ctx.rule('every access by the synchronizer to a received message, to the store buffer and to the journal is within its bounds, for any message, key size and journal')
    ctx.rule('only changes that lie within the store buffer are recorded in the journal')
    ctx.rule('the key codec that the journal selects can represent every offset in the store')
    ctx.rule('the scratch buffer for updates holds an update of all variables')
    m = model('std', SUNITS)
    const = tuple(sorted(x for c, fs in CONST.items() for x in ctor_only(m, c, fs)))
    fns = [f for f in m.fns.values() if f.cls in (SJ, SC) and f.short not in ('(dtor)',)]
    ctx.need(len(fns) >= 50, 'the functions of the synchronizer')
    codecs = sorted(c for c in m.subclasses(KC) if c != KC)
    ctx.need(len(codecs) >= 2, 'the key codecs')
    jobs = [(f.id, c) for f in fns for c in (codecs if f.cls == SJ else codecs[:1])]

    def job(c, j):
        f = m.fns[j[0]]

        class R(SyncBounds):
            codec = j[1]
            const_fields = const

        def assume(E, st, f, this, args):
            ps = f.params
            r = E.rule
            r.E = E
            if f.cls == SJ and this is not None:
                E.set_size(st, ('fld', this, 'm_changes'), E.size(st, ('fld', this, 'm_changes')))
                if r.slice(f) and f.id in r.opq:
                    st.cons.add_le(E.lin(st, args[-1]) - E.size(st, ('fld', this, 'm_changes')))
                if r.pair(f) and f.id in r.opq:
                    z = E.load(st, Ptr(('fld', this, 'm_bufferSize'), Z), 'unsigned long', 64, True)
                    st.cons.add_le(E.lin(st, args[0]) + E.lin(st, args[1]) - z)
            for i in range(len(ps) - 1):
                # (pointer, length) by reference
                if ps[i].get('isref') and ps[i + 1].get('isref') and unq(ps[i]['t'].rstrip('& ')).endswith('*') and uint_t(ps[i + 1]['t']):
                    p = E.load(st, args[i], ps[i]['t'].rstrip('& '))
                    n = E.load(st, args[i + 1], 'unsigned long', 64, True)
                    st.env[('ext', p.base)] = n
                    st.cons.add_le(n - L(1 << 40))
        run_bounds(c, 'std', SUNITS, f.id, assume, R)
    pmap(ctx, job, jobs)
    codec_choice(ctx, m, codecs)
    capacity(ctx, m)


class Choice(Rule):
    maxdepth = 6
    K = 16
    unroll = 10
    chosen = None

    def on_store(self, E, st, fr, node, loc, val):
        if loc.base[0] == 'fld' and loc.base[2] == 'm_keyCodec' and loc.off == Z:
            st.g['codec'] = val.base if val.__class__ is Ptr else None


def codec_choice(ctx, m, codecs):
    """For every number of bytes in an offset: what does the constructor select?"""
    sizes = {}
    for c in codecs:
        fs = m.fns_named(c + '::size')
        ctx.need(fs, 'the size of ' + c)
        reset_atoms()
        E = Engine(m, Rule())
        st, this, args = start(E, fs[0], c)
        v = [x for _, x in E.exec_fn(fs[0], st, None, ('root',), args, this, this)]
        ctx.need(v and all(x.__class__ is Lin and x.const for x in v), 'the size of ' + c)
        sizes[c] = v[0].c
    ct = [f for f in m.fns.values() if f.cls == SJ and f.short == '(ctor)' and any(unq(p['t']).endswith('*') for p in f.params)]
    ctx.need(ct, 'the constructor of the journal')
    for f in ct:
        zi = next(i for i, p in enumerate(f.params) if uint(p, 64))
        for nbytes in range(1, 5):
            for size in sorted({256 ** (nbytes - 1), 256 ** nbytes - 1, 256 ** nbytes - 2}):
                if size >= (1 << 32) - 1:
                    continue
                reset_atoms()
                r = Choice()
                E = Engine(m, r)
                st, this, args = start(E, f)
                args[zi] = Lin(size)
                for s, _ in E.exec_fn(f, st, None, ('root',), args, this, this):
                    ctx.count('codec_choices')
                    v = s.env.get(('fld', this, 'm_keyCodec'))
                    t = unq(E.basetype.get(v.base, '') if v.__class__ is Ptr else '').replace('const ', '')
                    if t not in sizes:
                        q = v.base[-1] if v.__class__ is Ptr else None
                        vv = m.vars.get(q) if q in m.vars else None
                        t = unq((vv or {}).get('t', '')).replace('const ', '')
                    w = sizes.get(t)
                    ctx.need(w is not None, 'the codec that is selected for a store of %d bytes (%r)' % (size, v))
                    if 256 ** w <= size:
                        ctx.finding(f.loc, f.name, 'codec', 'a store of %d bytes gets keys of %d byte(s)' % (size, w))


def capacity(ctx, m):
    n = 0
    for k, e in m.enums.items():
        if 'MaxMessageSize' in e['v']:
            base = (e.get('cls') or '')
            while base:
                es = [x for x in m.enums.values() if x.get('cls') == base and 'BufferSize' in x['v'] and 'VariableCount' in x['v']]
                if es:
                    break
                base = base[base.index('<') + 1:-1] if '<' in base else ''
            if not base:
                continue
            n += 1
            need = 1 + 2 + es[0]['v']['BufferSize'] + es[0]['v']['VariableCount'] * 2 * 4
            ctx.count('message_sizes')
            if e['v']['MaxMessageSize'] < need:
                ctx.finding('%s:%s' % (relf(e['file']), e['line']), e.get('cls'), 'capacity',
                            'a message of %d bytes fits the scratch buffer, but an update of all variables takes up to %d' % (e['v']['MaxMessageSize'], need))
    ctx.need(n, 'MaxMessageSize of a store')
    fs = [f for f in m.fns.values() if f.cls == SY and f.short == 'map' and f.params]
    ctx.need(fs, 'the registration of a store')
    for f in fs:
        c = unq(f.params[0]['t'].rstrip('& '))
        es = [x for x in m.enums.values() if x.get('cls') == c and 'MaxMessageSize' in x['v']]
        if not es:
            continue
        reset_atoms()
        E = Engine(m, Rule())
        st, this, args = start(E, f)
        b = ('fld', this, 'm_encodeBuffer')
        E.set_size(st, b, E.size(st, b))
        ctx.count('map_functions')
        for s, _ in E.exec_fn(f, st, None, ('root',), args, this, this):
            if not s.cons.proves(L(es[0]['v']['MaxMessageSize']) - E.size(s, b)):
                ctx.finding(f.loc, f.name, 'capacity', 'the scratch buffer may remain smaller than a message of the store')
