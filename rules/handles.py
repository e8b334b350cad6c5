"""Handles: what is bound to a store denotes the object it was created for."""
from common import *
from frames import None_fr
from var import types_of, TYPES
import re


class Handle(Rule):
    maxdepth = 16
    K = 60
    strong = False
    keep = ()

    def roots(self, st):
        return self.keep

    def on_access(self, E, st, fr, node, ptr, nbytes, write, what):
        pass


CPP = {'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short', 'uint32_t': 'unsigned int'}
FNFLAG = 'FlagFunction'


def witness(ctx, cfg, fid):
    m = model(cfg, ['d_handles'])
    f = m.fns[fid]
    T = types_of(m)
    fam = f.short.split('_')[0]
    cls = unq(f.params[0]['t'].rstrip('& '))
    et = unq(targs('x' + f.d['targs'])[0])
    et = CPP.get(et, et)
    esz = sizeof(et)
    tv = T[TYPES[et]]
    reset_atoms()
    r = Handle()
    E = Engine(m, r)
    st, this, args = start(E, f)
    size, count = enums(m, cls)
    ctx.need(size and count, 'the size of the buffer and number of functions of ' + cls)
    idp = [i for i, p in enumerate(f.params) if p['t'] == 'unsigned int']
    offp = [i for i, p in enumerate(f.params) if p['t'] == 'unsigned long']
    for i in idp:
        args[i] = E.fresh('f%d' % i, 'unsigned int', 32, True, 1, count)
    lens = fam == 'len'
    for k, i in enumerate(offp):
        if lens and k == 1:
            args[i] = E.fresh('len', 'unsigned long', 64, True, 0, size)
            st.cons.add_le(args[i] + args[offp[0]] - size)
        else:
            args[i] = E.fresh('x%d' % i, 'unsigned long', 64, True, 0, size - (0 if lens else esz))
    r.keep = list(args)
    c = args[0]
    if fam == 'ne':
        # two stores
        for i in (0, 1):
            b = ('new', 'store%d' % i)
            E.basetype[b] = cls
            args[i] = Ptr(b, Z)
        c = args[0]
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, None, None):
        if s.cons.bot:
            continue
        n += 1
        bad = None
        l = E.lin(s, v) if v.__class__ is not Ptr and fam not in ('ptr', 'own') else None
        x = args[1] if len(args) > 1 else None
        if fam == 'ptr':
            b = buffer(E, m, s, cls, c)
            ctx.need(b is not None, 'the buffer of ' + cls)
            v = E.as_ptr(s, v, None)
            if v.base != b.base or not s.cons.proves_eq(v.off - b.off - x):
                bad = 'gives %r instead of the object at offset %r of %r' % (v, x, b)
        elif fam == 'own':
            v = E.as_ptr(s, v, None)
            if v != c:
                bad = 'gives %r instead of the store it was bound to' % (v,)
        elif fam in ('key', 'id'):
            if l is None or not s.cons.proves_eq(l - x):
                bad = 'gives %r instead of %r' % (v, x)
        elif fam in ('type', 'ftype'):
            w = tv | (T[FNFLAG] if fam == 'ftype' else 0)
            if l is None or not s.cons.proves_eq(l - w):
                bad = 'gives type %r instead of %d' % (v, w)
        elif fam == 'tsize':
            if l is None or not s.cons.proves_eq(l - esz):
                bad = 'gives size %r instead of %d' % (v, esz)
        elif fam == 'len':
            if l is None or not s.cons.proves_eq(l - args[2]):
                bad = 'gives length %r instead of %r' % (v, args[2])
        elif fam in ('no', 'ne'):
            w = fam == 'ne'
            if E.decide(s, E.truth(s, v)) is not w:
                bad = 'is %s' % ('valid' if not w else 'the same for different stores')
        elif fam in ('eq', 'feq'):
            for val in (True, False):
                for s2 in E.assume(s.copy(), E.truth(s, v), val):
                    if s2.cons.bot:
                        continue
                    if val and not s2.cons.proves_eq(x - args[2]):
                        bad = 'equal, although the objects may differ'
                    if not val:
                        c2 = s2.cons.copy()
                        c2.add_eq(x - args[2])
                        if not c2.bot:
                            bad = 'not equal, although it may be the same object'
        else:
            raise Broken('unknown witness ' + f.name)
        ctx.count('obligations')
        if bad:
            E.report(None_fr(f), None, bad, s, key=fam)
    ctx.need(n, 'paths through ' + f.name)
    ctx.count('exit_states', n)
    done(ctx, E, f)


def done(ctx, E, f):
    ctx.cover('functions', [fdef(E.m.fns[i]) for i in E.stats['functions'] if i in E.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'handle', x['msg'], x['via'], x['trace'])


def enums(m, cls):
    size = count = None
    for c in m.mro(cls) or [cls]:
        for e in m.enums.values():
            if e.get('cls') == c:
                size = size or e['v'].get('BufferSize')
                count = count or e['v'].get('FunctionCount')
    return size, count


def buffer(E, m, st, cls, c):
    for k in m.mro(cls) or [cls]:
        for f in m.fns_named(k + '::buffer'):
            if not f.params and not f.d.get('const'):
                for s, v in E.exec_fn(f, st.copy(), None, ('buffer',), [], c.base, c.base):
                    if v.__class__ is Ptr:
                        return v
    return None


def member(ctx, cfg, fid):
    """The variant() of a member of the store."""
    m = model(cfg, ['d_handles'])
    f = m.fns[fid]
    T = types_of(m)
    a = targs(f.cls)
    reset_atoms()
    r = Handle()
    E = Engine(m, r)
    st, this, args = start(E, f)
    k = f.cls[len('stored::impl::'):f.cls.index('<')]
    fn = k in ('StoreFunction', 'StoreVariantF')
    acc = {x: [g for g in m.fns_named('stored::Variant<drv::HStore>::' + x) if not g.params] for x in ('buffer', 'type', 'size', 'valid')}
    acc['id'] = [g for g in m.fns_named('stored::Variant<drv::HStore>::function') if not g.params]
    acc['fid'] = [g for g in m.fns.values() if g.short == 'id' and not g.params and g.cls and g.cls.startswith('stored::Function<') and 'HStore' in g.cls]
    ctx.need(all(acc.values()), 'accessors of a variant')
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        n += 1
        o = E.as_ptr(s, v, None).base

        def get(w, o=o):
            for s2, x in E.exec_fn(acc[w][0], s.copy(), None, ('acc', w), [], o, o):
                if not s2.cons.bot:
                    return s2, x
            return None, None
        t, size = get('type')[1], get('size')[1]
        if k in ('StoreVariable',):
            wt, ws, off = T[TYPES[unq(a[2])]], sizeof(unq(a[2])), int(a[3])
        elif k == 'StoreVariantV':
            wt, ws, off = typenum(T, a[2]), int(a[4]), int(a[3])
        elif k == 'StoreVariantF':
            wt, ws, off = typenum(T, a[2]), int(a[4]), int(a[3])
        else:
            ct = [g for g in m.fns.values() if g.cls and g.cls.startswith('stored::VStoreFunctionMap<drv::HStore, %s>' % a[3]) and g.short == 'call']
            et = None
            for g in m.fns.values():
                if g.cls == f.cls and g.short == 'function':
                    et = unq(targ0(g.d['rt']))
            if et is None:
                continue
            et = CPP.get(et, et)
            wt, ws, off = T[TYPES[et]] | T[FNFLAG], sizeof(et), int(a[3])
        ctx.count('obligations', 3)
        if not s.cons.proves_eq(E.lin(s, t) - wt):
            E.report(None_fr(f), None, 'the variant has type %r instead of %d' % (t, wt), s, key='mtype')
        if not s.cons.proves_eq(E.lin(s, size) - ws):
            E.report(None_fr(f), None, 'the variant has size %r instead of %d' % (size, ws), s, key='msize')
        if not fn:
            b = buffer(E, m, s, 'drv::HStore', Ptr(this, Z))
            p = E.as_ptr(s, get('buffer')[1], None)
            if b is None or p.base != b.base or not s.cons.proves_eq(p.off - b.off - off):
                E.report(None_fr(f), None, 'the variant is at %r instead of at offset %d of %r' % (p, off, b), s, key='mptr')
        else:
            s2, x = get('id')
            fo = E.as_ptr(s2, x, None).base
            i = [y for s3, y in E.exec_fn(acc['fid'][0], s2.copy(), None, ('fid',), [], fo, fo) if not s3.cons.bot]
            if not i or not s.cons.proves_eq(E.lin(s, i[0]) - off):
                E.report(None_fr(f), None, 'the variant has id %r instead of %d' % (i and i[0], off), s, key='mid')
    ctx.need(n, 'paths through ' + f.name)
    ctx.count('exit_states', n)
    done(ctx, E, f)


def typenum(T, s):
    s = s.split('::')[-1]
    return int(s) if s.isdigit() else T[s]


WIT = re.compile(r'(ptr|key|id|own|type|ftype|tsize|len|no|eq|feq|ne)_')


def p21(ctx):
    ctx.rule('a handle, when bound to a store, denotes the object it was created for: pointer, key, id, type, length, and store')
    ctx.rule('an invalid handle is not valid after it is bound or converted; handles are equal if and only if they denote the same object')
    ctx.rule('a member of the store denotes the object at its own offset or id')
    jobs = []
    for cfg in ('std', 'alt'):
        m = model(cfg, ['d_handles'])
        n = k = 0
        for f in m.fns.values():
            if f.cls is None and WIT.match(f.short) and f.d.get('targs'):
                jobs.append((witness, cfg, f.id))
                n += 1
            elif f.cls and f.cls.startswith('stored::impl::Store') and 'drv::HStore' in f.cls and f.short == 'variant' and not f.params:
                jobs.append((member, cfg, f.id))
                k += 1
        ctx.need(n >= 300 and k >= 15, 'witnesses (%d) and members (%d)' % (n, k))
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
