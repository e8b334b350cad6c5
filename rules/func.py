"""Function objects: every get or set is exactly one invocation of the right callback, with the whole value."""
from common import *
from frames import None_fr
from var import CONCRETE, types_of, type_fields

COPY = ('memcpy', 'memmove', '__builtin_memcpy')


def same(st, a, b):
    return a == b or a.__class__ is Lin and b.__class__ is Lin and st.cons.proves_eq(a - b)


class Func(Rule):
    """mode 'id': the container's callback is what must be invoked; 'fn': the function that the user implements."""
    maxdepth = 16
    K = 40
    strong = False

    def __init__(self, m, mode, names=()):
        self.m, self.mode, self.names = m, mode, set(names)
        self.dir = None            # the expected direction
        self.typed = None          # type of the value, when it is passed by value or reference
        self.val = None            # the value that is set
        self.param = None          # the buffer of the caller
        self.id = self.cont = self.name = None
        self.want = lambda E, st, n: True
        self.n = self.ncalls = 0
        self.keep = []
        self.typ = None

    def roots(self, st):
        return self.keep

    def mine(self, st):
        return st.g.get('cb', 0)

    def pre_call(self, E, st, fr, node, ci):
        s = ci.short
        if self.typ is not None and s == 'type' and not ci.args and ci.obj.__class__ is Ptr:
            return [(st, L(self.typ))]
        if s == 'swap_endian' or s.startswith('swap_endian_') or s == 'memcpy_swap':
            E.report(fr, node, 'the value of a function is swapped', st, key='swap')
        if s in COPY and len(ci.args) == 3:
            return self.copy(E, st, fr, node, ci)
        if self.mode == 'id' and s == 'callback' and len(ci.args) == 4:
            a = ci.args
            if E.as_ptr(st, ci.obj, None) != self.cont:
                E.report(fr, node, 'calls back %r instead of the container of the function' % (ci.obj,), st, key='cont')
            if not st.cons.proves_eq(E.lin(st, a[3]) - self.id):
                E.report(fr, node, 'calls back with id %r instead of the id of the function' % (a[3],), st, key='id')
            return self.invoke(E, st, fr, node, a[0], a[1], E.lin(st, a[2]))
        if self.mode == 'fn' and s in self.names and len(ci.args) in (2, 3):
            if s != self.name:
                E.report(fr, node, 'invokes %s instead of %s' % (s, self.name or 'no function'), st, key='fn')
            if self.cont is not None and ci.obj.__class__ is Ptr and ci.obj.base != self.cont.base:
                E.report(fr, node, 'invokes the function of %r' % (ci.obj,), st, key='fnobj')
            n = L(sizeof(unq(node['pt'][1].rstrip('& ')))) if len(ci.args) == 2 else E.lin(st, ci.args[2])
            return self.invoke(E, st, fr, node, ci.args[0], ci.args[1], n)
        return None

    def invoke(self, E, st, fr, node, d, p, n):
        self.ncalls += 1
        self.n += 1
        if st.g.get('cb'):
            E.report(fr, node, 'a second invocation of a callback', st, key='twice')
        st.g['cb'] = st.g.get('cb', 0) + 1
        if E.decide(st, E.truth(st, d)) is not self.dir:
            E.report(fr, node, 'invoked to %s while the function is %s' % ('get' if self.dir else 'set', 'set' if self.dir else 'read'), st, key='dir')
        if not self.want(E, st, n):
            E.report(fr, node, 'invoked with %r bytes' % n, st, key='len')
        p = E.as_ptr(st, p, None)
        if self.typed:
            if self.dir:
                v = E.load(st, p, self.typed)
                if not same(st, v, self.val):
                    E.report(fr, node, 'invoked with %r instead of the value that is set' % (v,), st, key='val')
            else:
                r = E.keyed(('cbresult',), 'result', self.typed, sizeof(self.typed) * 8 or None, False)
                E.store(st, p, r, self.typed)
                if self.param is not None and p != self.param:
                    st.g['io'] = p
                else:
                    st.g['io'] = 'out'
        elif p == self.param:
            st.g['io'] = 'out'
        else:
            if self.dir and st.g.get('in') != p:
                E.report(fr, node, 'invoked with a buffer in which the value of the caller is not copied', st, key='noin')
            if self.size is not None and not st.cons.proves_eq(n - self.size):
                E.report(fr, node, 'invoked with %r bytes of a local copy of the value' % n, st, key='loclen')
            st.g['io'] = p
        ret = E.fresh('cblen', 'unsigned long', 64, True, 0, 1 << 40)
        st.env[('ghost', 'ret')] = ret
        return [(st, ret)]

    def copy(self, E, st, fr, node, ci):
        d, q, n = E.as_ptr(st, ci.args[0], None), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
        if self.param is None:
            return None
        self.n += 1
        if q == self.param:
            if not self.want(E, st, n):
                E.report(fr, node, 'copies %r bytes of the value' % n, st, key='inlen')
            if not self.dir:
                E.report(fr, node, 'the buffer of the caller is used as a value, although the function is read', st, key='dir')
            if st.g.get('cb'):
                E.report(fr, node, 'copied after the invocation', st, key='order')
            st.g['in'] = d
        elif d == self.param:
            if self.dir:
                E.report(fr, node, 'writes to the buffer of the caller, although the function is set', st, key='dir')
            if st.g.get('io') != q:
                E.report(fr, node, 'copies from a buffer that has no result of the callback', st, key='nores')
            elif not self.want(E, st, n):
                E.report(fr, node, 'copies %r bytes of the result' % n, st, key='outlen')
            else:
                st.g['io'] = 'out'
        elif d.base == self.param.base or q.base == self.param.base:
            E.report(fr, node, 'copies a part of the value', st, key='part')
        return [(st, ci.args[0])]

    def done(self, E, f, s, v):
        self.n += 1
        if s.g.get('cb', 0) != 1:
            E.report(None_fr(f), None, 'the callback is invoked %d times' % s.g.get('cb', 0), s, key='once')
            return
        if self.dir is False and s.g.get('io') != 'out' and self.param is not None:
            E.report(None_fr(f), None, 'the result of the callback is not given to the caller', s, key='nores')
        rt = f.d['rt']
        ret = s.env.get(('ghost', 'ret'))
        if self.dir is False and self.typed and unq(rt) == self.typed:
            r = E.keyed(('cbresult',), 'result', self.typed, sizeof(self.typed) * 8 or None, False)
            if not same(s, v, r):
                # unless the callback did not give a whole value
                if v.__class__ is Lin and s.cons.proves_eq(v) and ret is not None:
                    c = s.cons.copy()
                    c.add_eq(ret - sizeof(self.typed))
                    if c.bot:
                        return
                E.report(None_fr(f), None, 'returns %r instead of the result of the callback' % (v,), s, key='res')
        elif rt == 'unsigned long':
            l = E.lin(s, v)
            if not s.cons.proves_eq(l - ret) and not (self.size is not None and s.cons.proves_eq(l - self.size)):
                E.report(None_fr(f), None, 'returns %r instead of the length of the value' % l, s, key='ret')

    size = None


def finish(ctx, E, r, f):
    ctx.count('obligations', r.n)
    ctx.count('callback_invocations', r.ncalls)
    ctx.cover('functions', [fdef(E.m.fns[i]) for i in E.stats['functions'] if i in E.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'function', x['msg'], x['via'], x['trace'])


def call1(E, m, f, st, this):
    """The value of a simple accessor."""
    out = [(s, v) for s, v in E.exec_fn(f, st.copy(), None, ('acc', f.short), [], this, this) if not s.cons.bot]
    return out[0] if out else None


def go(ctx, E, r, f, st, args, this, dirs):
    """Runs f; dirs: the argument that is the direction, or the direction."""
    n = 0
    for d in (True, False):
        if dirs.__class__ is bool:
            if d is not dirs:
                continue
            s0 = [st]
        else:
            s0 = E.assume(st.copy(), E.truth(st, args[dirs]), d)
        r.dir = d
        for s1 in s0:
            if s1.cons.bot:
                continue
            for s, v in E.exec_fn(f, s1, None, ('root', d), args, this, this):
                if s.cons.bot:
                    continue
                n += 1
                r.done(E, f, s, v)
    ctx.need(n and r.ncalls, 'callbacks from ' + f.name)
    ctx.count('exit_states', n)


def setup_arg(E, r, st, f, args, typed):
    """What the caller gives: a value, a reference to one, or a buffer."""
    ps = [(p, a) for p, a in zip(f.params, args) if p['t'] != 'bool' or len(f.params) == 1]
    for p, a in ps:
        t = p['t']
        if t.endswith('*'):
            r.param = a
        elif p.get('isref') or t.endswith('&'):
            r.typed = unq(t.rstrip('& '))
            r.param = a
            r.val = E.load(st, a, r.typed)
        elif not r.param:
            r.typed = unq(t)
            r.val = a


DIRS = {'get': False, 'set': True, 'callback': 0, 'operator=': True, 'operator()': None}


def direction(f):
    if f.short in ('get', 'set', 'operator='):
        return DIRS[f.short]
    if f.short == 'callback':
        return 0
    return bool(f.params)      # operator(), and conversions


def run_typed(ctx, cfg, fid):
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    reset_atoms()
    r = Func(m, 'id')
    E = Engine(m, r)
    st, this, args = start(E, f)
    ci = [x for x in m.fns_named(f.cls + '::id') + m.fns_named(f.cls + '::container') + m.fns_named(f.cls + '::get') if not x.params]
    ctx.need(len(ci) >= 3, 'id, container and get of ' + f.cls)
    st, r.id = call1(E, m, ci[0], st, this)
    st, c = call1(E, m, ci[1], st, this)
    r.id = E.lin(st, r.id)
    st.cons.add_le(-r.id + 1)
    r.cont = E.as_ptr(st, c, None)
    setup_arg(E, r, st, f, args, None)
    T = unq(ci[2].d['rt'])
    if r.param is None and not f.params:
        r.typed = T
    r.size = L(sizeof(T))
    if r.param is not None and not r.typed:
        # any length, of at least the value; the container gets all of it, or exactly the value
        n = E.lin(st, args[-1])
        st.cons.add_le(r.size - n)
        r.want = lambda E, st, x: st.cons.proves_eq(x - n) or st.cons.proves_eq(x - r.size)
        r.keep = [n]
    else:
        r.want = lambda E, st, x: st.cons.proves_eq(x - r.size)
    r.keep += [r.id] + args + ([r.val] if r.val is not None else [])
    go(ctx, E, r, f, st, args, this, direction(f))
    finish(ctx, E, r, f)


def run_variant(ctx, cfg, fid, tname):
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    T = types_of(m)
    typ = T[tname] | T['FlagFunction']
    fixed = T[tname] & T['FlagFixed']
    reset_atoms()
    r = Func(m, 'id')
    r.typ = typ
    E = Engine(m, r)
    st, this, args = start(E, f)
    acc = {k: [x for x in m.fns_named(f.cls + '::' + k) if not x.params] for k in ('type', 'size', 'container')}
    ctx.need(all(acc.values()), 'accessors of ' + f.cls)
    size = (T[tname] & T['MaskSize']) + 1 if fixed else None
    sz = L(size) if fixed else E.fresh('size', None, None, None, 0, 1 << 32)
    for nm in type_fields(m, acc['type'][0]):
        E.store(st, Ptr(('fld', this, nm), Z), L(typ), 'unsigned char', 8, True)
    for nm in type_fields(m, acc['size'][0]):
        if E.load(st, Ptr(('fld', this, nm), Z), 'unsigned long', 64, True) != L(typ):
            E.store(st, Ptr(('fld', this, nm), Z), sz, 'unsigned long', 64, True)
    st, c = call1(E, m, acc['container'][0], st, this)
    r.cont = E.as_ptr(st, c, None)
    # the id: as the constructor for functions stores it
    ctor = [x for x in m.fns_named(f.cls + '::(ctor)') if len(x.params) == 4 and x.params[2]['t'] == 'unsigned int']
    ctx.need(ctor, 'the constructor of a function in ' + f.cls)
    idv = E.fresh('f', 'unsigned int', 32, True, 1, 1 << 31)
    s2 = [(s, v) for s, v in E.exec_fn(ctor[0], st, None, ('ctor',), [c, L(typ), idv, sz], this, this) if not s.cons.bot]
    ctx.need(s2, 'paths through the constructor')
    st = s2[0][0]
    r.id = idv
    setup_arg(E, r, st, f, args, None)
    if f.params and f.params[-1]['t'] == 'unsigned long':
        n = E.lin(st, args[-1])
        st.cons.add_le(n - L(1 << 32))
        r.keep = [n]
        if f.short == 'callback':
            if fixed:
                st.cons.add_le(sz - n)
                r.want = lambda E, st, x: st.cons.proves_eq(x - n) or st.cons.proves_eq(x - sz)
            else:
                r.want = lambda E, st, x: st.cons.proves_eq(x - n)
        elif fixed:
            r.want = lambda E, st, x: st.cons.proves_eq(x - sz)
        else:
            def want(E, st, x):
                return st.cons.proves_le(x - n) and st.cons.proves_le(x - sz) and (st.cons.proves_eq(x - n) or st.cons.proves_eq(x - sz))
            r.want = want
    else:
        if not f.params:
            r.typed = unq(f.d['rt'])
        r.want = lambda E, st, x: st.cons.proves_eq(x - sizeof(r.typed))
    r.size = L(size) if fixed else None
    r.keep += [sz, r.id] + args
    go(ctx, E, r, f, st, args, this, direction(f))
    finish(ctx, E, r, f)


def objects(m, impl):
    """The functions of the generated store, from the types of its objects: name -> (class, id, size)."""
    out = {}
    for c in m.records:
        if c.startswith('stored::VStoreObjects<') and impl in c:
            for o, fl in m.fields(c):
                t = fl['t']
                if t.startswith('stored::impl::StoreFunction<'):
                    out[fl['n']] = (t, int(targs(t)[3]), None)
                elif t.startswith('stored::impl::StoreVariantF<'):
                    a = targs(t)
                    out[fl['n']] = (t, int(a[3]), int(a[4]))
    return out


def implementor(m):
    return {x.short for x in m.fns.values() if x.cls and x.cls.startswith('stored::VStoreDefaultFunctions<') and x.short.startswith('__')}


def run_object(ctx, cfg, name, fid):
    """A get or set of the function in the store, up to the implementation by the user."""
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    cls, num, size = objects(m, 'drv::PlainStore')[name]
    reset_atoms()
    r = Func(m, 'fn', implementor(m))
    r.name = '__' + name
    E = Engine(m, r)
    st, this, args = start(E, f)
    setup_arg(E, r, st, f, args, None)
    fn = [x for x in m.fns.values() if x.short == r.name and x.cls and 'drv::PlainStore' in x.cls]
    ctx.need(fn, r.name + ' of the store')
    r.size = L(size) if size is not None else L(sizeof(unq(fn[0].params[1]['t'].rstrip('& '))))
    if f.params and f.params[-1]['t'] == 'unsigned long':
        n = E.lin(st, args[-1])
        r.keep = [n]
        if size is None:
            # the caller gives exactly the value
            st.cons.add_eq(n - r.size)
            r.typed = unq(fn[0].params[1]['t'].rstrip('& '))
            r.val = E.load(st, r.param, r.typed)
            r.want = lambda E, st, x: st.cons.proves_eq(x - r.size)
        else:
            st.cons.add_le(n - L(1 << 32))
            r.want = lambda E, st, x: st.cons.proves_le(x - n) and st.cons.proves_le(x - size) and (st.cons.proves_eq(x - n) or st.cons.proves_eq(x - size))
            r.size = None
    else:
        r.typed = unq(fn[0].params[1]['t'].rstrip('& '))
        r.want = lambda E, st, x: st.cons.proves_eq(x - r.size)
    r.keep += args + ([r.val] if r.val is not None else [])
    go(ctx, E, r, f, st, args, this, direction(f))
    finish(ctx, E, r, f)


def run_dispatch(ctx, cfg, fid, num):
    """The container: id -> function."""
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    obj = {v[1]: (k, v[2]) for k, v in objects(m, 'drv::PlainStore').items()}
    reset_atoms()
    r = Func(m, 'fn', implementor(m))
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.param = args[1]
    n = E.lin(st, args[2])
    if num is None:
        st.cons.add_le(L(max(obj) + 1) - E.lin(st, args[3]))
    else:
        args[3] = L(num)
    r.keep = args
    cnt = 0
    if num in obj:
        name, size = obj[num]
        r.name = '__' + name
        fn = [x for x in m.fns.values() if x.short == r.name and x.cls and 'drv::PlainStore' in x.cls]
        ctx.need(fn, r.name + ' of the store')
        if size is None:
            r.size = L(sizeof(unq(fn[0].params[1]['t'].rstrip('& '))))
            st.cons.add_eq(n - r.size)
            r.want = lambda E, st, x: st.cons.proves_eq(x - r.size)
        else:
            r.want = lambda E, st, x: st.cons.proves_eq(x - n)
        go(ctx, E, r, f, st, args, this, 0)
    else:
        for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            if s.cons.bot:
                continue
            cnt += 1
            r.n += 1
            if not s.cons.proves_eq(E.lin(s, v)):
                E.report(None_fr(f), None, 'returns %r for an id without a function' % (v,), s, key='unknown')
        ctx.need(cnt, 'paths for an id without a function')
    finish(ctx, E, r, f)


def p20(ctx):
    ctx.rule('every get or set of a function is exactly one invocation of its callback, with its id, the right direction, and the whole value')
    ctx.rule('what the callback gives is what the caller gets, whatever the alignment of its buffer')
    ctx.rule('the id is dispatched to the function that the user implements for that object, and an unknown id to none')
    jobs = []
    for cfg in ('std', 'alt'):
        m = model(cfg, ['d_store'])
        nf = nv = no = nd = 0
        ob = objects(m, 'drv::PlainStore')
        ctx.need(len(ob) >= 5, 'the functions of the generated store')
        bycls = {v[0]: k for k, v in ob.items()}
        for f in m.fns.values():
            if not f.cls or f.d.get('static') or f.d.get('implicit'):
                continue
            conv = f.short.startswith('operator ') and not f.params
            if f.cls.startswith('stored::Function<') and (f.short in DIRS or conv):
                if f.short == 'operator=' and f.params[0].get('isref'):
                    continue
                if not all([x for x in m.fns_named(f.cls + '::' + k) if not x.params] for k in ('id', 'container', 'get')):
                    continue
                jobs.append((run_typed, cfg, f.id))
                nf += 1
            elif f.cls == 'stored::Variant<drv::PlainStore>' and f.short in ('get', 'set', 'callback'):
                if len(f.params) == (3 if f.short == 'callback' else 2) and f.params[-1]['t'] == 'unsigned long':
                    jobs += [(run_variant, cfg, f.id, t) for t in CONCRETE]
                    nv += 1
            elif f.cls in bycls and f.short in ('get', 'set', 'operator()', 'operator='):
                if f.short == 'operator=' and f.params[0].get('isref'):
                    continue
                jobs.append((run_object, cfg, bycls[f.cls], f.id))
                no += 1
            elif f.cls == 'stored::VStoreBase<drv::PlainStore>' and f.short == 'callback' and len(f.params) == 4:
                jobs += [(run_dispatch, cfg, f.id, i) for i in list(range(len(ob) + 1)) + [None]]
                nd += 1
        ctx.need(nf >= 6 and nv >= 3 and no >= 6 and nd, 'get and set of functions')
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
