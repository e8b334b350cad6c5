"""Hooks of a store: who is told about an access or a change."""
from common import *
from frames import None_fr
import re

SYNC = r'stored::Synchronizable<'
H4 = ('__hookEntryX', '__hookEntryRO', '__hookExitRO', '__hookChanged')


def eqv(st, E, a, b):
    if a == b:
        return True
    if a.__class__ is Ptr and b.__class__ is Ptr:
        return a.base == b.base and st.cons.proves_eq(a.off - b.off)
    if a.__class__ is Lin and b.__class__ is Lin:
        return st.cons.proves_eq(a - b)
    return False


class Chain(Rule):
    """Events of the chain of hooks of a store."""
    maxdepth = 12
    K = 40

    def __init__(self, m, stop):
        self.m = m
        self.stop = stop        # functions to record: name pattern -> event
        self.n = 0

    base = None

    def pre_call(self, E, st, fr, node, ci):
        if self.base and ci.cls == self.base and ci.short == '__hookExitX':
            st.g['bx'] = st.g.get('bx', 0) + 1
        for pat, ev in self.stop:
            if pat(ci):
                self.n += 1
                args = tuple(a if a.__class__ in (Ptr, Lin) else E.lin(st, a) if a.__class__ in (B, BAnd, BOr) else 0 for a in ci.args)
                st.g['ev'] = st.g.get('ev', ()) + ((ev, ci.short, args, fr.fn.loc),)
                return [(st, Z)]
        return None


def inst(m, cls):
    """The most derived wrapper and the base of a store of the drivers."""
    base = 'stored::VStoreBase<%s>' % cls
    return base


def objects(m, cls):
    """name -> (offset, size) of the variables of the generated store."""
    out = {}
    for c, r in m.records.items():
        if c.startswith('stored::VStoreObjects<stored::VStoreBase<%s>' % cls):
            for f in r['fields']:
                a = targs(f['t'])
                k = f['t'].split('<')[0].split('::')[-1]
                if k in ('StoreVariable', 'StoreVariantV') and len(a) >= 5 and a[-1].rstrip('UuLl').isdigit() and a[-2].rstrip('UuLl').isdigit():
                    out[f['n']] = (int(a[-2].rstrip('UuLl')), int(a[-1].rstrip('UuLl')))
    return out


def one(m, ctx, cls, short, np):
    f = [x for x in m.fns_named(cls + '::' + short) if len(x.params) == np]
    ctx.need(f, '%s::%s' % (cls, short))
    return f[-1]


def buffer_of(ctx, m, E, st, base, this):
    f = [x for x in m.fns_named(base + '::buffer') if not x.params and 'const' not in x.d['rt']]
    ctx.need(f, base + '::buffer')
    for s, v in E.exec_fn(f[0], st.copy(), None, ('buf',), [], this, this):
        if v.__class__ is Ptr:
            return v
    raise Broken('the buffer of ' + base)


def done(ctx, E, r):
    ctx.count('obligations', r.n)
    ctx.cover('functions', [fdef(E.m.fns[i]) for i in E.stats['functions'] if i in E.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'hook', x['msg'], x['via'], x['trace'])


def is_changed_fn(ci):
    return re.match(r'__\w+__changed$', ci.short) and not ci.args


def run_exit(ctx, cfg, cls, part):
    """hookExitX: everyone is told about a change, and only then."""
    m = model(cfg, ['d_store'])
    base = inst(m, cls)
    objs = objects(m, cls)
    ctx.need(len(objs) >= 10, 'the variables of the generated store')
    f = one(m, ctx, base, 'hookExitX', 4)
    fc = one(m, ctx, base, 'hookChanged', 3)
    sync = cls == 'drv::SyncStore'
    for name, (off, size) in sorted(objs.items()):
        for changed in (True, False, None):
            reset_atoms()
            r = Chain(m, [(lambda ci: ci.cls == 'stored::StoreJournal' and ci.short == 'changed', 'journal'),
                          (lambda ci: (ci.cls or '').startswith('stored::Signal<') and ci.short in ('operator()', 'call'), 'signal'),
                          (is_changed_fn, 'changed')])
            r.base = base
            E = Engine(m, r)
            fn = f if changed is not None else fc
            st, this, args = start(E, fn)
            b = buffer_of(ctx, m, E, st, base, this)
            args[1] = Ptr(b.base, b.off + off)
            if changed is not None:
                args[3] = ONE if changed else Z
            n = 0
            for s, v in E.exec_fn(fn, st, None, ('root',), args, this, this):
                if s.cons.bot:
                    continue
                n += 1
                r.n += 1
                ev = s.g.get('ev', ())

                def bad(msg):
                    E.report(None_fr(fn), None, msg, s, key=msg[:20])
                if changed is not None and s.g.get('bx', 0) != 1:
                    bad('the exit hook of the store itself is called %d times' % s.g.get('bx', 0))
                if changed is False:
                    if ev:
                        bad('a variable that is not changed is announced by %s' % ev[0][1])
                    continue
                kinds = [e[0] for e in ev]
                want = ['journal', 'signal', 'changed'] if sync and changed else ['changed']
                for k in want:
                    if kinds.count(k) != 1:
                        bad('a change of %s is announced %d times to %s' % (name, kinds.count(k), {'journal': 'the journal', 'signal': 'the connected signals', 'changed': 'its changed hook'}[k]))
                for k, short, a, loc in ev:
                    if k == 'journal' and not (s.cons.proves_eq(a[0] - L(off)) and len(a) > 1 and s.cons.proves_eq(a[1] - E.lin(s, args[2]))):
                        bad('the journal is told that %r bytes at %r changed, instead of %s at %d' % (a[1] if len(a) > 1 else None, a[0], name, off))
                    elif k == 'signal' and not (a and keyval(E, s, a[0]) is not None and s.cons.proves_eq(keyval(E, s, a[0]) - L(off))):
                        bad('the signal of key %r is called for the change of %s at %d' % (a[0] if a else None, name, off))
                    elif k == 'changed' and short != '__%s__changed' % name:
                        bad('%s is called for the change of %s' % (short, name))
            ctx.need(n, 'paths through hookExitX')
            ctx.count('chains')
            done(ctx, E, r)


def keyval(E, s, a):
    if a.__class__ is Ptr:
        return E.lin(s, E.load(s, a, 'unsigned long', 64, True))
    return a if a.__class__ is Lin else None


def run_forward(ctx, cfg):
    """A hook of the base forwards to the implementation, once, what it was given."""
    m = model(cfg, ['d_store'])
    cls = 'drv::HookStore'
    base = inst(m, cls)
    for short in H4:
        pub = short[2:]
        f = one(m, ctx, base, pub, 3)
        reset_atoms()
        r = Chain(m, [(lambda ci: ci.cls == cls and ci.short.startswith('__hook'), 'impl'), (is_changed_fn, 'changed')])
        E = Engine(m, r)
        st, this, args = start(E, f)
        n = 0
        for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            if s.cons.bot:
                continue
            n += 1
            r.n += 1
            forwarded(E, s, f, s.g.get('ev', ()), short, args)
        ctx.need(n, 'paths through ' + pub)
        done(ctx, E, r)
    # what the change is announced with, by the default exit hook
    f = one(m, ctx, base, 'hookExitX', 4)
    for changed in (True, False):
        reset_atoms()
        r = Chain(m, [(lambda ci: ci.cls == cls and ci.short.startswith('__hook'), 'impl'), (is_changed_fn, 'changed'),
                      (lambda ci: (ci.cls or '').startswith(('stored::Signal<', 'stored::StoreJournal')), 'other')])
        E = Engine(m, r)
        st, this, args = start(E, f)
        args[3] = ONE if changed else Z
        for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            if s.cons.bot:
                continue
            r.n += 1
            ev = tuple(x for x in s.g.get('ev', ()) if x[0] == 'impl')
            if changed:
                forwarded(E, s, f, ev, '__hookChanged', args)
            elif ev:
                E.report(None_fr(f), None, 'a change is announced without a change', s, key='nochange')
        done(ctx, E, r)


def forwarded(E, s, f, ev, short, args):
    if len(ev) != 1 or ev[0][1] != short:
        E.report(None_fr(f), None, '%s is forwarded to %s' % (short[2:], ', '.join(x[1] for x in ev) or 'nothing'), s, key='fwd')
        return
    for i, (a, b) in enumerate(zip(ev[0][2], args)):
        if not eqv(s, E, a, b):
            E.report(None_fr(f), None, '%s is forwarded with %r instead of %r as argument %d' % (short[2:], a, b, i), s, key='fwdarg')


def run_callback(ctx, cfg):
    """The callback of the journal reaches the hooks of the store that are overridden."""
    m = model(cfg, ['d_store'])
    for cls, which in (('drv::HookStore', ('EntryRO', 'ExitRO', 'Changed')), ('drv::EntryStore', ('EntryRO',)), ('drv::ExitStore', ('ExitRO',)),
                       ('drv::ChangedStore', ('Changed',))):
        cb = [c for c in m.records if c.startswith(SYNC) and c.rstrip('>').endswith('<stored::VStoreBase<%s::TypedStoreCallback' % cls) or
              c.startswith(SYNC) and c.replace('>', '').endswith('<stored::VStoreBase<%s::TypedStoreCallback' % cls)]
        ctx.need(len(cb) == 1, 'the callback of the journal of ' + cls)
        cb = cb[0]
        for what in which:
            f = one(m, ctx, cb, 'hook' + what, 3)
            f0 = one(m, ctx, cb, 'hook' + what, 0)
            reset_atoms()
            r = Chain(m, [(lambda ci: ci.cls == cls and ci.short.startswith('__hook'), 'impl'), (is_changed_fn, 'changed')])
            E = Engine(m, r)
            st, this, args = start(E, f)
            single = cls == 'drv::ChangedStore'
            if single:
                base = inst(m, cls)
                ref = [x for x in m.records[cb]['fields'] if x['t'].endswith('&')]
                ctx.need(ref, 'the store of the callback')
                o = E.load(st, Ptr(('fld', this, ref[0]['n']), Z), ref[0]['t'].rstrip('& ') + ' *')
                b = buffer_of(ctx, m, E, st, base, o.base)
                args[1] = Ptr(b.base, b.off + objects(m, cls)['i16'][0])
            for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
                if s.cons.bot:
                    continue
                r.n += 1
                ev = s.g.get('ev', ())
                if single:
                    if len(ev) == 0:
                        E.report(None_fr(f), None, 'the hook of a variable is not called for a change that is received', s, key='single')
                else:
                    forwarded(E, s, f, ev, '__hook' + what, args)
            done(ctx, E, r)
            if single:
                continue
            # of all variables
            reset_atoms()
            r = Chain(m, [(lambda ci: ci.short == 'list' and len(ci.args) >= 2, 'list')])
            E = Engine(m, r)
            st, this, args = start(E, f0)
            cbs = set()
            fds = {}

            class Spy(Chain):
                def pre_call(self, E, st, fr, node, ci):
                    if ci.short == 'list' and len(ci.args) >= 2:
                        st.g['ls'] = st.g.get('ls', 0) + 1
                        a = ci.args[0]
                        fds.setdefault('f', a)
                        fds.setdefault('arg', ci.args[1])
                        fds.setdefault('obj', ci.obj)
                        if len(ci.args) > 2 and any(x.__class__ is not Ptr and not (x.__class__ is Lin and x == Z) and False for x in ci.args[2:]):
                            pass
                        return [(st, Z)]
                    return None
            r = Spy(m, [])
            E = Engine(m, r)
            st, this, args = start(E, f0)
            for s, v in E.exec_fn(f0, st, None, ('root',), args, this, this):
                if s.cons.bot:
                    continue
                r.n += 1
                if s.g.get('ls') != 1:
                    E.report(None_fr(f0), None, 'the %s hook is called for the list of variables %d times' % (what, s.g.get('ls', 0)), s, key='list')
            fr_ = fds.get('f')
            if fr_.__class__ is not FnRef:
                done(ctx, E, r)
                continue
            g = m.fns.get(fr_.fid)
            if g is None:
                done(ctx, E, r)
                continue
            if fds['obj'] is not None and not eqv(st, E, fds['obj'], fds['arg']):
                E.report(None_fr(f0), None, 'the hooks of another store are called', st, key='listarg')
            done(ctx, E, r)
            T = [e for e in m.enums.values() if e.get('cls') == 'stored::Type' and 'FlagFunction' in e['v']][0]['v']
            for typ in sorted(set(T[x] for x in ('Int8', 'Uint64', 'Bool', 'Blob', 'String'))):
                for fun in (0, T['FlagFunction']):
                    reset_atoms()
                    r = Chain(m, [(lambda ci: ci.cls == cls and ci.short.startswith('__hook'), 'impl'), (is_changed_fn, 'changed')])
                    E = Engine(m, r)
                    st, _, args = start(E, g)
                    args[2] = L(typ | fun)
                    for s, v in E.exec_fn(g, st, None, ('root',), args, None, None):
                        if s.cons.bot:
                            continue
                        r.n += 1
                        ev = s.g.get('ev', ())
                        if fun:
                            if ev:
                                E.report(None_fr(g), None, 'the %s hook is called for a function' % what, s, key='func')
                        else:
                            forwarded(E, s, g, ev, '__hook' + what, args[2:5])
                    done(ctx, E, r)


# -- the journal -----------------------------------------------------------
SJ = 'stored::StoreJournal'
OPEN = ('ghost', 'open')
OLEN = ('ghost', 'olen')


class Jour(Rule):
    """Hooks of the journal around its access to the store."""
    maxdepth = 8
    K = 40
    unroll = 2

    def __init__(self, m, f):
        self.m, self.f = m, f
        self.n = 0
        self.nev = 0

    def cb(self, ci):
        return (ci.cls or '').endswith('StoreCallback') or ci.short in ('hookEntryRO', 'hookExitRO', 'hookChanged', 'doHookChanged') and ci.virt

    def store_base(self, E, st, p):
        return p.__class__ is Ptr and p.base == self.sbuf

    def pre_call(self, E, st, fr, node, ci):
        s = ci.short
        if ci.cls == SJ and s == 'keyToBuffer':
            k = E.lin(st, ci.args[0])
            return [(st, Ptr(self.sbuf, k))]
        if s in ('hookEntryRO', 'hookExitRO', 'hookChanged'):
            self.n += 1
            self.nev += 1
            a = ci.args
            if s == 'hookEntryRO':
                if st.g.get('open'):
                    E.report(fr, node, 'an entry hook within another', st, key='nest')
                st.g['open'] = 'all' if not a else 'one'
                if a:
                    st.env[OPEN], st.env[OLEN] = E.as_ptr(st, a[1], None), E.lin(st, a[2])
                st.g['ro'] = 1
            elif s == 'hookExitRO':
                if st.g.get('open') != ('all' if not a else 'one'):
                    E.report(fr, node, 'an exit hook without the matching entry', st, key='noentry')
                elif a and not (eqv(st, E, E.as_ptr(st, a[1], None), st.env[OPEN]) and st.cons.proves_eq(E.lin(st, a[2]) - st.env[OLEN])):
                    E.report(fr, node, 'the exit hook is told another buffer than the entry hook', st, key='xbuf')
                st.g.pop('open', None)
                st.g['closed'] = 1
            else:
                self.changed(E, st, fr, node, ci)
            return [(st, Z)]
        if s in ('memcpy', 'memmove') and len(ci.args) == 3:
            d, q, n = E.as_ptr(st, ci.args[0], None), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
            if q.base == self.sbuf:
                self.read(E, st, fr, node, q, n)
            if d.base == self.sbuf:
                self.write(E, st, fr, node, d, q, n)
            return None
        if s == 'encode' and len(ci.args) == 3 and ci.virt:
            q, n = E.as_ptr(st, ci.args[0], None), E.lin(st, ci.args[1])
            if q.base == self.sbuf:
                self.read(E, st, fr, node, q, n)
            return [(st, Z)]
        if ci.cls == SJ and s in ('bumpSeq', 'changed'):
            return [(st, E.fresh('seq'))]
        return self.more(E, st, fr, node, ci)

    def more(self, E, st, fr, node, ci):
        return None

    def hooked(self, E, st):
        """Whether the journal has a callback, on this path."""
        v = E.load(st, Ptr(('fld', ('this', SJ), self.cbf['n']), Z), self.cbf['t'])
        return E.decide(st, E.truth(st, v))

    def read(self, E, st, fr, node, q, n):
        self.n += 1
        h = self.hooked(E, st)
        if h is False:
            return
        o = st.g.get('open')
        if o == 'all':
            return
        if o != 'one':
            E.report(fr, node, 'the store is read without the entry hook', st, key='unhooked')
        elif not (eqv(st, E, q, st.env[OPEN]) and st.cons.proves_eq(n - st.env[OLEN])):
            E.report(fr, node, '%r bytes are read, while the entry hook was told %r' % (n, st.env[OLEN]), st, key='rlen')

    def write(self, E, st, fr, node, d, q, n):
        self.n += 1
        st.g['wrote'] = 1

    def changed(self, E, st, fr, node, ci):
        if not ci.args:
            if not st.g.get('wrote'):
                E.report(fr, node, 'the changed hook is called before the store is written', st, key='early')
            if st.g.get('chg'):
                E.report(fr, node, 'the changed hook is called twice', st, key='twice')
            st.g['chg'] = 1


def cb_field(m, ctx):
    fs = [x for c, x in m.fields(SJ) if c == SJ and unq(x['t']).endswith('*') and 'Callback' in x['t']]
    ctx.need(len(fs) == 1, 'the callback of the journal')
    return fs[0]


def run_journal(ctx, short, np):
    m = model('std', ['synchronizer'])
    f = one(m, ctx, SJ, short, np)
    reset_atoms()
    r = Jour(m, f)
    r.cbf = cb_field(m, ctx)
    E = Engine(m, r)
    st, this, args = start(E, f)
    bf = [x for x in m.fns_named(SJ + '::buffer') if not x.params]
    ctx.need(bf, SJ + '::buffer')
    r.sbuf = None
    for s, v in E.exec_fn(bf[0], st.copy(), None, ('buf',), [], this, this):
        if v.__class__ is Ptr:
            r.sbuf = v.base
    ctx.need(r.sbuf, 'the buffer of the journal')
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        n += 1
        r.n += 1
        if s.g.get('open'):
            E.report(None_fr(f), None, 'a path without the exit hook', s, key='noexit')
        if s.g.get('wrote'):
            h = r.hooked(E, s)
            if h is not False and not s.g.get('chg'):
                E.report(None_fr(f), None, 'the store is written, but the changed hook is not called', s, key='nochg')
    ctx.need(n, 'paths through ' + f.name)
    done(ctx, E, r)
    if short.startswith('encode'):
        ctx.need(r.nev, 'hooks in ' + f.name)


class Dec(Jour):
    """Every applied update is put on the list, and the list is announced."""
    unroll = 1
    K = 60
    W = ('ghost', 'wkey')
    WS = ('ghost', 'wsize')
    PK = ('ghost', 'pkey')
    PS = ('ghost', 'psize')
    CNT = ('ghost', 'count')

    def write(self, E, st, fr, node, d, q, n):
        self.n += 1
        st.g['wrote'] = 1
        if st.g.get('w'):
            E.report(fr, node, 'an update is written twice', st, key='wtwice')
        st.g['w'] = 1
        st.env[self.W], st.env[self.WS] = d.off, n
        self.match(E, st, fr, node)

    def match(self, E, st, fr, node):
        if st.g.get('w') and st.g.get('p'):
            if not (st.cons.proves_eq(st.env[self.W] - st.env[self.PK]) and st.cons.proves_eq(st.env[self.WS] - st.env[self.PS])):
                E.report(fr, node, '%r bytes are listed as changed, and %r are written' % (st.env[self.PS], st.env[self.WS]), st, key='listed')

    def more(self, E, st, fr, node, ci):
        s = ci.short
        if s == 'doHookChanged':
            return [(st, self.dohook)]
        if s.startswith('push_back') and len(ci.args) == 4:
            self.n += 1
            if st.g.get('p'):
                E.report(fr, node, 'an update is listed twice', st, key='ptwice')
            st.g['p'] = 1
            st.env[self.CNT] = st.env.get(self.CNT, Z) + 2
            st.env[self.PK], st.env[self.PS] = E.lin(st, ci.args[2]), E.lin(st, ci.args[3])
            p = E.as_ptr(st, ci.args[1], None)
            E.store(st, p, E.lin(st, E.load(st, p, 'unsigned long', 64, True)) + 2, 'unsigned long', 64, True)
            self.match(E, st, fr, node)
            return [(st, Z)]
        if s == 'pop_front' and len(ci.args) == 2:
            self.n += 1
            if not st.g.get('pop'):
                self.iteration(E, st, fr, node)
            st.env[self.CNT] = st.env.get(self.CNT, Z) - 1
            p = E.as_ptr(st, ci.args[1], None)
            c = E.lin(st, E.load(st, p, 'unsigned long', 64, True))
            E.store(st, p, c - 1, 'unsigned long', 64, True)
            k = st.g.get('pop', 0)
            v = E.fresh('popped', None, 32, True)
            if k == 2:
                E.report(fr, node, 'an entry is taken from the list, and not announced', st, key='skip')
            st.g['pop'] = min(k + 1, 2)
            st.env[('ghost', 'pop%d' % min(k, 1))] = v
            return [(st, v)]
        if s == 'decode' and ci.virt and len(ci.args) == 3:
            self.iteration(E, st, fr, node)
            v = E.fresh('key', None, 32, True)
            lp = E.as_ptr(st, ci.args[1], None)
            ln = E.lin(st, E.load(st, lp, 'unsigned long', 64, True))
            E.store(st, lp, E.fresh('len', None, 64, True, 0, 1 << 40), 'unsigned long', 64, True)
            E.havoc(st, E.as_ptr(st, ci.args[0], None).base)
            E.havoc(st, E.as_ptr(st, ci.args[2], None).base)
            return [(st, v)]
        if s == 'keySize' or s == 'size' and ci.virt:
            return [(st, E.fresh('ks', None, 64, True, 1, 4))]
        return None

    def iteration(self, E, st, fr, node):
        if st.g.pop('pop', None):
            E.report(fr, node, 'an update that was listed is not announced', st, key='notann')
        if st.g.get('w') and not st.g.get('p') and self.dohook != Z and self.hooked(E, st) is not False:
            E.report(fr, node, 'an update is applied, but not announced', st, key='notlisted')
        if st.g.get('p') and not st.g.get('w'):
            E.report(fr, node, 'an update is announced, but not applied', st, key='notapplied')
        for k in ('w', 'p'):
            st.g.pop(k, None)

    def changed(self, E, st, fr, node, ci):
        self.n += 1
        a = ci.args
        if len(a) != 3 or st.g.get('pop') != 2:
            E.report(fr, node, 'the changed hook is not called with the next key and size of the list', st, key='ann')
            return
        k, z = st.env[('ghost', 'pop0')], st.env[('ghost', 'pop1')]
        p = E.as_ptr(st, a[1], None)
        if p.base != self.sbuf or not st.cons.proves_eq(p.off - k) or not st.cons.proves_eq(E.lin(st, a[2]) - z):
            E.report(fr, node, 'the changed hook is not called with the next key and size of the list', st, key='ann')
        st.g.pop('pop')


def run_dec(ctx, dohook):
    m = model('std', ['synchronizer'])
    f = one(m, ctx, SJ, 'decodeUpdates', 4)
    reset_atoms()
    r = Dec(m, f)
    r.dohook = ONE if dohook else Z
    r.cbf = cb_field(m, ctx)
    E = Engine(m, r)
    st, this, args = start(E, f)
    bf = [x for x in m.fns_named(SJ + '::buffer') if not x.params]
    for s, v in E.exec_fn(bf[0], st.copy(), None, ('buf',), [], this, this):
        if v.__class__ is Ptr:
            r.sbuf = v.base
    if dohook:
        st.cons.add_ne(E.lin(st, E.load(st, Ptr(('fld', this, r.cbf['n']), Z), r.cbf['t'])))
    st.env[r.CNT] = Z
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        n += 1
        r.n += 1
        r.iteration(E, s, None_fr(f), None)
        if not s.cons.proves_eq(s.env.get(r.CNT, Z)):
            E.report(None_fr(f), None, 'updates that were listed are not announced', s, key='left')
        r.left(E, s, f) if hasattr(r, 'left') else None
    ctx.need(n and r.n > 5, 'paths through ' + f.name)
    done(ctx, E, r)


# -- signals -----------------------------------------------------------------
class Sig(Rule):
    """What is done with every function that is connected."""
    maxdepth = 6
    K = 40
    NEXT, END, DUE, CUR, NB, TOK = [('ghost', 'sig' + x) for x in ('next', 'end', 'due', 'cur', 'nb', 'tok')]
    EL = ('sige',)
    BUF = ('buf', ('sigs',))

    def __init__(self, m, f, args, what, key, token):
        self.m, self.f, self.a, self.what, self.key, self.token = m, f, args, what, key, token
        self.n = 0

    def bad(self, E, fr, node, st, msg):
        E.report(fr, node, msg, st, key=msg[:24])

    def range(self, E, st, fr, node, keyed):
        self.n += 1
        if st.g.get('rng'):
            self.left(E, st, fr, node)
        st.g['rng'] = 1
        b = E.fresh('first', None, None, None, 0, 1 << 60)
        e = E.fresh('last', None, None, None, 0, 1 << 60)
        st.cons.add_le(b - e)
        st.env[self.NEXT], st.env[self.END] = b, e
        if keyed != (self.key is not None):
            self.bad(E, fr, node, st, 'the functions of another key are looked up' if keyed else 'the functions of all keys are looked up')
        return Ptr(self.BUF, b), Ptr(self.BUF, e)

    def at_head(self, E, st, fr, b, body):
        if st.cons.proves_eq(st.env[self.NEXT] - st.env[self.END]):
            st.env[self.NEXT] = st.env[self.END]
        return None

    def left(self, E, st, fr, node):
        if not st.cons.proves_eq(st.env[self.NEXT] - st.env[self.END]):
            self.bad(E, fr, node, st, 'not all functions that are connected are %s' % self.what)
        if self.DUE in st.env:
            self.bad(E, fr, node, st, 'a connection with the given token is not removed')

    def conn(self, ci):
        return ci.cls and kind(unq(ci.cls)) in ('unordered_multimap', 'multimap', 'unordered_map', 'map')

    def iskey(self, E, st, a):
        k = keyval(E, st, a)
        return k is not None and st.cons.proves_eq(k - self.key) if self.key is not None else False

    def pre_call(self, E, st, fr, node, ci):
        s, a = ci.short, ci.args
        if ci.cls and ITER.search(ci.cls) and ci.obj.__class__ is Ptr and 'obj' in node:
            v = E.iter_val(st, fr, node['obj'], ci.obj)
            if v.__class__ is not Ptr or v.base != self.BUF:
                return None
            if s in ('operator->', 'operator*'):
                st.env[self.CUR] = v.off
                E.havoc(st, self.EL)
                return [(st, Ptr(self.EL, Z))]
            if s == 'operator++':
                # passing an element
                if self.what == 'removed' and st.cons.proves_eq(v.off - st.env.get(self.NEXT, Z)):
                    t = E.load(st, Ptr(('fld', ('fld', self.EL, 'second'), 'first'), Z), 'void *')
                    if t is not None and st.cons.proves_eq(st.env.get(self.CUR, Z) - v.off) and differs(st, E, t, self.token):
                        st.env[self.NEXT] = v.off + 1
                    else:
                        st.env[self.DUE] = v.off
                new = Ptr(v.base, v.off + 1)
                if fr.fn.nodes.get(node['obj'], {}).get('lv'):
                    E.store(st, ci.obj, new)
                return [(st, v if len(a) == 1 else ci.obj if node.get('lv') else new)]
            return None
        if self.conn(ci):
            if s == 'equal_range' and len(a) == 1:
                if not self.iskey(E, st, a[0]):
                    self.bad(E, fr, node, st, 'the functions of another key are looked up')
                f, l = self.range(E, st, fr, node, True)
                r = ('sigr',)
                st.env[('fld', r, 'first')], st.env[('fld', r, 'second')] = f, l
                return [(st, Ptr(r, Z))]
            if s in ('begin', 'cbegin') and not a:
                return [(st, self.range(E, st, fr, node, False)[0])]
            if s in ('end', 'cend') and not a:
                return [(st, Ptr(self.BUF, st.env[self.END]) if st.g.get('rng') else Ptr(('sigend',), Z))]
            if s == 'bucket_count':
                return [(st, self.buckets(E, st))]
            if s in ('begin', 'cbegin') and len(a) == 1:
                b = st.env[self.NB]
                if not st.cons.proves_eq(E.lin(st, a[0]) - b):
                    self.bad(E, fr, node, st, 'not all buckets of functions are visited once')
                st.env[self.NB] = E.lin(st, a[0]) + 1
                return [(st, self.range(E, st, fr, node, False)[0])]
            if s in ('end', 'cend') and len(a) == 1:
                if self.NB not in st.env or not st.cons.proves_eq(E.lin(st, a[0]) + 1 - st.env[self.NB]):
                    self.bad(E, fr, node, st, 'the end of another bucket is used')
                return [(st, Ptr(self.BUF, st.env.get(self.END, Z)))]
            if s == 'erase' and len(a) == 1:
                self.n += 1
                v = a[0]
                cn = fr.fn.nodes.get(node['c'][0], {})
                if is_iter(cn.get('t', '').rstrip('& ')):
                    v = E.iter_val(st, fr, node['c'][0], v)
                    return self.erase(E, st, fr, node, v)
                if self.what != 'removed' or self.token is not None:
                    self.bad(E, fr, node, st, 'all functions of the key are removed')
                elif not self.iskey(E, st, v):
                    self.bad(E, fr, node, st, 'the functions of another key are removed')
                st.g['all'] = 1
                return [(st, E.fresh('erased', None, 64, True))]
            if s == 'clear':
                if self.what != 'removed' or self.key is not None:
                    self.bad(E, fr, node, st, 'the functions of all keys are removed')
                st.g['all'] = 1
                return [(st, Z)]
            if s in ('emplace', 'insert', 'operator[]', 'try_emplace', 'erase', 'swap', 'extract', 'operator=') and self.what != 'connected':
                self.bad(E, fr, node, st, 'the connections change')
                return [(st, Ptr(self.EL, Z))]
            if s == 'emplace' and len(a) == 2:
                self.n += 1
                if st.g.get('add'):
                    self.bad(E, fr, node, st, 'a function is connected twice')
                st.g['add'] = 1
                k = keyval(E, st, a[0])
                if self.key is not None and (k is None or not st.cons.proves_eq(k - self.key)):
                    self.bad(E, fr, node, st, 'a function is connected to another key')
                p = E.as_ptr(st, a[1], None)
                t = st.env.get(('fld', p.base, 'first'))
                if t is not None and not same(st, E, t, self.token):
                    self.bad(E, fr, node, st, 'a function is connected with another token')
                return [(st, Ptr(self.EL, Z))]
        if ci.cls and ci.cls.startswith('stored::impl::Callable<') and s == 'operator()' and ci.obj.__class__ is Ptr:
            b = ci.obj.base
            while b[0] == 'fld':
                b = b[1]
            if b == self.EL:
                self.n += 1
                if self.what != 'called':
                    self.bad(E, fr, node, st, 'a function is called that is to be %s' % self.what)
                elif not st.g.get('rng') or not st.cons.proves_eq(st.env[self.CUR] - st.env[self.NEXT]):
                    self.bad(E, fr, node, st, 'a function is called twice, or one is skipped')
                for x, y in zip(a, self.a):
                    x = E.load(st, x, 'int', 32, False) if x.__class__ is Ptr and y.__class__ is Lin else x
                    if not eqv(st, E, x, y):
                        self.bad(E, fr, node, st, 'a function is called with other arguments')
                st.env[self.NEXT] = st.env[self.CUR] + 1
                return [(st, Z)]
        return None

    def erase(self, E, st, fr, node, v):
        self.n += 1
        if self.what != 'removed':
            self.bad(E, fr, node, st, 'a connection is removed')
            return [(st, v)]
        o = v.off if v.__class__ is Ptr and v.base == self.BUF else None
        d = st.env.pop(self.DUE, None)
        nx = d if d is not None else st.env.get(self.NEXT, Z)
        if o is None or not st.cons.proves_eq(o - nx):
            self.bad(E, fr, node, st, 'another connection is removed')
            return [(st, v)]
        t = E.load(st, Ptr(('fld', ('fld', self.EL, 'second'), 'first'), Z), 'void *')
        if t is None or not st.cons.proves_eq(st.env.get(self.CUR, Z) - o) or self.token is None or not same(st, E, t, self.token):
            self.bad(E, fr, node, st, 'a connection with another token is removed')
        st.env[self.NEXT] = o + 1
        return [(st, Ptr(self.BUF, o + 1))]

    def buckets(self, E, st):
        k = ('ghost', 'sigbc')
        if k not in st.env:
            st.env[k] = E.fresh('buckets', None, None, None, 1, 1 << 60)
        return st.env[k]

    def at_exit(self, E, st, fr):
        self.n += 1
        if self.what == 'connected':
            if not st.g.get('add'):
                self.bad(E, fr, None, st, 'a function is not connected')
            return
        if st.g.get('all'):
            return
        if not st.g.get('rng'):
            self.bad(E, fr, None, st, 'not all functions that are connected are %s' % self.what)
            return
        self.left(E, st, fr, None)
        if st.env[self.NB] != Z and not st.cons.proves_eq(st.env[self.NB] - self.buckets(E, st)):
            self.bad(E, fr, None, st, 'not all buckets of functions are visited once')


def scal(st, E, t):
    return t if t.__class__ is Lin else E.lin(st, t)


def same(st, E, a, b):
    return eqv(st, E, a, b) or st.cons.proves_eq(delta(st, E, a, b))


def delta(st, E, a, b):
    if a.__class__ is Ptr and b.__class__ is Ptr and a.base[0] == 'sym' == b.base[0] and a.off == b.off:
        return A(a.base[1]) - A(b.base[1])
    return scal(st, E, a) - scal(st, E, b)


def differs(st, E, a, b):
    if b is None:
        return False
    return st.cons.proves_ne(delta(st, E, a, b))


def run_signal(ctx, cfg):
    m = model(cfg, ['d_store'])
    cls = [c for c in m.records if re.match(r'stored::Signal<unsigned long, void \*, int>$', c)]
    ctx.need(cls, 'the signal of the driver')
    cls = cls[0]
    jobs = []
    for f in m.fns.values():
        if f.cls == cls and f.short in ('call', 'operator()', 'disconnect', 'connect', 'connect_'):
            if not (f.short == 'operator()' and f.params[0]['t'].endswith('&&')):
                jobs.append(f)
    ctx.need(len(jobs) >= 5, 'the functions of Signal')
    for f in jobs:
        reset_atoms()
        r = Sig(m, f, None, None, None, None)
        E = Engine(m, r)
        st, this, args = start(E, f)
        vals = []
        for p, a in zip(f.params, args):
            v = a
            if v.__class__ is Ptr and (p['t'].endswith('&') or p.get('isref')):
                v = E.load(st, v, unq(p['t'].rstrip('& ')), p.get('rw'), None) if not 'lambda' in p['t'] else v
            vals.append(v)
        s = f.short
        if s in ('call', 'operator()'):
            r.what = 'called'
            r.key = scal(st, E, vals[0]) if len(vals) == 2 else None
            r.a = vals[-1:]
        elif s == 'disconnect':
            r.what = 'removed'
            r.key = vals[0] if vals else None
            r.token = vals[1] if len(vals) > 1 else None
        else:
            r.what = 'connected'
            r.key = vals[0] if len(vals) > 2 else None
            r.token = vals[-1]
        for k in (r.NEXT, r.END, r.NB, r.CUR):
            st.env[k] = Z
        n = 0
        for x, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            if x.cons.bot:
                continue
            n += 1
            r.at_exit(E, x, None_fr(f))
        ctx.need(n, 'paths through ' + f.name)
        done(ctx, E, r)


def p17(ctx):
    ctx.rule('a change of a variable is announced once to the journal, the connected signals, and the changed hook of that variable, and only a change is')
    ctx.rule('hooks are forwarded once, with the same arguments, to the implementation of the store')
    ctx.rule('the journal reads the store between the read hooks, and announces every update it applies')
    jobs = []
    for cfg in ('std', 'alt'):
        jobs += [(run_exit, cfg, c, 0) for c in ('drv::SyncStore', 'drv::PlainStore')]
        jobs += [(run_forward, cfg), (run_callback, cfg), (run_signal, cfg)]
    jobs += [(run_journal, a, n) for a, n in (('encodeBuffer', 2), ('decodeBuffer', 2), ('encodeUpdate', 2))]
    jobs += [(run_dec, True), (run_dec, False)]
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
