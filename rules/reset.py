"""reset() brings every layer back to the state after construction."""
from common import *
from frames import None_fr, PROTO_UNITS

# fields that are no communication state
KEEP = {
    'stored::ArqLayer': ('m_spare',             # a pool of buffers
                         'm_encodeQueueSize'),  # the sum over the queue, which is emptied element by element
    'stored::XsimLayer': ('m_inFlight',),       # reset() sends a keep-alive byte itself
    'stored::CompressLayer': ('m_encoder', 'm_decoder', 'm_decodeBuffer'),   # the coders: see P08
    'stored::IdleCheckLayer': ('m_idleUp', 'm_idleDown'),   # activity since the user last looked, not of a frame
}
# end points of the debugger's trace and stream buffers: not part of a protocol stack
NOSTACK = re.compile(r'^stored::(Stream<|Debugger$|FrameMerger)')


class Mod(Rule):
    """Which fields of the object are changed."""
    maxdepth = 8
    K = 6

    def __init__(self, this):
        self.this, self.mod = this, set()

    def hit(self, b):
        for k in chain(b):
            if k[0] == 'fld' and k[1] == self.this:
                self.mod.add(k[2])

    def on_store(self, E, st, fr, node, loc, val):
        self.hit(loc.base)

    def pre_call(self, E, st, fr, node, ci):
        if ci.obj.__class__ is Ptr and not node.get('cm') and node['k'] != 'ctor' and ci.target is None and kind(unq(E.basetype.get(ci.obj.base) or ci.cls or '')):
            if ci.short not in ('begin', 'end', 'data', 'front', 'back', 'operator[]', 'at', 'find', 'size', 'empty', 'reserve', 'cbegin', 'cend'):
                self.hit(ci.obj.base)
        return None


class Reset(Rule):
    maxdepth = 8
    K = 8

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.root = ids(m, PL, 'reset')
        self.n = 0

    def pre_call(self, E, st, fr, node, ci):
        if ci.short == 'reset' and not ci.args and overroot(self.m, ci.fid, self.root):
            if ci.virt and ci.target is None and self.cls == PL or ci.cls == PL and ci.obj.__class__ is Ptr and ci.obj.base == ('this', self.cls):
                self.n += 1
                st.g['fwd'] = min(st.g.get('fwd', 0) + 1, 2)
                return [(st, Z)]
        return None


def const(s, l):
    lo, hi = s.cons.rng(l)
    return int(lo) if lo == hi else None


def norm_val(E, s, this, fl):
    b = ('fld', this, fl['n'])
    t = unq(fl['t'])
    if kind(t):
        E.basetype.setdefault(b, t)
        return ('size', const(s, E.size(s, b)))
    v = s.env.get(b)
    if v is None:
        return None
    if v.__class__ is Lin:
        return ('val', const(s, v))
    if v.__class__ is Ptr:
        return ('ptr', 0) if v.base == NULLB else ('ptr', None)
    if v.__class__ is B:
        l = E.lin(s, v)
        return ('val', l.c) if l.const else ('val', None)
    return None


def run_reset(ctx, cls, units):
    m = model('std', units)
    this = ('this', cls)
    rs = own_methods(m, cls, 'reset', 0)
    chaincls = [c for c in m.mro(cls) if c != PL and c in m.records]
    # what communication changes
    mod = set()
    for c in [cls]:
        for nm, n in (('encode', 3), ('decode', 2)):
            for f in own_methods(m, c, nm, n):
                reset_atoms()
                r = Mod(this)
                E = Engine(m, r)
                st, _, args = start(E, f, cls)
                bind_buffer(E, st, f, args)
                E.exec_fn(f, st, None, ('root',), args, this, this)
                mod |= r.mod
    own = {x['n']: x for x in m.records[cls]['fields']}
    mod &= set(own)
    if not rs:
        # nothing of its own to reset
        mod -= set(KEEP.get(cls, ()))
        if mod:
            ctx.finding('%s:%d' % (relf(m.records[cls]['file']), m.records[cls]['line']), cls, 'reset', 'has no reset(), but encode/decode change %s' % ', '.join(sorted(mod)))
        return
    f = rs[0]
    ctors = [c for c in m.fns_named(cls + '::(ctor)')]
    ctors = [c for c in ctors if not (len(c.params) == 1 and cls in c.params[0]['t'])]
    ctx.need(ctors, 'constructor of ' + cls)
    init = {}
    for c in ctors:
        reset_atoms()
        r = Reset(m, cls)
        E = Engine(m, r)
        st, _, args = start(E, c, cls)
        for s, v in E.exec_fn(c, st, None, ('root',), args, this, this):
            for n, x in own.items():
                init.setdefault(n, set()).add(norm_val(E, s, this, x))
    reset_atoms()
    r = Reset(m, cls)
    E = Engine(m, r)
    st, _, args = start(E, f, cls)
    for n, x in own.items() if cls != PL else ():
        E.basetype[('fld', this, n)] = unq(x['t'])
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        ctx.count('exit_states')
        ctx.count('obligations')
        ok = s.g.get('fwd', 0) == 1
        if cls == PL and not ok and not s.g.get('fwd'):
            d = E.load(s, Ptr(('fld', this, 'm_down'), Z), 'stored::ProtocolLayer *')
            ok = d == NULL or d.__class__ is Ptr and d.base[0] == 'sym' and s.cons.proves_eq(A(d.base[1]))
        if not ok:
            E.report(None_fr(f), None, 'the layer below is reset %s' % ('more than once' if s.g.get('fwd', 0) else 'not at all on some path'), s, key='fwd')
        for n in sorted(mod) if cls != PL else ():
            if n in KEEP.get(cls, ()):
                continue
            iv = init.get(n, set())
            if len(iv) != 1 or list(iv)[0] is None or list(iv)[0][1] is None:
                continue        # not a constant when constructed
            ctx.count('obligations')
            ctx.cover('fields', ['%s::%s' % (cls, n)])
            rv = norm_val(E, s, this, own[n])
            if rv != list(iv)[0]:
                E.report(None_fr(f), None, '%s is %s after reset(), but %s after construction' % (n, show(rv), show(list(iv)[0])), s, key='field ' + n)
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'reset', x['msg'], x['via'], x['trace'])


def show(v):
    if v is None:
        return 'unchanged'
    return ('size ' if v[0] == 'size' else '') + (str(v[1]) if v[1] is not None else 'unknown')


def p07(ctx):
    ctx.rule('every field that encode() or decode() of a layer changes and that has a constant value after construction has that value again after reset(); '
             'reset() resets the layer below exactly once')
    m = model('std', PROTO_UNITS)
    cl = [c for c in layers(m) if not NOSTACK.match(c) and (own_methods(m, c, 'encode', 3) or own_methods(m, c, 'decode', 2))]
    pmap(ctx, lambda c, x: run_reset(c, x, PROTO_UNITS), cl)
