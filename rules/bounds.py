"""Every access is inside the object it goes to."""
from common import *


HEATSHRINK = re.compile(r'heatshrink_(?:en|de)coder_(sink|poll)$')


ONES = ((1 << 32) - 1, (1 << 64) - 1)


class Bounds(Rule):
    maxdepth = 9
    K = 12
    skip = ('front', 'back', 'pop')

    def __init__(self, m, io=('encode', 'decode'), noinline=()):
        self.m = m
        self.io = io
        self.noinline = tuple(noinline)
        self.n = self.ok = self.unk = 0

    def templates(self, E, env):
        fs = [v for k, v in env.items() if k[0] == 'fld' and k[1][0] == 'this' and v.__class__ is Lin]
        for k, z in env.items():
            if k[0] == 'fld' and k[2] == '#size' and k[1][0] == 'fld' and k[1][1][0] == 'this':
                for v in fs:
                    yield v - z

    def gkey(self, st):
        # all-ones results are sentinels; keep them apart
        # and so do the states of a state machine
        return (tuple(sorted(k for k, v in st.env.items() if v.__class__ is Lin and v.const and v.c in ONES and k[0] == 'loc')),
                tuple(v.c if v.__class__ is Lin and v.const else None for v in map(st.env.get, self.statefields)))

    statefields = ()
    nosplit = False

    def entry_states(self, this):
        """Combinations of (field, value) of the fields of enumeration types: each is analysed on its own."""
        if this is None or this[1] not in self.m.records:
            return [()]
        fs = [(('fld', this, f['n']), sorted(set(self.m.enums[f['t']]['v'].values())))
              for f in self.m.records[this[1]]['fields'] if f['t'] in self.m.enums]
        n = 1
        for _, v in fs:
            n *= len(v)
        if not fs or n > 16 or self.nosplit:
            return [()]
        self.statefields = tuple(k for k, _ in fs)
        import itertools
        return [tuple(zip(self.statefields, c)) for c in itertools.product(*(v for _, v in fs))]

    def inline(self, E, st, fr, ci):
        if ci.cls and ci.cls.startswith(self.noinline):
            return False
        return None

    def on_access(self, E, st, fr, node, p, nb, wr, what):
        if nb is None or p is None or what in self.skip:
            return
        e = E.extent(st, p.base)
        if p.base[0] == 'buf' and kind(unq(E.basetype.get(p.base[1]) or '')) == 'deque':
            return      # whether a queue is empty is up to the protocol state
        if e is None:
            self.unk += 1
            return
        self.n += 1
        lo = st.cons.proves(-p.off)
        hi = st.cons.proves(p.off + nb - e)
        if lo and hi:
            self.ok += 1
            return
        E.report(fr, node, '%s of %r bytes at offset %r of %s, which holds %r' % (what, nb, p.off, keyname(p.base), e), st,
                 key='bounds %s' % (what,))

    def pre_call(self, E, st, fr, node, ci):
        if ci.virt and ci.target is None or ci.short == 'operator()':
            args = list(ci.args)
            for i, t in enumerate((ci.node.get('pt') or [])[:len(args)]):
                if t.endswith('&') and args[i].__class__ is Ptr:
                    args[i] = E.load(st, args[i], t.rstrip('& '))
            for p, n in zip(args, args[1:]):
                if p.__class__ is Ptr and n.__class__ is Lin:
                    self.on_access(E, st, fr, node, p, n, False, 'hand over (%s)' % ci.short)
        h = HEATSHRINK.match(ci.fn or '')
        if h and ci.target is None and len(ci.args) == 4:
            # the contract of the library: at most what was given is consumed or produced
            p, n = E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
            self.on_access(E, st, fr, node, p, n, h.group(1) == 'poll', ci.fn)
            if h.group(1) == 'poll':
                E.weak_write(st, p)
            o = E.fresh(h.group(1), 'unsigned long', 64, True)
            st.cons.add_le(o - n)
            E.store(st, E.as_ptr(st, ci.args[3], None), o, 'unsigned long', 64, True)
            return [(st, E.fresh_val(st, fr, node, ci.fn))]
        return None


def run_bounds(ctx, cfg, units, fid, assume=None, rule=None, cls=None):
    m = model(cfg, units)
    f = m.fns[fid]
    reset_atoms()
    for split in (False, True):
        r = rule(m) if rule else Bounds(m)
        r.nosplit = not split
        E = Engine(m, r)
        exits = 0
        for sv in r.entry_states(('this', cls or f.cls) if cls or f.cls else None):
            st, this, args = start(E, f, cls)
            for k, v in sv:
                st.env[k] = Lin(v)
            bind_buffer(E, st, f, args)
            if assume:
                assume(E, st, f, this, args)
            exits += len(E.exec_fn(f, st, None, ('root',), args, this, this))
        if not E.reports:
            break       # either analysis is sound; the second one keeps the states of the layer apart
    ctx.count('exit_states', exits)
    ctx.count('entry_points')
    ctx.count('obligations', r.n)
    ctx.count('discharged', r.ok)
    ctx.count('accesses_to_objects_of_unknown_size', r.unk)
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'bounds', x['msg'], x['via'], x['trace'])


def p04(ctx):
    from frames import RANGES, run_ranges, add
    m = model('std', PUNITS)
    ctx.rule('every read, write, copy and hand-over of (pointer, length) in the encode and decode functions of all layers, and in what they call, lies within '
             'the object it goes to, for any frame length and content and any layer state')
    ctx.rule('sequence numbers of the debug ARQ layer stay in their range in every member function')
    ctx.assumptions.append('heatshrink consumes and produces at most the number of bytes it is given')
    jobs = [('b', f.id) for f in m.fns.values() if f.cls and f.cls in m.records and PL in m.mro(f.cls) and PFILES.search(relf(f.file)) and
            (f.short == 'decode' and len(f.params) == 2 or f.short == 'encode' and len(f.params) == 3 or f.short in ('recv', 'decodeBuffer') and f.cls != 'stored::ZmqLayer') and f.cls != 'stored::Debugger' and f.cls != 'stored::SyncConnection']
    ctx.need(len(jobs) >= 30, 'encoders and decoders of the layers')
    jobs += [('r', c, k) for c, k in RANGES.items()]

    def assume(E, st, f, this, args):
        pass

    def job(c, j):
        if j[0] == 'r':
            add(c, 'range', run_ranges(c, j[1], j[2], PUNITS))
            return
        f = m.fns[j[1]]

        class R(Bounds):
            ranges = RANGES.get(f.cls)
        run_bounds(c, 'std', PUNITS, j[1], assume, R)
    pmap(ctx, job, sorted(jobs))


PUNITS = ['protocol', 'compress', 'zmq', 'd_fifo', 'debugger']
PFILES = re.compile(r'(^|/)(src|include/libstored)/(protocol|compress|zmq|debugger)\.(cpp|h)$')
