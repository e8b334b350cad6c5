"""How the protocol layers cut, mark and forward frames on the encode side."""
from common import *

GP = ('ghost', 'pos')      # input bytes consumed
GT = ('ghost', 'total')    # bytes passed down
GF = ('ghost', 'frame')    # bytes passed down since the last end of frame


class Encode(Rule):
    """Watches the downward calls of one layer's encode()."""
    maxdepth = 10
    K = 14

    def __init__(self, m, cls, f, mode):
        self.m, self.cls, self.f, self.mode = m, cls, f, mode
        self.root = ids(m, PL, 'encode')
        self.calls = set()
        self.len = None
        self.inbase = None
        self.lower = None
        self.limits = []
        self.mtuids = ids(m, PL, 'mtu')
        self.fields = self.cand = self.touched = ()
        self.checked = 0
        self.multi = mode.get('segments', False)

    def roots(self, st):
        return [self.lower] if self.lower is not None else ()

    def templates(self, E, env):
        if GT in env and GP in env:
            yield env[GT] - env[GP].scale(2)
            yield env[GP] - self.len
        if GP in env and self.inbase is not None:
            for k, v in env.items():
                if v.__class__ is Ptr and v.base == self.inbase and k[0] == 'loc':
                    yield v.off - env[GP]
                    yield env[GP] - v.off
                    if self.len is not None:
                        yield v.off - self.len
        if GF in env:
            e = env.get(('fld', ('this', self.cls), 'm_encoded'))
            for w, l in self.limits:
                yield env[GF] + 1 - l
                if e is not None and e.__class__ is Lin:
                    yield e + 1 - l
            if e is not None and e.__class__ is Lin:
                yield e - env[GF]
                yield env[GF] - e

    # ---- what is a downward call
    def is_down(self, E, st, fr, ci):
        if ci.short != 'encode' or len(ci.args) != 3 or not overroot(self.m, ci.fid, self.root):
            return False
        if ci.virt and ci.target is None:
            return True
        if ci.cls == PL and ci.obj is not None and ci.obj.base == ('this', self.cls):
            return self.f.cls != PL
        return False

    def pre_call(self, E, st, fr, node, ci):
        r = self.contents(E, st, fr, node, ci)
        if r is not None:
            return r
        if self.lower is not None and ci.short == 'mtu' and not ci.args and overroot(self.m, ci.fid, self.mtuids) and \
                (ci.virt and ci.target is None or ci.cls == PL):
            return [(st, self.lower)]
        if not self.is_down(E, st, fr, ci):
            return None
        self.calls.add((relf(fr.fn.file), node.get('l')))
        lastf = E.truth(st, ci.args[2])
        d = E.decide(st, lastf)
        outs = []
        if d is None:
            s2 = st.copy()
            outs += [(s, True) for s in E.assume(s2, lastf, True)]
            outs += [(s, False) for s in E.assume(st, lastf, False)]
        else:
            outs = [(st, d)]
        res = []
        for s, lv in outs:
            n = s.g.get('n', 0)
            ended = s.g.get('ended', 0)
            self.checked += 1
            if self.multi:
                if lv:
                    s.g['open'] = 0
                else:
                    s.g['open'] = 1
            else:
                if ended:
                    E.report(fr, node, 'data is passed down after the frame was ended', s, key='after-end')
                if lv and not s.g['last']:
                    E.report(fr, node, 'the frame is ended although the caller did not end it', s, key='early-end')
                if lv:
                    s.g['ended'] = 1
            s.g['n'] = min(n + 1, 1)
            self.payload(E, s, fr, node, ci, lv)
            nb = E.lin(s, ci.args[1])
            if GT in s.env:
                s.env[GT] = s.env[GT] + nb
            if GF in s.env:
                s.env[GF] = s.env[GF] + nb
                self.checked += 1
                for what, lim in self.limits:
                    if not s.cons.proves(s.env[GF] - lim):
                        E.report(fr, node, 'a frame of %r bytes may exceed the %s of %r' % (s.env[GF], what, lim), s, key='mtu')
                if lv:
                    s.env[GF] = Z
            res.append((s, Z))
        return res

    # ---- payload
    def held(self, st, E):
        return ()

    def payload(self, E, st, fr, node, ci, last):
        if 'payload' not in self.mode:
            return
        p = E.as_ptr(st, ci.args[0], None)
        n = E.lin(st, ci.args[1])
        if p.base == self.inbase:
            self.slice(E, st, fr, node, p.off, n, 'passed down')
            for b in self.fields:
                z = E.size(st, b)
                if not st.cons.proves_eq(z):
                    if not st.cons.proves_le(n):
                        E.report(fr, node, 'input is passed down while earlier input may still be held in %s' % keyname(b), st, key='reorder')
        elif p.base[0] == 'buf' and p.base[1] in self.fields:
            z = E.size(st, p.base[1])
            if not (st.cons.proves_eq(p.off) and st.cons.proves_eq(n - z)):
                E.report(fr, node, 'not all that is held in %s is passed down: %r of %r at %r' % (keyname(p.base[1]), n, z, p.off), st, key='held')
            if st.g.get('sent'):
                E.report(fr, node, 'held data is passed down twice', st, key='twice')
            st.g['sent'] = 1
        elif st.cons.proves_eq(n):
            pass
        else:
            st.g['extra'] = 1
            if self.mode.get('escape'):
                st.env[GP] = st.env[GP] + L(1)
                if not st.cons.proves_eq(n - L(2)):
                    E.report(fr, node, 'an escape sequence of %r bytes' % (n,), st, key='esclen')

    def slice(self, E, st, fr, node, off, n, what):
        self.checked += 1
        pos = st.env[GP]
        ok = st.cons.proves_eq(off - pos)
        if not ok and st.cons.proves_le(n):
            ok = True       # nothing is forwarded
            return
        if not ok:
            E.report(fr, node, 'input from offset %r is %s, but all up to %r was consumed' % (off, what, pos),
                     st, key='gap ' + what)
        if not st.cons.proves_le(-n):
            E.report(fr, node, 'length may be negative', st, key='neg')
        st.env[GP] = off + n

    def contents(self, E, st, fr, node, ci):
        """Appends to and clears of the held buffers."""
        if 'payload' not in self.mode or ci.obj is None or ci.obj.__class__ is not Ptr:
            return None
        b = E.objbase(ci.obj)
        if b in self.cand and ci.short in ('append', 'push_back', 'insert', 'assign', 'operator+='):
            self.touched.add(b)
        if b not in self.fields:
            return None
        if ci.short in ('append', 'push_back', 'insert', 'assign', 'resize', 'operator+='):
            if st.g.get('sent'):
                E.report(fr, node, 'data is added to what was passed down already', st, key='add-after-send')
            if ci.short == 'append' and len(ci.args) == 2 and ci.args[0].__class__ is Ptr and ci.args[0].base == self.inbase:
                self.slice(E, st, fr, node, ci.args[0].off, E.lin(st, ci.args[1]), 'held')
            elif ci.short == 'append':
                E.report(fr, node, 'something else than the input is held', st, key='other')
        elif ci.short in ('clear', 'pop_back', 'erase', 'swap'):
            if not st.g.get('sent') and not st.cons.proves_eq(E.size(st, b)):
                E.report(fr, node, 'held data is dropped', st, key='drop')
            st.g['sent'] = 0
        return None


def run_encode(ctx, cls, mode, cfg='std'):
    m = model(cfg, PROTO_UNITS)
    fs = own_methods(m, cls, 'encode', 3)
    if not fs:
        return
    f = fs[0]
    touched = set()
    for last in (None, True, False):
        if last is None and 'payload' not in mode:
            continue
        reset_atoms()
        r = Encode(m, cls, f, mode)
        E = Engine(m, r)
        st, this, args = start(E, f)
        r.inbase = args[0].base
        r.fields, r.touched = [], touched
        if last is not None:
            r.fields = sorted(touched)
        r.cand = [('fld', this, x['n']) for c, x in m.fields(cls) if kind(unq(x['t'])) in ('basic_string', 'vector') and targ0(x['t']) in ('char', 'unsigned char')]
        for b in r.cand:
            E.basetype[b] = unq(m.field(cls, b[2])['t'])
        bind_buffer(E, st, f, args)
        n = E.lin(st, args[1])
        ls = E.lin(st, args[2])
        st.cons.add_eq(ls - L(1 if last else 0))
        st.g['last'] = last
        st.env[GP] = Z
        mode.get('assume', lambda *a: None)(E, st, this)
        outs = E.exec_fn(f, st, None, ('root',), args, this, this)
        if last is None:
            continue
        for s, v in outs:
            ctx.count('exit_states')
            if last:
                if r.multi:
                    if s.g.get('open', 1):
                        E.report(None_fr(f), None, 'the frame is not ended on some path', s, key='unended')
                elif not s.g.get('ended') and f.cls != PL:
                    E.report(None_fr(f), None, 'the caller ended the frame, but the end is not passed down on some path', s, key='unended')
            if 'payload' in mode:
                pos = s.env[GP]
                if not s.cons.proves_eq(pos - n):
                    E.report(None_fr(f), None, 'returns with %r of the %r input bytes consumed' % (pos, n), s, key='rest')
                if s.g.get('sent'):
                    E.report(None_fr(f), None, 'data passed down is still held on return', s, key='stillheld')
                if last:
                    for b in r.fields:
                        if not s.cons.proves_eq(E.size(s, b)):
                            E.report(None_fr(f), None, 'the frame is ended, but data is still held in %s' % keyname(b), s, key='heldatend')
        ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
        ctx.cover('downward_calls', ['%s:%s' % x for x in r.calls])
        ctx.count('obligations', r.checked)
        if not r.calls and f.cls != PL:
            raise Broken('no downward call found in ' + f.name)
        for x in E.reports.values():
            yield x


def run_segments(ctx, cls):
    """Frames passed down never exceed the configured nor the lower mtu."""
    m = model('std', PROTO_UNITS)
    f = own_methods(m, cls, 'encode', 3)
    ctx.need(f, cls + '::encode')
    f = f[0]
    for own in (False, True):
        for low in (False, True):
            for last in (True, False):
                reset_atoms()
                r = Encode(m, cls, f, dict(segments=True))
                E = Engine(m, r)
                st, this, args = start(E, f)
                r.inbase = args[0].base
                bind_buffer(E, st, f, args)
                st.cons.add_eq(E.lin(st, args[2]) - L(1 if last else 0))
                st.g['last'] = last
                st.env[GP] = Z
                r.lower = E.fresh('lower_mtu', 'unsigned long', 64, True)
                mm = E.load(st, Ptr(('fld', this, 'm_mtu'), Z), 'unsigned long', 64, True)
                enc = E.load(st, Ptr(('fld', this, 'm_encoded'), Z), 'unsigned long', 64, True)
                st.cons.add_le(enc - L(1 << 60))
                for on, v, w in ((own, mm, 'configured mtu'), (low, r.lower, 'mtu of the layer below')):
                    if on:
                        st.cons.add_le(L(2) - v)
                        st.cons.add_le(enc + 1 - v)
                        r.limits.append((w, v))
                    else:
                        st.cons.add_eq(v)
                st.env[GF] = enc
                for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
                    ctx.count('exit_states')
                    e2 = E.load(s, Ptr(('fld', this, 'm_encoded'), Z), 'unsigned long', 64, True)
                    if not s.cons.proves_eq(e2 - s.env[GF]):
                        E.report(None_fr(f), None, 'on return %r bytes are accounted for in the open frame that holds %r' % (e2, s.env[GF]), s, key='acct')
                    for w, v in r.limits:
                        if not s.cons.proves(e2 + 1 - v):
                            E.report(None_fr(f), None, 'the open frame leaves no room for its marker within the ' + w, s, key='room')
                ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
                ctx.cover('downward_calls', ['%s:%s' % x for x in r.calls])
                ctx.count('obligations', r.checked)
                yield from E.reports.values()


def run_mtu(ctx, cls, clean=None):
    """A message of at most mtu() bytes is passed down within the mtu of the layer below."""
    m = model('std', PROTO_UNITS)
    f = own_methods(m, cls, 'encode', 3)
    g = own_methods(m, cls, 'mtu', 0)
    ctx.need(f and g, cls + '::encode and mtu')
    f, g = f[0], g[0]
    reset_atoms()
    r = Encode(m, cls, f, modes(cls) if 'Escape' in cls else {})
    r.multi = True
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.inbase = args[0].base
    bind_buffer(E, st, f, args)
    st.cons.add_eq(E.lin(st, args[2]) - L(1))
    st.g['last'] = True
    r.lower = E.fresh('lower_mtu', 'unsigned long', 64, True)
    st.cons.add_le(L(16) - r.lower)
    st.cons.add_le(r.lower - L(1 << 40))
    clean = clean or {}
    for k, v in clean.items():
        b = ('fld', this, k)
        fl = m.field(cls, k)
        ctx.need(fl, '%s::%s' % (cls, k))
        E.basetype[b] = unq(fl['t'])
        if v == 'empty':
            E.set_size(st, b, Z)
        else:
            E.store(st, Ptr(b, Z), L(v), fl['t'], fl.get('w'), fl.get('u'))
    r.ranges = RANGES.get(cls)
    for s, v in E.exec_fn(g, st, None, ('mtu',), [], this, this):
        R = E.lin(s, v)
        ctx.count('obligations')
        s.cons.add_le(E.lin(s, args[1]) - R)
        s.env[GT] = Z
        s.env[GP] = Z
        r.len = E.lin(s, args[1])
        s.nv = {}
        if s.cons.bot:
            continue
        for s2, v2 in E.exec_fn(f, s, None, ('root',), args, this, this):
            ctx.count('exit_states')
            if not s2.cons.proves(s2.env[GT] - r.lower):
                E.report(None_fr(g), None, 'a message of at most mtu() = %r bytes is passed down as %r bytes, but the layer below takes %r' % (R, s2.env[GT], r.lower), s2, key='mtu')
    ctx.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
    ctx.count('downward_calls', len(r.calls))
    yield from E.reports.values()


class None_fr:
    def __init__(self, f):
        self.fn = f
        self.parent = None


PROTO_UNITS = ['protocol', 'compress', 'debugger', 'zmq', 'd_fifo']

FRAMERS = ['stored::AsciiEscapeLayer', 'stored::TerminalLayer', 'stored::Crc8Layer', 'stored::Crc16Layer', 'stored::BufferLayer',
           'stored::PrintLayer', 'stored::IdleCheckLayer', 'stored::SegmentationLayer']


def modes(cls):
    s = cls.split('::')[-1]
    md = {}
    if s == 'SegmentationLayer':
        md['segments'] = True
    if cls in FRAMERS:
        md['payload'] = True
    if s == 'AsciiEscapeLayer':
        md['escape'] = True
    if s == 'BufferLayer':
        def asm(E, st, this):
            # an invariant of the class: what is held fits
            z = E.size(st, ('fld', this, 'm_buffer'))
            ms = E.load(st, Ptr(('fld', this, 'm_size'), Z), 'unsigned long', 64, True)
            st.cons.add_le(z - ms)
        md['assume'] = asm
    return md


class Ranges(Rule):
    """Checks that every store to a field keeps it in its range."""
    maxdepth = 8
    K = 8

    def __init__(self, this, rng):
        self.this, self.rng, self.n = this, rng, 0

    def on_store(self, E, st, fr, node, loc, val):
        b = loc.base
        if b[0] == 'fld' and b[2] in self.rng and b[1] == self.this:
            self.n += 1
            lo, hi = self.rng[b[2]]
            v = E.lin(st, val)
            if not (st.cons.proves(L(lo) - v) and st.cons.proves(v - L(hi))):
                E.report(fr, node, '%s may become %r, outside [%d,%d]' % (b[2], v, lo, hi), st, key='range ' + b[2])


def run_ranges(ctx, cls, rng, units):
    m = model('std', units)
    for f in [f for f in m.fns.values() if f.cls == cls and f.short != '(dtor)']:
        reset_atoms()
        this = ('this', cls)
        r = Ranges(this, rng)
        E = Engine(m, r)
        st, t, args = start(E, f)
        if f.short != '(ctor)':
            r.ranges = rng
        bind_buffer(E, st, f, args)
        E.exec_fn(f, st, None, ('root',), args, this, this)
        ctx.count('range_obligations', r.n)
        yield from E.reports.values()


RANGES = {'stored::DebugArqLayer': {'m_encodeSeq': (1, 0x7ffffff), 'm_decodeSeq': (0, 0x7ffffff), 'm_decodeSeqStart': (0, 0x7ffffff)}}

MTU = {'stored::AsciiEscapeLayer': {}, 'stored::TerminalLayer': {'m_encodeState': 0}, 'stored::Crc8Layer': {}, 'stored::Crc16Layer': {},
       'stored::DebugArqLayer': {'m_encodeBuffer': 'empty', 'm_encodeState': 0, 'm_maxEncodeBuffer': 0}}




ENDS = ('after-end', 'early-end', 'unended')


def add(ctx, rule, it, only=None, skip=()):
    for x in it:
        if x['key'] in skip or only and x['key'] not in only:
            continue
        ctx.finding(x['where'], x['func'], rule, x['msg'], x['via'], x['trace'])


def p01(ctx):
    ctx.rule('for every encoder: with the end-of-frame flag set, exactly one and only the last downward call has it set on every path; '
             'without it, none has (segmentation: the last one has it; earlier ones end segments)')
    pmap(ctx, lambda c, cls: add(c, 'end-of-frame', run_encode(c, cls, modes(cls)), ENDS), FRAMERS + [PL, 'stored::CompressLayer', 'stored::DebugArqLayer'])
    ctx.need(len(ctx.sets.get('downward_calls', ())) >= 12, 'downward calls of the encoders')


def p02(ctx):
    ctx.rule('the slices of the caller\'s buffer that are passed down or held back are adjacent, in order, start at 0 and end at its length; '
             'held data goes first, once, and completely; nothing is held when the frame ends')
    pmap(ctx, lambda c, cls: add(c, 'payload', run_encode(c, cls, modes(cls)), skip=ENDS), FRAMERS)


def p03(ctx):
    ctx.rule('a message of mtu() bytes, with all overhead of the layer, fits the mtu of the layer below (for any lower mtu of 16 and up)')
    ctx.rule('segments, with their marker, fit both mtus (2 and up) and the open segment is accounted for')
    jobs = [('m', c, k) for c, k in MTU.items()] + [('s', 'stored::SegmentationLayer', None)] + [('r', c, k) for c, k in RANGES.items()]

    def job(c, j):
        if j[0] == 'm':
            add(c, 'mtu', run_mtu(c, j[1], j[2]))
        elif j[0] == 's':
            add(c, 'mtu', run_segments(c, j[1]))
        else:
            add(c, 'mtu', run_ranges(c, j[1], j[2], PROTO_UNITS))
    pmap(ctx, job, jobs)
