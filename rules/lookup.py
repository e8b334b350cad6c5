"""The directory: looking up a name, and listing all objects, read the same entries."""
from common import *
from frames import None_fr
import engine

NL, NN, NE, NP, CH, BB, FF, NS = [('ghost', x) for x in ('len', 'nul', 'entry', 'pos', 'char', 'byte', 'peek', 'size')]
J = [('ghost', 'field1'), ('ghost', 'field2')]
ENT = ('new', 'dir0')
FLD = [('new', 'dir1'), ('new', 'dir2')]
DIR = [ENT] + FLD
NAME = ('new', 'name')
STR = ('new', 'string')
# kinds of entries, with their first byte
KINDS = {'end': (0, 0), 'skip': (1, 0x1f), 'sep': (0x2f, 0x2f), 'chr-': (0x20, 0x2e), 'chr+': (0x30, 0x7f),
         'var00': (0x80, 0x9f), 'var01': (0xa0, 0xbf), 'var10': (0xc0, 0xdf), 'var11': (0xe0, 0xff)}
CHARS = {'hi': (-128, -1), 'lo': (1, 0x2e), 'sl': (0x2f, 0x2f), 'up': (0x30, 0x7f)}


class DirEngine(Engine):
    def load(self, st, loc, t=None, w=None, u=None):
        if loc.base in DIR or loc.base == NAME:
            v = self.rule.read(self, st, loc)
            if v is not None:
                return v
        return Engine.load(self, st, loc, t, w, u)


class Lookup(Rule):
    maxdepth = 6
    K = 400
    strong = False

    def __init__(self, m, f, mode):
        self.m, self.f, self.mode = m, f, mode
        self.n = self.nev = 0
        self.at = (None, None)
        self.keep = []

    def roots(self, st):
        return [st.env[k] for k in (NL, NN, NE, NP, CH, BB, FF, NS) if k in st.env] + [st.env[k] for k in J if k in st.env] + self.keep

    def templates(self, E, env):
        l = env.get(NL)
        loc = [v for k, v in env.items() if k[0] == 'loc' and v.__class__ is Lin]
        ps = [v.off for k, v in env.items() if k[0] == 'loc' and v.__class__ is Ptr and v.base == NAME]
        ps += [env[k] for k in (NP, NE) if k in env]
        out = []
        for p in ps:
            for x in loc:
                if l is not None:
                    out += [x + p - l, l - x - p]
                if NE in env and BB in env:
                    out += [x + p - env[NE] - env[BB], env[NE] + env[BB] - x - p, p - x - env[NE], x - p + env[NE]]
            for q in ps:
                out.append(p - q)
            if l is not None:
                out.append(p - l)
            if NN in env:
                out.append(p - env[NN])
        if self.mode == 'list':
            z = [v for k, v in env.items() if k[0] == 'fld' and k[2] == '#size'] + [env[k] for k in (NS,) if k in env]
            for s in z:
                for x in loc + [Z]:
                    for s0 in self.keep:
                        out += [s - x - s0, s0 + x - s]
        return out

    def err(self, E, st, msg, key, fr=None, node=None):
        if fr is None:
            fr, node = self.at
        E.report(fr or None_fr(self.f), node, msg, st, key=key)

    # ---- reading the directory and the name
    def field(self, st):
        """Where the next field of this entry starts."""
        n = st.g.get('f', 0)
        return Ptr(FLD[n - 1], Z) if n else Ptr(ENT, L(1))

    def kind(self, st):
        return st.g.get('k')

    def fields(self, st):
        return {'c': 2, 'v': 1 if st.g['k'][-1:] == '1' else 2}.get(st.g['k'][0], 0)

    def read(self, E, st, loc):
        self.nev += 1
        if loc.base == NAME:
            l, n = st.env[NL], st.env[NN]
            if not st.cons.proves_le(loc.off + 1 - l):
                self.err(E, st, 'reads the name at %r, past its length %r' % (loc.off, l), 'name')
            elif not st.cons.proves_le(loc.off - n):
                self.err(E, st, 'reads the name at %r, past its end' % (loc.off,), 'name')
            if st.cons.proves_eq(loc.off - st.env[NP]) and st.g.get('c') in CHARS:
                return st.env[CH]
            if st.cons.proves_eq(loc.off - n):
                return Z
            return E.fresh('char', None, None, None, -128, 127)
        if 'k' not in st.g:
            return None
        if loc.base == ENT and loc.off == Z:
            return st.env[BB]
        f = self.field(st)
        if loc.base == f.base and loc.off == f.off and st.g.get('f', 0) < self.fields(st):
            return self.peek(E, st)
        self.err(E, st, 'reads the directory at %r, which is not a field of an entry (%s)' % (loc, st.g['k']), 'dir')
        return None

    def peek(self, E, st):
        if FF not in st.env:
            st.env[FF] = E.fresh('first', None, None, None, 0, 255)
        return st.env[FF]

    def locals(self, st, fr, bases, b=None):
        dead = fr.fn.dead(b) if b is not None else ()
        return [v for k, v in st.env.items() if k[0] == 'loc' and k[1] == fr.id and v.__class__ is Ptr and v.base in bases
                and not (dead and engine.isdeadloc(k, fr.id, dead))]

    # ---- the position in the name
    def moved(self, E, st, fr, b):
        """Follows the name; forgets the character."""
        if self.mode != 'find':
            return
        p = st.env[NP]
        ps = [v.off for v in self.locals(st, fr, (NAME,), b)]
        nw = [o for o in ps if not st.cons.proves_eq(o - p)]
        if not nw:
            return
        o = nw[0]
        c = st.g.get('c')
        if not st.cons.proves_eq(o - p - 1):
            self.err(E, st, 'moves in the name from %r to %r' % (p, o), 'move', None_fr(self.f))
        elif c in ('end', 'nul'):
            self.err(E, st, 'moves past the end of the name', 'move', None_fr(self.f))
        st.g['pc'] = c
        # in terms of what is known
        st.env[NP] = p + 1 if st.cons.proves_eq(o - p - 1) else o
        st.g.pop('c', None)
        st.env[CH] = Z

    def chars(self, E, st):
        """What may be at this position of the name."""
        if self.mode != 'find' or 'c' in st.g:
            return [st]
        out = []
        p, l, n = st.env[NP], st.env[NL], st.env[NN]
        s = st.copy()
        s.cons.add_eq(p - l)
        s.g['c'] = 'end'
        out.append(s)
        s = st.copy()
        s.cons.add_le(p + 1 - l)
        s.cons.add_eq(p - n)
        s.g['c'] = 'nul'
        out.append(s)
        for c, (lo, hi) in CHARS.items():
            s = st.copy()
            s.cons.add_le(p + 1 - l)
            s.cons.add_le(p + 1 - n)
            s.g['c'] = c
            s.env[CH] = E.fresh('ch' + c, None, None, None, lo, hi) if lo != hi else L(lo)
            out.append(s)
        return [s for s in out if not s.cons.bot and not s.cons.proves(ONE)]

    # ---- from entry to entry
    def outer(self, fr, b):
        h = fr.fn.heads
        return all(b == x or b not in h[x] for x in h)

    def at_head(self, E, st, fr, b, body):
        ps = self.locals(st, fr, DIR, b)
        if ps and self.outer(fr, b):
            self.next(E, st, fr, ps)
        else:
            self.moved(E, st, fr, b)
        # chosen again past the head
        if 'c' in st.g:
            st.g.pop('c')
            st.env[CH] = Z
        return [st]

    def past_head(self, E, st, fr, b):
        sts = [st]
        if 'k' not in st.g and self.locals(st, fr, DIR, b):
            sts = []
            for k, (lo, hi) in KINDS.items():
                s = st.copy()
                s.g['k'] = k
                s.env[BB] = L(lo) if lo == hi else E.fresh('byte' + k, None, None, None, lo, hi)
                sts.append(s)
        return [x for s in sts for x in (self.chars(E, s) if s.g.get('k', '')[:3] not in ('var', 'end') else [s])]

    def eqmod(self, st, a, b):
        d = a - b
        return st.cons.proves_eq(d) or st.cons.proves_eq(d - (1 << 64)) or st.cons.proves_eq(d + (1 << 64))

    def target(self, st, p):
        """Which of the places an entry may start, this is."""
        k = st.g['k']
        if k in ('skip', 'sep'):
            return 'next' if p.base == ENT and st.cons.proves_eq(p.off - 1) else None
        if k[:3] == 'chr':
            for i in (0, 1):
                if p.base == FLD[i] and J[i] in st.env and self.eqmod(st, p.off, st.env[J[i]] - 1):
                    return ('left', 'right')[i]
            if p.base == FLD[1] and st.cons.proves_eq(p.off):
                return 'eq'
        return None

    def next(self, E, st, fr, ps):
        self.moved(E, st, fr, None)
        if 'k' not in st.g:
            # the first entry
            if any(p.base != ENT or p.off != Z for p in ps):
                self.err(E, st, 'starts at %r' % (ps,), 'start', fr)
        else:
            self.n += 1
            ts = {self.target(st, p) for p in ps} - {None}
            if not ts:
                self.err(E, st, 'continues at %r after an entry of kind %s' % (ps[0], st.g['k'][:3]), 'next', fr)
            else:
                # the others do not matter
                t = ts.pop() if len(ts) == 1 else 'eq'
                (self.nextname if self.mode == 'find' else self.nextlist)(E, st, fr, t)
        for k in ('k', 'f', 'v', 'pc', 'c', 'vis', 'jz'):
            st.g.pop(k, None)
        for k in [FF] + J:
            st.env.pop(k, None)
        st.env[BB] = st.env[CH] = Z
        for k, v in list(st.env.items()):
            if k[0] == 'loc' and v.__class__ is Ptr and v.base in DIR:
                st.env[k] = Ptr(ENT, Z)
        if self.mode == 'find':
            st.env[NE] = st.env[NP]
        elif self.name:
            st.env[NS] = E.size(st, STR)

    def atend(self, st):
        return st.cons.proves_eq(st.env[NP] - st.env[NL]) or st.cons.proves_eq(st.env[NP] - st.env[NN])

    def way(self, E, st, t):
        """Is this the way to go for this character?"""
        c, b = st.g.get('cc', st.g.get('c')), st.env[BB]
        ch = st.env[CH] if st.g.get('c') in CHARS else Z
        if st.g.get('c') == 'hi':
            return t in ('left', 'right')
        if t == 'left':
            return st.cons.proves_le(ch + 1 - b)
        if t == 'right':
            return st.cons.proves_le(b + 1 - ch)
        return st.cons.proves_eq(ch - b)

    def nextname(self, E, st, fr, t):
        k, d = st.g['k'], st.env[NP] - st.env[NE]
        if k == 'skip':
            if not st.cons.proves_eq(d - st.env[BB]):
                self.err(E, st, 'skips %r instead of %r characters of the name' % (d, st.env[BB]), 'skip', fr)
        elif k == 'sep':
            if not self.atend(st) and st.g.get('pc') != 'sl':
                self.err(E, st, 'does not continue after the separator in the name', 'sep', fr)
        elif t == 'eq':
            if not st.g.get('ok'):
                self.err(E, st, 'takes a character of the name that differs from the directory', 'eq', fr)
            if not st.cons.proves_eq(d - 1):
                self.err(E, st, 'moves %r in the name after an equal character' % (d,), 'eq', fr)
        else:
            if not self.way(E, st, t):
                self.err(E, st, 'goes to the %s for a character %r where the directory has %r' % (t, st.env[CH], st.env[BB]), 'way', fr)
            if not st.cons.proves_eq(d):
                self.err(E, st, 'moves %r in the name without an equal character' % (d,), 'way', fr)
        st.g.pop('ok', None)

    def moved_ok(self, E, st):
        st.g['ok'] = 1 if self.way(E, st, 'eq') else 0

    def nextlist(self, E, st, fr, t):
        k = st.g['k']
        if k[:3] == 'chr':
            if t != 'eq':
                self.err(E, st, 'continues at the %s' % t, 'next', fr)
            if st.g.get('vis', ()) not in (('left', 'right'), ('right', 'left')):
                self.err(E, st, 'visits %s of the two branches' % (' and '.join(st.g.get('vis', ())) or 'none',), 'visit', fr)
        if self.name:
            d = E.size(st, STR) - st.env[NS]
            if not st.cons.proves_eq(d - (st.env[BB] if k == 'skip' else 1)):
                self.err(E, st, 'adds %r characters to the name for an entry of kind %s' % (d, k[:3]), 'name', fr)

    # ---- calls
    def pre_call(self, E, st, fr, node, ci):
        self.at = (fr, node)
        s = ci.short
        if s in ('decodeInt', 'skipOffset') and len(ci.args) == 1 and ci.args[0].__class__ is Ptr:
            return self.vlq(E, st, fr, node, ci, s == 'decodeInt')
        if s == 'Variant' or s == '(ctor)' and (ci.cls or '').startswith('stored::Variant<'):
            if len(ci.args) == 3 and self.mode == 'find':
                return self.found(E, st, fr, node, ci, ci.args)
        if self.mode == 'list':
            a = ci.args
            if s == 'list' and len(a) == 6 and a[2].__class__ is Ptr and a[2].base in DIR:
                return self.branch(E, st, fr, node, ci)
            if ci.fid is None and len(a) == 6:
                return self.call(E, st, fr, node, ci)
            if s in ('append', 'push_back', 'operator+=') and ci.obj.__class__ is Ptr and ci.obj.base == STR and 'k' in st.g:
                c = E.lin(st, a[-1]) if a else None
                k = st.g['k']
                if k == 'sep' and not st.cons.proves_eq(c - 0x2f) or k[:3] == 'chr' and not st.cons.proves_eq(c - st.env[BB]):
                    self.err(E, st, 'adds the character %r to the name instead of that in the directory' % (c,), 'char', fr, node)
                elif k[:3] in ('end', 'var'):
                    self.err(E, st, 'adds to the name at an object', 'char', fr, node)
        return None

    def vlq(self, E, st, fr, node, ci, value):
        loc = ci.args[0]
        p = E.load(st, loc, 'const uint8_t *')
        f = self.field(st)
        n = st.g.get('f', 0)
        self.n += 1
        if 'k' not in st.g or p.__class__ is not Ptr or p.base != f.base or not st.cons.proves_eq(p.off - f.off) or n >= self.fields(st):
            self.err(E, st, 'reads a number at %r, which is not a field of an entry of kind %s' % (p, st.g.get('k', '?')), 'field', fr, node)
            return [(st, E.fresh('number', None, None, None, 0, 1 << 40))]
        out = []
        first = self.peek(E, st)
        for z in (1, 0) if st.g['k'][:3] == 'chr' and value else (0,):
            s = st.copy()
            v = Z if z else E.fresh('number%d' % n, None, None, None, 0 if st.g['k'][:3] == 'var' else 1, 1 << 40)
            if st.g['k'][:3] == 'chr' and value:
                s.cons.add_eq(first) if z else s.cons.add_le(L(1) - first)
            if s.cons.bot or s.cons.proves(ONE):
                continue
            if value:
                s.env[J[n]] = v
            s.g['f'] = n + 1
            if self.mode == 'find' and s.g['k'][:3] == 'chr' and n == 1:
                self.moved_ok(E, s)
            s.env.pop(FF, None)
            E.store(s, loc, Ptr(FLD[n], Z), 'const uint8_t *')
            out.append((s, v))
        return out

    def object(self, E, st, fr, node, typ, ln):
        """Checks type and length; returns the offset."""
        k, b = st.g.get('k', '?'), st.env[BB]
        self.n += 3
        if k[:3] != 'var' or st.g.get('f', 0) != self.fields(st):
            self.err(E, st, 'an object is taken from an entry of kind %s, after %d fields' % (k[:3], st.g.get('f', 0)), 'object', fr, node)
            return None
        if not st.cons.proves_eq(E.lin(st, typ) - (b - 128)):
            self.err(E, st, 'the type is %r instead of %r' % (typ, b - 128), 'type', fr, node)
        if k[-1] == '1':
            want, off = E.modulo(b - 128, 8) + 1, st.env[J[0]]
        else:
            want, off = st.env.get(J[0]), st.env.get(J[1])
        if want is None or off is None:
            self.err(E, st, 'the length or offset is skipped', 'length', fr, node)
            return None
        if not st.cons.proves_eq(E.lin(st, ln) - want):
            self.err(E, st, 'the length is %r instead of %r' % (ln, want), 'length', fr, node)
        return off

    def found(self, E, st, fr, node, ci, a):
        off = self.object(E, st, fr, node, a[0], a[2])
        if off is not None and not (a[1].__class__ is Lin and st.cons.proves_eq(a[1] - off)):
            self.err(E, st, 'the offset is %r instead of %r' % (a[1], off), 'offset', fr, node)
        st.g['found'] = min(2, st.g.get('found', 0) + 1)
        return [(st, ci.obj)]

    def branch(self, E, st, fr, node, ci):
        a = ci.args
        t = self.target(st, a[2]) if 'k' in st.g else None
        if t not in ('left', 'right'):
            self.err(E, st, 'lists %r, which is not a branch of an entry of kind %s' % (a[2], st.g.get('k', '?')[:3]), 'branch', fr, node)
        else:
            st.g['vis'] = st.g.get('vis', ()) + (t,)
        for i in (0, 1, 3, 4, 5):
            self.n += 1
            if i == 3 and a[i].__class__ is Lin:
                self.args[i] = self.args[i] if self.args[i].__class__ is Lin else a[i]
            if repr(a[i]) != repr(self.args[i]):
                self.err(E, st, 'argument %d of the branch is %r' % (i + 1, a[i]), 'arg', fr, node)
        if self.name and not st.cons.proves_eq(E.size(st, STR) - st.env[NS]):
            self.err(E, st, 'the name is changed before a branch is listed', 'branchname', fr, node)
        return [(st, Z)]

    def call(self, E, st, fr, node, ci):
        c, n, t, b, l, arg = ci.args
        off = self.object(E, st, fr, node, t, l)
        fun = st.g.get('k', '')[3:4] == '1'
        if off is not None:
            if fun:
                v = E.lin(st, b) if b.__class__ is Lin else b.off if b.__class__ is Ptr and b.base == ('null',) else None
                if v is None and b.__class__ is Ptr:
                    v = E.lin(st, b)
                ok = b == E.as_ptr(st, off, None) or v is not None and st.cons.proves_eq(v - off)
            else:
                ok = b.__class__ is Ptr and b.base == self.args[1].base and st.cons.proves_eq(b.off - off)
            if not ok:
                self.err(E, st, 'the object is at %r, where the directory has %r (%s)' % (b, off, 'function' if fun else 'variable'), 'offset', fr, node)
        if repr(c) != repr(self.args[0]) or repr(arg) != repr(self.args[4]):
            self.err(E, st, 'the container or argument is %r, %r' % (c, arg), 'arg', fr, node)
        isnull = E.decide(st, B('eq', E.lin(st, n))) if n.__class__ is Lin else n.base == ('null',) or n == NULL
        if bool(isnull) is bool(self.name):
            self.err(E, st, 'the name that is passed is %r' % (n,), 'argname', fr, node)
        if self.name and not st.cons.proves_eq(E.size(st, STR) - st.env[NS]):
            self.err(E, st, 'the name is changed before the object is reported', 'callname', fr, node)
        st.g['found'] = min(2, st.g.get('found', 0) + 1)
        return [(st, Z)]

    # ---- at the end
    def done(self, E, st):
        self.n += 1
        g = st.g
        k = g.get('k')
        fr = None_fr(self.f)
        if g.get('found', 0) > 1 or g.get('found') and (k or '')[:3] != 'var':
            self.err(E, st, 'continues after an object', 'once', fr)
            return
        if g.get('found'):
            pass
        elif k is None:
            self.err(E, st, 'ends before the first entry', 'stop', fr)
        elif self.mode == 'find':
            c = g.get('c')
            z = FF in st.env and st.cons.proves_eq(st.env[FF])
            t = ('left', 'right')[g.get('f', 0)] if g.get('f', 0) < 2 else None
            if not (k == 'end' or k == 'skip' and (c in ('end', 'nul', 'sl') or self.atend(st)) or k[:3] == 'chr' and z and t and self.way(E, st, t)):
                self.err(E, st, 'gives up at an entry of kind %s, at a character of kind %s' % (k[:3], c), 'stop', fr)
        elif k != 'end':
            self.err(E, st, 'stops at an entry of kind %s' % k[:3], 'stop', fr)
        if self.mode == 'list' and self.name and not st.cons.proves_eq(E.size(st, STR) - self.keep[0]):
            self.err(E, st, 'the name has %r characters afterwards, instead of %r' % (E.size(st, STR), self.keep[0]), 'restore', fr)


class Prefix(Rule):
    """What a listing starts with, given a prefix or none."""
    maxdepth = 3
    K = 20
    strong = False

    def __init__(self, m, f, prefix):
        self.m, self.f, self.prefix = m, f, prefix
        self.n = self.nev = 0

    def pre_call(self, E, st, fr, node, ci):
        a = ci.args
        if ci.short == 'reserve':
            return [(st, Z)]
        if ci.short == 'list' and len(a) == 6 and a[5].__class__ is Ptr:
            self.nev += 1
            self.n += 6
            for i in (0, 1, 2, 4):
                if repr(a[i]) != repr(self.args[i if len(self.args) < 7 or i < 3 else i + 1]):
                    E.report(fr, node, 'passes %r instead of its own argument' % (a[i],), st, key='arg')
            b = a[5]
            keep = b == self.buffer
            if self.buffer is not None and not keep:
                E.report(fr, node, 'the name is not made in the buffer that is given', st, key='buffer')
            z = E.size(st, b.base)
            if self.prefix:
                want = E.builtin(st, fr, node, ci._replace(fn='strlen', args=[self.pre]))[0][1]
                if not st.cons.proves_eq(z - want):
                    E.report(fr, node, 'starts with a name of %r characters instead of the prefix' % (z,), st, key='prefix')
            elif not st.cons.proves_eq(z) and not (keep and st.cons.proves_eq(z - self.z)):
                E.report(fr, node, 'starts with a name of %r characters although there is no prefix' % (z,), st, key='noprefix')
            st.g['n'] = min(2, st.g.get('n', 0) + 1)
            return [(st, Z)]
        return None


def wrapper(ctx, cfg, n, prefix):
    m = model(cfg, ['directory'])
    fs = [f for f in m.fns_named('stored::list') if len(f.params) == n and f.params[-1]['t'].replace(' ', '') in ('constchar*', 'charconst*')]
    ctx.need(fs, 'the functions that list a directory with a prefix')
    f = fs[0]
    reset_atoms()
    r = Prefix(m, f, prefix)
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.pre = args[-1] = Ptr(('new', 'prefix'), Z) if prefix else NULL
    E.basetype[('new', 'prefix')] = 'char'
    args[0:3] = [Ptr(('new', 'container'), Z), Ptr(('new', 'buffer'), Z), Ptr(ENT, Z)]
    args[n - 2] = Ptr(('new', 'arg'), Z)
    r.buffer = None
    if n == 7:
        r.buffer = args[3] = Ptr(STR, Z)
        E.basetype[STR] = unq(f.params[3]['t'].rstrip('* &'))
        r.z = E.size(st, STR)
    r.args = list(args)
    outs = E.exec_fn(f, st, None, ('root',), args, None, None)
    for s, _ in outs:
        if s.g.get('n') != 1:
            E.report(None_fr(f), None, 'lists the directory %d times' % s.g.get('n', 0), s, key='once')
    finish(ctx, r, E, outs, 'list')


VP, VB, VV, VLQB = ('ghost', 'pos'), ('ghost', 'byte'), ('ghost', 'value'), ('new', 'vlq')


class VlqEngine(Engine):
    def load(self, st, loc, t=None, w=None, u=None):
        if loc.base == VLQB:
            return self.rule.read(self, st, loc)
        return Engine.load(self, st, loc, t, w, u)


class Vlq(Rule):
    """A number: 7 bits per byte, the highest first; the last byte has its top bit clear."""
    maxdepth = 4
    K = 60
    strong = False

    def __init__(self, m, f, value):
        self.m, self.f, self.value = m, f, value
        self.n = self.nev = 0
        self.at = (None, None)

    def roots(self, st):
        return [st.env[k] for k in (VP, VB, VV) if k in st.env]

    def templates(self, E, env):
        v, p = env.get(VV), env.get(VP)
        out = []
        for k, x in env.items():
            if k[0] == 'loc' and x.__class__ is Lin and v is not None:
                for w in (v, v.scale(128)):
                    out += [x - w, w - x]
            if k[0] in ('loc', 'tmp', 'arg') and x.__class__ is Ptr and x.base == VLQB and p is not None:
                for d in (0, 1):
                    out += [x.off - p - d, p - x.off + d]
        return out

    def read(self, E, st, loc):
        self.nev += 1
        if 'c' in st.g and st.cons.proves_eq(loc.off - st.env[VP]):
            return st.env[VB]
        E.report(None_fr(self.f), None, 'reads byte %r, at byte %r of the number' % (loc.off, st.env[VP]), st, key='read')
        return E.fresh('byte', None, None, None, 0, 255)

    def ptr(self, st):
        ps = [v for k, v in st.env.items() if v.__class__ is Ptr and v.base == VLQB and not st.cons.proves_eq(v.off - st.env[VP])]
        return ps[0] if ps else None

    def take(self, E, st):
        """Moves on to the next byte, when the code did so."""
        p, c = self.ptr(st), st.g.get('c')
        if p is None:
            return
        self.n += 1
        if c != 'more' or not st.cons.proves_eq(p.off - st.env[VP] - 1):
            E.report(None_fr(self.f), None, 'moves from byte %r to %r of the number, after its %s byte' % (st.env[VP], p.off, {'last': 'last'}.get(c, 'current')), st, key='move')
        st.env[VV] = (st.env[VV].scale(128) + st.env[VB] - 128) if c == 'more' else st.env[VV]
        st.env[VP] = p.off
        st.g.pop('c', None)

    def at_head(self, E, st, fr, b, body):
        self.take(E, st)
        st.g.pop('c', None)
        st.env[VB] = Z
        return [st]

    def fork(self, E, st):
        if 'c' in st.g:
            return [st]
        v = st.env[VV]
        st.cons.add_le(v - (1 << 40))
        for k, x in list(st.env.items()):
            if k[0] == 'loc' and x.__class__ is Lin and not x.const:
                for w in (v, v.scale(128)):
                    if st.cons.proves_eq(x - w):
                        st.env[k] = w
        out = []
        for c, lo, hi in (('more', 128, 255), ('last', 0, 127)):
            s = st.copy()
            s.g['c'] = c
            s.env[VB] = E.fresh(c, None, None, None, lo, hi)
            out.append(s)
        return out

    def past_head(self, E, st, fr, b):
        return self.fork(E, st)


def vlq(ctx, cfg, name):
    m = model(cfg, ['directory'])
    fs = [f for f in m.fns_named('stored::impl::' + name) if len(f.params) == 1]
    ctx.need(fs, 'stored::impl::' + name)
    for f in fs:
        reset_atoms()
        r = Vlq(m, f, name == 'decodeInt')
        E = VlqEngine(m, r)
        st, this, args = start(E, f)
        E.basetype[VLQB] = 'unsigned char'
        loc = args[0]
        ctx.need(loc.__class__ is Ptr, 'the reference to the pointer of ' + name)
        st.env[VP] = st.env[VV] = st.env[VB] = Z
        E.store(st, loc, Ptr(VLQB, Z), 'const unsigned char *')
        outs = []
        for s in r.fork(E, st):
            outs += E.exec_fn(f, s, None, ('root',), list(args), None, None)
        for s, v in outs:
            r.n += 2
            p = E.load(s, loc, 'const unsigned char *')
            if s.g.get('c') != 'last' or p.__class__ is not Ptr or p.base != VLQB or not s.cons.proves_eq(p.off - s.env[VP] - 1):
                E.report(None_fr(f), None, 'ends at %r, while the last byte of the number is %r' % (p, s.env[VP]), s, key='end')
            elif r.value and not s.cons.proves_eq(E.lin(s, v) - s.env[VV].scale(128) - s.env[VB]):
                E.report(None_fr(f), None, 'returns %r instead of %r' % (v, s.env[VV].scale(128) + s.env[VB]), s, key='value')
        finish(ctx, r, E, outs, 'vlq')


def prep(ctx, cfg, f, m, mode):
    reset_atoms()
    r = Lookup(m, f, mode)
    E = DirEngine(m, r)
    st, this, args = start(E, f)
    for b in DIR:
        E.basetype[b] = 'unsigned char'
    E.basetype[NAME] = 'char'
    st.env[BB] = st.env[CH] = Z
    return r, E, st, args


def run(ctx, r, E, st, args, what):
    r.args = args
    outs = E.exec_fn(r.f, st, None, ('root',), args, None, None)
    return outs


def finish(ctx, r, E, outs, what):
    ctx.need(outs and r.nev, 'the entries that %s reads' % r.f.name)
    ctx.count('exit_states', len(outs))
    ctx.count('obligations', r.n + r.nev)
    ctx.cover('functions', [fdef(r.m.fns[i]) for i in E.stats['functions'] if i in r.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], what, x['msg'], x['via'], x['trace'])


def find(ctx, cfg):
    m = model(cfg, ['directory'])
    fs = [f for f in m.fns_named('stored::impl::find') if len(f.params) == 3 and f.params[1]['t'].replace('const', '').replace(' ', '') == 'char*']
    ctx.need(fs, 'the function that finds a name in a directory')
    r, E, st, args = prep(ctx, cfg, fs[0], m, 'find')
    r.name = None
    l = st.env[NL] = E.fresh('len', 'unsigned long', 64, True, 0, (1 << 64) - 1)
    n = st.env[NN] = E.fresh('strlen', None, None, None, 0, 1 << 40)
    st.env[NE] = st.env[NP] = Z
    r.keep = [l, n]
    args = [Ptr(ENT, Z), Ptr(NAME, Z), l]
    outs = run(ctx, r, E, st, args, 'find')
    for s, _ in outs:
        r.done(E, s)
    finish(ctx, r, E, outs, 'find')


def lst(ctx, cfg, name):
    m = model(cfg, ['directory'])
    fs = [f for f in m.fns_named('stored::list') if len(f.params) == 6 and 'char' not in f.params[5]['t'].replace('basic_string<char', '') or
          len(f.params) == 6 and f.params[5]['t'].startswith('std::')]
    ctx.need(fs, 'the function that lists a directory')
    r, E, st, args = prep(ctx, cfg, fs[0], m, 'list')
    r.name = name
    args = [Ptr(('new', 'container'), Z), Ptr(('new', 'buffer'), Z), Ptr(ENT, Z), Ptr(('new', 'f'), Z), Ptr(('new', 'arg'), Z), Ptr(STR, Z) if name else NULL]
    E.basetype[STR] = unq(fs[0].params[5]['t'].rstrip('* &'))
    if name:
        z = E.fresh('size', 'unsigned long', 64, True, 0, 1 << 40)
        E.set_size(st, STR, z)
        r.keep = [z]
        st.env[NS] = z
    outs = run(ctx, r, E, st, args, 'list')
    for s, _ in outs:
        r.done(E, s)
    finish(ctx, r, E, outs, 'list')


def p25(ctx):
    ctx.rule('find: only bytes of the name are read, every entry is read field by field, and the name moves on as the entry tells')
    ctx.rule('find: the branch that is taken is the one for the character; an object has the type, length and offset in its entry')
    ctx.rule('list: both branches and the rest of every entry are visited; the name is that of the entries, and restored afterwards')

    def job(c, j):
        j[0](c, *j[1:])
    pmap(ctx, job, [(find, 'std'), (find, 'alt'), (lst, 'std', 0), (lst, 'std', 1), (lst, 'alt', 0), (lst, 'alt', 1),
                    (wrapper, 'std', 6, 1), (wrapper, 'std', 6, 0), (wrapper, 'std', 7, 1), (wrapper, 'std', 7, 0),
                    (vlq, 'std', 'decodeInt'), (vlq, 'std', 'skipOffset')])
