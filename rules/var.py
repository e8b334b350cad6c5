"""Access to variables: what is written and read between the hooks, and what the hooks are told."""
from common import *
from frames import None_fr
from fractions import Fraction

HOOKS = {'hookEntryX': 3, 'hookExitX': 4, 'hookEntryRO': 3, 'hookExitRO': 3}
BUF, LEN, TYP = ('ghost', 'vbuf'), ('ghost', 'vlen'), ('ghost', 'vtype')
SRC, WL, NUL = ('ghost', 'vsrc'), ('ghost', 'vwl'), ('ghost', 'vnul')
GHOSTS = (BUF, LEN, TYP, SRC, WL, NUL)
OUTER = ('this', 'loc', 'tmp', 'arg', 'g', 'str', 'new', 'ghost', 'cap')


def unptr(v):
    return v.__class__ is Ptr


class Var(Rule):
    maxdepth = 12
    K = 30

    def __init__(self, m, mode, swap, typ=None, typed=None):
        self.m, self.mode, self.swap, self.typ, self.typed = m, mode, swap, typ, typed
        self.n = self.nhooks = self.nacc = 0
        self.cmps = {}
        self.this = self.other = None
        self.param = None          # the value (typed), or the pointer (untyped), of the caller
        self.size = None
        self.keep = []

    # -- typed access --------------------------------------------------
    def fixed(self):
        return self.typed or self.typ & 0x80 == 0 and self.typ & self.ffix

    def is_store(self, st, base):
        """Memory that is neither of the caller nor of the wrapper."""
        return root(base)[0] == 'sym' and (self.callers is None or base not in self.callers)

    def on_load(self, E, st, fr, node, loc, val):
        b = st.env.get(BUF)
        if b is not None and loc.base == b.base and self.typed and (node.get('w') or 0) and node['w'] // 8 < sizeof(self.typed) and self.typed != 'bool':
            st.g['nar'] = 1
        self.touch(E, st, fr, node, loc.base, False)

    def on_store(self, E, st, fr, node, loc, val):
        if self.mode == 'str' and self.dir == 'get' and self.param is not None and loc.base == self.param.base:
            if not st.cons.proves_eq(E.lin(st, val)):
                E.report(fr, node, 'writes %r to the string of the caller' % val, st, key='strval')
            st.env[NUL] = loc.off - self.param.off
            return
        if not self.is_store(st, loc.base):
            return
        self.touch(E, st, fr, node, loc.base, True)
        if st.g.get('h') != 'X':
            return
        b = st.env[BUF]
        if loc.base != b.base:
            return
        self.n += 1
        if self.mode == 'str':
            # the terminator
            if not st.cons.proves_eq(E.lin(st, val)):
                E.report(fr, node, 'writes %r to a string' % val, st, key='strval')
            st.env[NUL] = loc.off - b.off
            return
        if not (loc.off == b.off or st.cons.proves_eq(loc.off - b.off)) or self.typed is None:
            E.report(fr, node, 'writes a part of a variable', st, key='part')
            return
        ok = False
        if self.typed:
            want = self.swapped(E, self.param) if self.swap and sizeof(self.typed) > 1 else self.param
            ok = val == want or val.__class__ is Lin and want.__class__ is Lin and st.cons.proves_eq(val - want)
        if not ok:
            E.report(fr, node, 'stores %r instead of the value that is set%s' % (val, ', in the byte order of the store' if self.swap else ''), st, key='value')
        st.g['w'] = st.g.get('w', 0) + 1
        st.env[WL] = st.env[LEN]

    def touch(self, E, st, fr, node, base, write):
        if not self.is_store(st, base):
            return
        b = E.basetype.get(base) or ''
        h = st.g.get('h')
        if h in ('X', 'RO') and base == st.env[BUF].base:
            self.nacc += 1
            if write and h == 'RO':
                E.report(fr, node, 'writes to a variable that was only opened for reading', st, key='rowrite')
            return
        if self.other is not None and h != 'X' and h != 'RO':
            pass
        # remember: it is an access outside the hooks, if this turns out to be the buffer
        if write or kind(b) is None:
            st.g['out'] = st.g.get('out', frozenset()) | {(base, write)}
        self.outside(E, st, fr, node)

    def outside(self, E, st, fr, node):
        b = st.env.get(BUF)
        if b is None or st.g.get('h') in ('X', 'RO'):
            return
        for base, w in st.g.get('out', ()):
            if base == b.base:
                E.report(fr, node, '%s a variable outside of its hooks' % ('writes' if w else 'reads'), st, key='outside')

    # -- intrinsics -----------------------------------------------------
    def swapped(self, E, v):
        if v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            k = ATOMS[v.t[0][0]].key
            if k and k[0] == 'bswap':
                return k[1]
        return E.keyed(('bswap', v), 'swap', None)

    def pre_call(self, E, st, fr, node, ci):
        s = ci.short
        if s in HOOKS and len(ci.args) == HOOKS[s]:
            return self.hook(E, st, fr, node, ci)
        if s == 'type' and not ci.args and self.typ is not None and unptr(ci.obj):
            return [(st, L(self.typ))]
        if s.startswith('swap_endian_') or s == 'swap_endian' and len(ci.args) == 2:
            p = E.as_ptr(st, ci.args[0], None)
            n = E.lin(st, ci.args[1]) if len(ci.args) == 2 else None
            pt = E.basetype.get(p.base) or ''
            v = E.load(st, p, pt)
            want = sizeof(unq(pt)) if pt else None
            if n is None:
                ta = targs('x' + s[s.find('<'):]) if '<' in s else None
                if ta and ta[0].isdigit():
                    n = L(int(ta[0]))
            if n is not None and want and not st.cons.proves_eq(n - want):
                E.report(fr, node, 'swaps %r bytes of a value of %d bytes' % (n, want), st, key='swaplen')
            E.store(st, p, self.swapped(E, v) if want != 1 else v)
            return [(st, Z)]
        if s.startswith('__builtin_bswap'):
            return [(st, self.swapped(E, ci.args[0]))]
        if s in ('memcpy', 'memmove', 'memcpy_swap', 'strncpy', '__builtin_memcpy') and len(ci.args) == 3 and all(unptr(a) for a in ci.args[:2]):
            return self.copy(E, st, fr, node, ci, s)
        if s in ('memcmp', 'memcmp_swap', 'strncmp', '__builtin_memcmp') and len(ci.args) >= 3:
            return self.cmp(E, st, fr, node, ci, s)
        if s == 'callback':
            E.report(fr, node, 'invokes a function for a variable', st, key='callback')
        return None

    def whole(self, E, st, p, n):
        """p..n is the opened buffer."""
        b, l = st.env[BUF], st.env[LEN]
        return p.base == b.base and st.cons.proves_eq(p.off - b.off) and st.cons.proves_eq(n - l)

    def want_swap(self):
        return self.swap and self.isfixed and (self.size is None or self.size > 1)

    def kindok(self, E, st, fr, node, s):
        k = 'swap' if 'swap' in s else 'str' if s.startswith('str') else 'plain'
        w = 'str' if self.mode == 'str' else 'swap' if self.want_swap() else 'plain'
        if k != w and not (self.size == 1 and k in ('swap', 'plain') and w != 'str'):
            E.report(fr, node, '%s is used for a value that is to be handled as %s' % (s, {'str': 'a string', 'swap': 'bytes in the other order', 'plain': 'bytes'}[w]), st, key='kind')

    def copy(self, E, st, fr, node, ci, s):
        d, q, n = E.as_ptr(st, ci.args[0], None), E.as_ptr(st, ci.args[1], None), E.lin(st, ci.args[2])
        h = st.g.get('h')
        b = st.env.get(BUF)
        self.n += 1
        ret = d
        if s == 'strncpy':
            ret = E.fresh('strncpy', None, None, None, 0, 1 << 40)
            st.cons.add_le(ret - n)
        for p, w in ((d, True), (q, False)):
            if not (h in ('X', 'RO') and p.base == b.base):
                self.touch(E, st, fr, node, p.base, w)
        if h == 'X' and d.base == b.base:
            self.nacc += 1
            self.kindok(E, st, fr, node, s)
            l = st.env[LEN]
            if not st.cons.proves_eq(d.off - b.off):
                E.report(fr, node, 'writes at offset %r of a variable' % (d.off - b.off), st, key='off')
            if self.mode == 'str':
                # room for the terminator
                if not st.cons.proves_le(n + self.term - l):
                    E.report(fr, node, 'writes %r bytes to a string that was opened for %r bytes' % (n, l), st, key='len')
                if not st.cons.proves_eq(n - self.strlen(st)):
                    E.report(fr, node, 'writes at most %r of the %r bytes' % (n, self.strlen(st)), st, key='len')
                st.env[WL] = ret
            else:
                if not st.cons.proves_eq(n - l):
                    E.report(fr, node, 'writes %r bytes to a variable that was opened for %r bytes' % (n, l), st, key='len')
                st.env[WL] = n
            self.source(E, st, fr, node, q)
            st.g['w'] = st.g.get('w', 0) + 1
        elif h == 'RO' and q.base == b.base and self.dir == 'get':
            self.kindok(E, st, fr, node, s)
            if not self.whole(E, st, q, n):
                E.report(fr, node, 'reads %r bytes of the %r bytes that were opened' % (n, st.env[LEN]), st, key='rlen')
            if self.param is not None and d != self.param:
                E.report(fr, node, 'the value is copied to %r instead of to the buffer of the caller' % (d,), st, key='dst')
            st.g['r'] = st.g.get('r', 0) + 1
            st.env[WL] = ret if s == 'strncpy' else n
        elif h in ('X', 'RO') and b.base == d.base:
            E.report(fr, node, 'writes to a variable that was only opened for reading', st, key='rowrite')
        return [(st, ret)]

    def strlen(self, st):
        return st.env[LEN] - self.term

    def source(self, E, st, fr, node, q):
        """Where a value is taken from: what the caller gave."""
        if self.typed:
            v = E.load(st, q, self.typed)
            if v != self.param and not (v.__class__ is Lin and self.param.__class__ is Lin and st.cons.proves_eq(v - self.param)):
                E.report(fr, node, 'takes the value from %r' % (q,), st, key='src')
            return
        if q != self.param:
            E.report(fr, node, 'takes the value from %r instead of %r' % (q, self.param), st, key='src')

    def cmp(self, E, st, fr, node, ci, s):
        self.n += 1
        a = [E.as_ptr(st, x, None) if unptr(x) else E.lin(st, x) for x in ci.args]
        r = E.fresh('cmp', None, 32, False)
        ps = [(i, x) for i, x in enumerate(a) if unptr(x)]
        ls = [x for x in a if not unptr(x)]
        if len(ps) != 2:
            return None
        h = st.g.get('h')
        b = st.env.get(BUF)
        for _, p in ps:
            if not (h in ('X', 'RO') and p.base == b.base):
                self.touch(E, st, fr, node, p.base, False)
        if h != 'X':
            return [(st, r)]
        bi = [k for k, (i, p) in enumerate(ps) if p.base == b.base]
        if len(bi) == 1:
            self.kindok(E, st, fr, node, s)
            bp, sp = ps[bi[0]][1], ps[1 - bi[0]][1]
            if len(ls) == 2:
                bl, sl = ls[bi[0]], ls[1 - bi[0]]
            else:
                bl = sl = ls[0]
            self.cmps[r.t[0][0]] = (bp, bl, sp, sl)
        return [(st, r)]

    def equal(self, E, st, fr, node):
        """The buffer is known to hold the value already."""
        b, l = st.env[BUF], st.env[LEN]
        for a, (bp, bl, sp, sl) in self.cmps.items():
            if not st.cons.proves_eq(A(a)):
                continue
            if bp.base != b.base or not st.cons.proves_eq(bp.off - b.off):
                continue
            if self.mode == 'str':
                if not st.cons.proves_eq(sl - self.strlen(st)) or not st.cons.proves_le(l - bl) and self.term or not st.cons.proves_le(bl - l):
                    continue
            elif not st.cons.proves_eq(bl - l) or not st.cons.proves_eq(sl - l):
                continue
            if self.typed:
                v = E.load(st, sp, self.typed)
                if v == self.param or v.__class__ is Lin and self.param.__class__ is Lin and st.cons.proves_eq(v - self.param):
                    return True
            elif sp == self.param:
                return True
        if self.typed and not (self.swap and sizeof(self.typed) > 1) and not st.g.get('nar'):
            v = E.load(st, b, self.typed)
            if v == self.param or v.__class__ is Lin and self.param.__class__ is Lin and st.cons.proves_eq(v - self.param):
                return True
        return False

    # -- hooks ------------------------------------------------------------
    def hook(self, E, st, fr, node, ci):
        self.nhooks += 1
        self.n += 1
        s = ci.short
        t, p, n = E.lin(st, ci.args[0]), ci.args[1], E.lin(st, ci.args[2])
        p = E.as_ptr(st, p, None)
        if self.other is not None and self.is_other(E, st, ci, p):
            return self.other_hook(E, st, fr, node, s, p, n)
        h = st.g.get('h')
        if self.exptype is not None and not st.cons.proves_eq(t - self.exptype):
            E.report(fr, node, 'the hook is told type %r instead of %#x' % (t, self.exptype), st, key='type')
        if s in ('hookEntryX', 'hookEntryRO'):
            if h is not None:
                E.report(fr, node, '%s is called %s' % (s, 'again' if h == 'done' else 'within another entry'), st, key='entry')
            if (s == 'hookEntryX') != (self.dir == 'set'):
                E.report(fr, node, '%s is called to %s the value' % (s, self.dir), st, key='dirn')
            st.g['h'] = 'X' if s == 'hookEntryX' else 'RO'
            st.env[BUF], st.env[LEN], st.env[TYP] = p, n, t
            for base, w in st.g.get('out', ()):
                if base == p.base:
                    E.report(fr, node, '%s a variable before its entry hook' % ('writes' if w else 'reads'), st, key='early')
            if not self.explen(E, st, n):
                E.report(fr, node, 'the hook is told %r bytes' % n, st, key='hlen')
            st.g['out'] = frozenset(x for x in st.g.get('out', ()) if x[0] == p.base)
            return [(st, Z)]
        want = 'X' if s == 'hookExitX' else 'RO'
        if h != want:
            E.report(fr, node, '%s without the matching entry' % s, st, key='exit')
            return [(st, Z)]
        if p.base != st.env[BUF].base or not st.cons.proves_eq(p.off - st.env[BUF].off):
            E.report(fr, node, 'the exit hook is told another buffer', st, key='xbuf')
        # a string that is read may be shorter
        if not st.cons.proves_eq(n - st.env[LEN]) and not (s == 'hookExitRO' and self.mode == 'str' and WL in st.env and st.cons.proves_eq(n - st.env[WL])):
            E.report(fr, node, 'the exit hook is told %r bytes, and the entry hook was told %r' % (n, st.env[LEN]), st, key='xlen')
        if s == 'hookExitRO':
            st.g['h'] = 'done'
            return [(st, Z)]
        out = []
        f = E.truth(st, ci.args[3])
        for val in (True, False):
            for s2 in E.assume(st.copy(), f, val):
                if s2.cons.bot:
                    continue
                w = s2.g.get('w')
                if val:
                    if not w:
                        E.report(fr, node, 'a change is reported, although nothing was written', s2, key='nochange')
                else:
                    if w:
                        E.report(fr, node, 'something was written, although no change is reported', s2, key='change')
                    elif not self.equal(E, s2, fr, node):
                        E.report(fr, node, 'nothing is written, although the value may differ', s2, key='lost')
                if w and self.mode == 'str' and (self.term or self.dir == 'set'):
                    z = s2.env.get(NUL)
                    if z is None or not s2.cons.proves_eq(z - s2.env[WL]):
                        E.report(fr, node, 'the string is not terminated after the %r bytes that were written' % s2.env.get(WL), s2, key='nul')
                s2.g['h'] = 'done'
                out.append((s2, Z))
        return out

    def is_other(self, E, st, ci, p):
        return unptr(p) and p.base == self.other

    def other_hook(self, E, st, fr, node, s, p, n):
        o = st.g.get('oh')
        if s == 'hookEntryRO' and o is None:
            st.g['oh'] = 'RO'
            st.env[('ghost', 'vol')] = n
        elif s == 'hookExitRO' and o == 'RO':
            st.g['oh'] = 'done'
            if not st.cons.proves_eq(n - st.env[('ghost', 'vol')]):
                E.report(fr, node, 'the exit hook of the source is told another length', st, key='oxlen')
        else:
            E.report(fr, node, '%s of the variable that is copied from' % s, st, key='ohook')
        return [(st, Z)]

    def explen(self, E, st, n):
        return True

    def roots(self, st):
        return self.keep


def type_fields(m, f):
    return [n['n'] for n in f.nodes.values() if n['k'] == 'mem' and n.get('n')]


def types_of(m):
    for e in m.enums.values():
        if e.get('cls') == 'stored::Type' and 'Int8' in e['v'] and 'FlagFunction' in e['v']:
            return e['v']
    raise Broken('anchor vanished: the enumeration of the types')


def is_swapping(m, cfgname):
    v = m.vars.get('stored::Config::StoreInLittleEndian', {}).get('v')
    if v is None:
        v = m.vars.get('stored::DefaultConfig::StoreInLittleEndian', {}).get('v')
    return v


CONCRETE = ('Int8', 'Uint8', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Int64', 'Uint64', 'Float', 'Double', 'Bool', 'Pointer32', 'Pointer64', 'Blob', 'String')
TYPES = {'unsigned char': 'Uint8', 'short': 'Int16', 'unsigned int': 'Uint32', 'long': 'Int64', 'float': 'Float', 'double': 'Double', 'bool': 'Bool',
         'signed char': 'Int8', 'unsigned short': 'Uint16', 'int': 'Int32', 'unsigned long': 'Uint64'}


def finish(ctx, E, r, f):
    ctx.count('obligations', r.n)
    ctx.count('hook_calls', r.nhooks)
    ctx.cover('functions', [fdef(E.m.fns[i]) for i in E.stats['functions'] if i in E.m.fns])
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], 'variable', x['msg'], x['via'], x['trace'])


def run_typed(ctx, cfg, swap, fid):
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    T = types_of(m)
    reset_atoms()
    setter = f.short == 'set'
    t = unq(f.params[0]['t']) if setter else unq(f.d['rt'])
    if t not in TYPES:
        return
    r = Var(m, 'typed', swap, None, t)
    r.dir = 'set' if setter else 'get'
    r.isfixed, r.size, r.term, r.exptype, r.callers = True, sizeof(t), 0, T[TYPES[t]], None
    r.explen = lambda E, st, n: st.cons.proves_eq(n - r.size)
    E = Engine(m, r)
    st, this, args = start(E, f)
    r.param = args[0] if setter else None
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        n += 1
        r.n += 1
        if s.g.get('h') != 'done':
            E.report(None_fr(f), None, 'a path without %s hooks' % ('complete' if s.g.get('h') else 'any'), s, key='hooks')
            continue
        if not setter:
            b = s.env[BUF]
            w = E.load(s, b, t)
            if swap and sizeof(t) > 1:
                w = r.swapped(E, w)
            if v != w and not (v.__class__ is Lin and w.__class__ is Lin and s.cons.proves_eq(v - w)):
                E.report(None_fr(f), None, 'the value %r is returned instead of what is in the store%s' % (v, ', in the byte order of the host' if swap else ''), s, key='getval')
    ctx.need(n and r.nhooks, 'hooks of ' + f.name)
    ctx.count('exit_states', n)
    finish(ctx, E, r, f)


def run_untyped(ctx, cfg, swap, fid, tname):
    m = model(cfg, ['d_store'])
    f = m.fns[fid]
    T = types_of(m)
    typ = T[tname]
    setter = f.short != 'get'
    cp = f.short == 'copy'
    fixed = typ & T['FlagFixed']
    reset_atoms()
    r = Var(m, 'str' if tname == 'String' else 'bytes', swap, typ, None)
    r.dir = 'set' if setter else 'get'
    r.isfixed = bool(fixed)
    r.size = (typ & T['MaskSize']) + 1 if fixed else None
    r.term = 1 if tname == 'String' and setter and not cp else 0
    r.exptype = typ
    E = Engine(m, r)
    st, this, args = start(E, f)
    # the size of the variable
    sz = E.fresh('size', None, None, None, 0, 1 << 32) if r.size is None else L(r.size)
    tf = [x for x in m.fns_named(f.cls + '::type') if not x.params]
    sf = [x for x in m.fns_named(f.cls + '::size') if not x.params]
    ctx.need(tf and sf, f.cls + '::type and size')
    for o in (this, args[0].base) if cp else (this,):
        for nm in type_fields(m, tf[0]):
            E.store(st, Ptr(('fld', o, nm), Z), L(typ), 'unsigned char', 8, True)
        for nm in type_fields(m, sf[0]):
            if E.load(st, Ptr(('fld', o, nm), Z), 'unsigned long', 64, True) != L(typ):
                E.store(st, Ptr(('fld', o, nm), Z), sz, 'unsigned long', 64, True)
    if cp:
        r.callers = set()
        bf = [x for x in m.fns_named(f.cls + '::buffer') if not x.params]
        ctx.need(bf, f.cls + '::buffer')
        bases = []
        for o in (this, args[0].base):
            for s, v in E.exec_fn(bf[0], st.copy(), None, ('buffer', o), [], o, o):
                if unptr(v) and not s.cons.bot:
                    bases.append(v)
                    break
        ctx.need(len(bases) == 2, 'the buffers of the variables')
        r.other = bases[1].base
        r.swap = False
        r.param = bases[1]
        want = sz
    else:
        r.param = args[0]
        r.callers = {args[0].base}
        glen = E.lin(st, args[1])
        if fixed:
            want = L(r.size)
        else:
            want = None
            st.cons.add_le(glen - L(1 << 32))

    r.keep = [sz] + args

    def explen(E, st, n):
        if cp or fixed:
            return st.cons.proves_eq(n - want)
        n = n - r.term
        # min(len, size)
        if not st.cons.proves_le(n - glen) or not st.cons.proves_le(n - sz):
            return False
        return st.cons.proves_eq(n - glen) or st.cons.proves_eq(n - sz)
    r.explen = explen
    n = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
        if s.cons.bot:
            continue
        n += 1
        r.n += 1
        if s.g.get('h') != 'done':
            E.report(None_fr(f), None, 'a path without %s hooks' % ('complete' if s.g.get('h') else 'any'), s, key='hooks')
            continue
        if cp:
            if s.g.get('oh') != 'done':
                E.report(None_fr(f), None, 'a path without the hooks of the source', s, key='ohooks')
            continue
        if not setter and s.g.get('r', 0) != 1:
            E.report(None_fr(f), None, 'the value is read %d times' % s.g.get('r', 0), s, key='reads')
        v = E.lin(s, v)
        l = s.env[LEN]
        w = s.env.get(WL)
        if not setter and tname == 'String' and w is not None and not s.cons.proves_le(l - w):
            z = s.env.get(NUL)
            if z is None or not s.cons.proves_eq(z - w):
                E.report(None_fr(f), None, 'the string of %r bytes that is read is not terminated, although there is room for it' % w, s, key='rnul')
        if not (s.cons.proves_eq(v - (l - r.term)) or w is not None and s.cons.proves_eq(v - w)):
            E.report(None_fr(f), None, 'returns %r for a value of %r bytes' % (v, l), s, key='ret')
    ctx.need(n and r.nhooks, 'hooks of ' + f.name)
    ctx.count('exit_states', n)
    finish(ctx, E, r, f)


class Util(Rule):
    maxdepth = 6
    K = 4000
    unroll = 12
    strong = False

    def on_access(self, E, st, fr, node, ptr, nbytes, write, what):
        pass


def util_fn(ctx, m, name, np):
    f = [x for x in m.fns_named('stored::' + name) if len(x.params) == np and not x.cls]
    ctx.need(f, 'stored::' + name)
    return f[0]


def prep(E, f, sizes):
    """Byte buffers and lengths as arguments."""
    st, this, args = start(E, f)
    bases, i = [], 0
    for k, p in enumerate(f.params):
        if '*' in p['t']:
            b = ('arg', p['n'])
            E.basetype[b] = 'char[16]'
            bases.append(b)
            args[k] = Ptr(b, Z)
        else:
            args[k] = L(sizes[i])
            i += 1
    return st, args, bases


def byte(E, st, b, i, u):
    return E.fit(st, E.lin(st, E.load(st, Ptr(b, L(i)), 'unsigned char' if u else 'char', 8, u)), 'unsigned char' if u else 'char', 8, u)


def run_swap(ctx, name, n):
    m = model('std', ['util'])
    f = util_fn(ctx, m, name, 2 if name == 'swap_endian' else 3)
    reset_atoms()
    r = Util()
    E = Engine(m, r)
    st, args, bs = prep(E, f, [n])
    u = False
    for x in f.nodes.values():
        if x.get('w') == 8 and x['k'] in ('idx', 'cast', 'un') and x.get('u'):
            u = True
    old = {b: [byte(E, st, b, i, u) for i in range(n)] for b in bs}
    cnt = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, None, None):
        if s.cons.bot:
            continue
        cnt += 1
        ctx.count('obligations')
        new = {b: [byte(E, s, b, i, u) for i in range(n)] for b in bs}
        if name == 'memcmp_swap':
            x, y = old[bs[0]], old[bs[1]]
            eq = all(s.cons.proves_eq(x[i] - y[n - 1 - i]) for i in range(n))
            zero = s.cons.copy()
            zero.add_eq(E.lin(s, v))
            if not zero.bot and not eq:
                E.report(None_fr(f), None, 'may return 0 for %d bytes of which not all were compared in opposite order' % n, s, key='swcmp')
            if not s.cons.proves_eq(E.lin(s, v)):
                c = s.cons.copy()
                for i in range(n):
                    c.add_eq(x[i] - y[n - 1 - i])
                if not c.bot:
                    E.report(None_fr(f), None, 'may not return 0 for %d equal bytes in opposite order' % n, s, key='swneq')
        else:
            src = bs[-1]
            for i in range(n):
                if not s.cons.proves_eq(new[bs[0]][i] - old[src][n - 1 - i]):
                    E.report(None_fr(f), None, 'byte %d of %d is %r after the swap, instead of %r' % (i, n, new[bs[0]][i], old[src][n - 1 - i]), s, key='swap')
                    break
    ctx.need(cnt, 'paths through ' + f.name)
    finish(ctx, E, fake, f)


class fake:
    n = nhooks = 0


def run_strcmp(ctx, n1, n2):
    m = model('std', ['util'])
    f = util_fn(ctx, m, 'strncmp', 4)
    reset_atoms()
    E = Engine(m, Util())
    st, args, bs = prep(E, f, [n1, n2])
    x, y = bs
    cnt = 0
    for s, v in E.exec_fn(f, st, None, ('root',), args, None, None):
        if s.cons.bot:
            continue
        cnt += 1
        ctx.count('obligations')
        v = E.lin(s, v)

        def bad(what):
            E.report(None_fr(f), None, 'strings of at most %d and %d bytes: %s' % (n1, n2, what), s, key='strcmp')

        def walk(c, i):
            a = byte(E, s, x, i, False) if i < n1 else Z
            b = byte(E, s, y, i, False) if i < n2 else Z
            # different here
            for d in (a - b + 1, b - a + 1):
                c2 = c.copy()
                c2.add_le(d)
                c2.add_eq(v)
                if not c2.bot:
                    bad('returns 0, although byte %d may differ' % i)
            c3 = c.copy()
            c3.add_eq(a - b)
            if c3.bot:
                return
            # both end here
            c4 = c3.copy()
            c4.add_eq(a)
            if not c4.bot and not c4.proves_eq(v):
                bad('may not return 0, although they are equal and end at byte %d' % i)
            if i < n1 or i < n2:
                for d in (a + 1, -a + 1):
                    c5 = c3.copy()
                    c5.add_le(d)
                    if not c5.bot:
                        walk(c5, i + 1)
        walk(s.cons.copy(), 0)
    ctx.need(cnt, 'paths through ' + f.name)
    finish(ctx, E, fake, f)


def run_strcpy(ctx, n):
    m = model('std', ['util'])
    f = util_fn(ctx, m, 'strncpy', 3)
    reset_atoms()
    E = Engine(m, Util())
    st, args, bs = prep(E, f, [n])
    d, q = bs
    cnt = 0
    old = [byte(E, st, q, i, False) for i in range(n)]
    keep = [byte(E, st, d, i, False) for i in range(n + 1)]
    for s, v in E.exec_fn(f, st, None, ('root',), args, None, None):
        if s.cons.bot:
            continue
        cnt += 1
        ctx.count('obligations')
        v = E.lin(s, v)
        if not v.const or not 0 <= v.c <= n:
            E.report(None_fr(f), None, 'returns %r for a string of at most %d bytes' % (v, n), s, key='strcpy')
            continue
        k = int(v.c)
        for i in range(k):
            if not s.cons.proves_eq(byte(E, s, d, i, False) - old[i]):
                E.report(None_fr(f), None, 'byte %d is not copied' % i, s, key='strcpy')
            c = s.cons.copy()
            c.add_eq(old[i])
            if not c.bot:
                E.report(None_fr(f), None, 'copies %d bytes, although byte %d may be the terminator' % (k, i), s, key='strcpy')
        for i in range(k, n + 1):
            if not s.cons.proves_eq(byte(E, s, d, i, False) - keep[i]):
                E.report(None_fr(f), None, 'byte %d is changed, after a string of %d bytes' % (i, k), s, key='strcpy')
        if k < n and not s.cons.proves_eq(old[k]):
            E.report(None_fr(f), None, 'stops at byte %d of %d, which may not be the terminator' % (k, n), s, key='strcpy')
    ctx.need(cnt, 'paths through ' + f.name)
    finish(ctx, E, fake, f)


def p16(ctx):
    ctx.rule('a variable is only accessed between the entry and exit hooks, which are told the same type, buffer, and length')
    ctx.rule('a change is reported if and only if the value is written; it is not written only if it compared equal, as a whole')
    ctx.rule('all of the value is written and read, in the byte order of the store, within the buffer that was opened; strings are terminated')
    jobs = []
    for cfg, swap in (('std', False), ('alt', True)):
        m = model(cfg, ['d_store'])
        ctx.need(is_swapping(m, cfg) is not None and bool(is_swapping(m, cfg)) != swap, 'the configured byte order of the store in ' + cfg)
        nt = nu = 0
        for f in m.fns.values():
            if not f.cls or f.short not in ('set', 'get', 'copy'):
                continue
            if f.cls.startswith('stored::Variable<') and targs(f.cls)[-1] != 'false' and len(f.params) == (f.short == 'set') and f.short != 'copy':
                jobs.append((run_typed, cfg, swap, f.id))
                nt += 1
            elif f.cls.startswith('stored::Variant<') and targ0(f.cls) != 'void' and (len(f.params) == 2 and unq(f.params[0]['t']).endswith('void *') or f.short == 'copy'):
                if f.short == 'copy' and len(f.params) != 1:
                    continue
                for t in CONCRETE:
                    jobs.append((run_untyped, cfg, swap, f.id, t))
                nu += 1
        ctx.need(nt >= 4 and nu >= 3, 'set and get of variables')
    jobs += [(run_swap, x, n) for x in ('swap_endian', 'memcpy_swap', 'memcmp_swap') for n in range(1, 9)]
    jobs += [(run_strcmp, a, b) for a in range(4) for b in range(4)]
    jobs += [(run_strcpy, a) for a in range(5)]
    pmap(ctx, lambda c, j: j[0](c, *j[1:]), jobs)
