"""The journal: a search tree over the changes, from which exactly those since some moment are obtained."""
from common import *
from sync import SJ, SUNITS
from lin import ATOMS

MC = ('fld', ('this', SJ), 'm_changes')


def t0(p):
    return unq(p['t'].rstrip('& '))


def u64(p):
    return t0(p) == 'unsigned long' and not p.get('isref')


class Tree(Rule):
    """Roles of the functions of the journal follow from their signatures."""
    maxdepth = 6
    K = 200
    unroll = 9

    def __init__(self, m):
        self.m = m
        fs = [f for f in m.fns.values() if f.cls == SJ]
        self.long = {f.id for f in fs if f.d['rt'] == 'unsigned long' and len(f.params) == 1 and t0(f.params[0]) == 'unsigned short'}
        self.short = {f.id for f in fs if f.d['rt'] == 'unsigned short' and len(f.params) == 1 and u64(f.params[0])}
        sl = [f for f in fs if len(f.params) >= 2 and u64(f.params[-1]) and u64(f.params[-2]) and not f.d.get('static')]
        self.regen = {f.id for f in sl if len(f.params) == 2 and f.d['rt'] == 'unsigned long'}
        self.update = {f.id for f in sl if f.d['rt'] == 'bool' and len(f.params) == 5 and t0(f.params[0]) == 'unsigned int'}
        self.walk = {f.id for f in sl if f.d['rt'] == 'void' and len(f.params) in (4, 5)}
        self.slices = self.regen | self.update | self.walk
        self.find = {f.id for f in fs if f.d['rt'] == 'bool' and [t0(p) for p in f.params] == ['unsigned int', 'unsigned long']}
        self.since = {f.id for f in fs if f.d['rt'] == 'bool' and [t0(p) for p in f.params] == ['unsigned long']}
        self.one = {f.id for f in fs if any(t0(p).replace('const ', '').endswith('ObjectInfo') for p in f.params)}
        self.root = None
        self.n = 0

    def check(self, ctx):
        for n, s in (('the conversions of sequence numbers', self.long and self.short), ('the update of an entry', self.update), ('the regeneration of the tree', self.regen),
                     ('the walks over the tree', len(self.walk) >= 2), ('the lookup of a change', self.find), ('the test for changes', self.since)):
            ctx.need(s, n)

    def gkey(self, st):
        return None

    def inline(self, E, st, fr, ci):
        if ci.target.cls != SJ and not ci.target.file.endswith(('synchronizer.cpp', 'synchronizer.h')):
            return False
        return None

    def pre_call(self, E, st, fr, node, ci):
        fid = ci.fid
        if fid in self.long or fid in self.short:
            x = E.lin(st, E.load(st, ci.args[0], None, None, None) if ci.args[0].__class__ is Ptr else ci.args[0])
            tag, other = ('L', 'S') if fid in self.long else ('S', 'L')
            if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
                k = ATOMS[x.t[0][0]].key
                if k and k[0] == other:
                    return [(st, k[1])]
            a = key_atom((tag, x), tag, 0, (1 << 62) if tag == 'L' else 0xffff)
            return [(st, A(a))]
        if fid in self.slices:
            lo, up = (E.lin(st, a) for a in ci.args[-2:])
            v = self.slice_call(E, st, fr, node, ci, lo, up)
            return v
        if fid in self.one and self.root is not None and self.root.id in self.walk:
            st.g['visit'] = st.g.get('visit', 0) + 1
            return [(st, Z)]
        if ci.target is None and self.root is not None and self.root.id in self.walk and ci.fn in (None, '') or node.get('fe'):
            st.g['visit'] = st.g.get('visit', 0) + 1
            return [(st, Z)]
        return None

    def slice_call(self, E, st, fr, node, ci, lo, up):
        n = len(st.g.get('calls', ()))
        v = E.fresh_val(st, fr, node, 'sub%d' % n)
        st.g['calls'] = st.g.get('calls', ()) + ((ci.fid, lo, up, v, tuple(ci.args[:-2])),)
        if E.keytype.get('x') is None and ci.fid in self.regen:
            st.cons.add_le(-v)
        # the parts below the pivot may change, the pivot itself is not in there
        return [(st, v)]

    def on_access(self, E, st, fr, node, ptr, nb, write, what):
        if ptr.__class__ is Ptr and ptr.base == ('buf', MC):
            i = ptr.off
            if i.const:
                es = E.elem_size(E.basetype.get(MC) or '') or 1
                i = i.c // es
                if st.g.get('seen', ())[-1:] != (i,):
                    st.g['seen'] = st.g.get('seen', ()) + (i,)


def obj(E, st, i):
    es = E.elem_size(E.basetype.get(MC) or '') or 1
    return E.objbase(Ptr(('buf', MC), L(i * es)))


def fld(E, st, i, name, w):
    return E.load(st, Ptr(('fld', obj(E, st, i), name), Z), 'unsigned int' if w == 32 else 'unsigned short', w, True)


def begin(m, f, lo=None, up=None, size=7):
    reset_atoms()
    r = Tree(m)
    r.root = f
    E = Engine(m, r)
    st, this, args = start(E, f)
    E.basetype[MC] = 'std::vector<' + next(c for c in m.records if c.endswith('StoreJournal::ObjectInfo')) + '>'
    E.set_size(st, MC, L(size))
    if lo is not None:
        args[-2], args[-1] = L(lo), L(up)
    pre = {}
    for i in range(size):
        pre[i] = {n: fld(E, st, i, n, w) for n, w in (('key', 32), ('seq', 16), ('highest', 16), ('len', 32))}
    # the roots of the calls of the function itself are of interest
    return r, E, st, this, args, pre


def Lf(v):
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        k = ATOMS[v.t[0][0]].key
        if k and k[0] == 'S':
            return k[1]
    return A(key_atom(('L', v), 'L', 0, 1 << 62))


def run_fn(ctx, m, f, lo, up):
    r, E, st, this, args, pre = begin(m, f, lo, up)
    top = dict(r.__dict__)
    r.slices_top = None
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    ctx.cover('functions', E.stats['functions'])
    return r, E, outs, args, pre


def p14(ctx):
    ctx.rule('all functions that go through the journal use the same tree: the same pivot for the same range, and the ranges on either side of it')
    ctx.rule('the highest sequence number of a part of the tree is at least that of every entry in it')
    ctx.rule('a part of the tree is only skipped when its highest sequence number is too low, and an entry is taken exactly if its own is not')
    ctx.rule('the journal is sorted and regenerated after entries are added or removed')
    ctx.rule('changes belong to the current sequence number, which is increased before the next one is returned')
    m = model('std', SUNITS)
    r0 = Tree(m)
    r0.check(ctx)
    pivots = {}
    N = 6 if ctx.thorough else 4
    for fid in sorted(r0.slices, key=lambda x: (x in r0.update, x)):
        f = m.fns[fid]
        for lo in range(0, N + 1):
            for up in range(0, N + 1):
                r, E, outs, args, pre = run_fn(ctx, m, f, lo, up)
                ctx.count('ranges')
                ctx.need(outs, 'a path through ' + f.name)
                if fid in r.update:
                    outs = [(s2, ONE if d else Z) for s, v in outs for s2, d in split(E, s, E.truth(s, v))]
                for s, v in outs:
                    ctx.count('paths')
                    slice_path(ctx, m, r, E, f, lo, up, s, v, args, pre, pivots)
    order(ctx, m)
    lookup(ctx, m, r0, pivots)
    changes(ctx, m, r0)


def bad(ctx, f, key, msg, s):
    ctx.finding(f.loc, f.name, key, msg, '', s.tr if s is not None else ())


def slice_path(ctx, m, r, E, f, lo, up, s, v, args, pre, pivots):
    seen, calls = s.g.get('seen', ()), s.g.get('calls', ())
    c = s.cons
    if lo >= up:
        if seen or any(x[1].c < x[2].c for x in calls if x[1].const and x[2].const):
            bad(ctx, f, 'empty', 'an empty range of the journal is not left alone', s)
        if f.id in r.regen and not (v.__class__ is Lin and v.const and v.c == 0):
            bad(ctx, f, 'empty', 'an empty range has no sequence number', s)
        if f.id in r.update and E.decide(s, E.truth(s, v)) is not False:
            bad(ctx, f, 'empty', 'an entry is found in an empty range', s)
        return
    if f.id in r.update and len(seen) > 1:
        # it goes on in a loop instead of by recursion
        for x, y in zip(seen, seen[1:]):
            if not node(ctx, f, lo, up, x, pivots, s):
                return
            if not covers(ctx, E, f, s, x, args, pre, v == ONE):
                return
            key, k = E.lin(s, args[0]), pre[x]['key']
            if not c.proves(key - k + 1 if y < x else k - key + 1):
                bad(ctx, f, 'search', 'the wrong part of the tree is searched', s)
            lo, up = (lo, x) if y < x else (x + 1, up)
        seen = seen[-1:]
    if len(set(seen)) != 1:
        bad(ctx, f, 'shape', 'the range [%d,%d[ is not split at one entry (%s)' % (lo, up, ', '.join(map(str, seen))), s)
        return
    p = seen[0]
    if not node(ctx, f, lo, up, p, pivots, s):
        return
    left = [x for x in calls if (x[1], x[2]) == (L(lo), L(p))]
    right = [x for x in calls if (x[1], x[2]) == (L(p + 1), L(up))]
    if len(left) + len(right) != len(calls) or any(x[0] != f.id for x in calls) or len(left) > 1 or len(right) > 1:
        bad(ctx, f, 'shape', 'the range [%d,%d[ is not continued in the parts on either side of entry %d' % (lo, up, p), s)
        return
    o = pre[p]
    h0, s0, k = Lf(o['highest']), Lf(o['seq']), o['key']
    if f.id in r.update:
        key, ln, seq = (E.lin(s, a) for a in args[:3])
        covers(ctx, E, f, s, p, args, pre, v == ONE)
        for x in calls:
            if tuple(E.lin(s, a) for a in x[4][:3]) != (key, ln, seq):
                bad(ctx, f, 'pass', 'another change is recorded in the part of the tree than was given', s)
        if left or right:
            if len(calls) != 1:
                bad(ctx, f, 'search', 'both parts of the tree are searched', s)
            elif not c.proves(key - k + 1 if left else k - key + 1):
                bad(ctx, f, 'search', 'the wrong part of the tree is searched', s)
            elif not c.proves_eq(E.lin(s, v) - calls[0][3]) and E.decide(s, E.truth(s, calls[0][3])) is not (v == ONE):
                bad(ctx, f, 'search', 'the result of the search is not returned', s)
        elif (lo >= p and c.proves(key - k + 1) or p + 1 >= up and c.proves(k - key + 1)) and E.decide(s, E.truth(s, v)) is False:
            pass
        else:
            if not c.proves_eq(key - k):
                bad(ctx, f, 'search', 'the search ends at an entry with another key', s)
            sq = fld(E, s, p, 'seq', 16)
            n = fld(E, s, p, 'len', 32)
            if sq.__class__ is not Lin or not c.proves_eq(Lf(sq) - seq):
                bad(ctx, f, 'seq', 'the sequence number of a changed entry is not set', s)
            if n.__class__ is not Lin or n == o['len']:
                bad(ctx, f, 'len', 'the length of a changed entry is not set', s)
            if E.decide(s, E.truth(s, v)) is not True:
                bad(ctx, f, 'found', 'an entry that is found is reported as unknown', s)
    elif f.id in r.regen:
        if len(left) != 1 or len(right) != 1:
            bad(ctx, f, 'regen', 'a part of the tree is not regenerated', s)
            return
        h = fld(E, s, p, 'highest', 16)
        h = Lf(h) if h.__class__ is Lin else Z
        v = E.lin(s, v)
        for what, y in (('the entry', s0), ('the left part', left[0][3]), ('the right part', right[0][3])):
            if not c.proves(y - h) or not c.proves(y - v):
                bad(ctx, f, 'regen', 'the highest sequence number that is regenerated does not cover %s' % what, s)
    else:
        since = next(E.lin(s, a) for a, q_ in zip(args, f.params) if u64(q_))
        vis = s.g.get('visit', 0)
        if not calls and not vis:
            if not c.proves(h0 - since + 1):
                bad(ctx, f, 'prune', 'a part of the tree is skipped that may hold changes since the given moment', s)
            return
        if len(left) != 1 or len(right) != 1:
            bad(ctx, f, 'prune', 'a part of the tree is skipped', s)
        for x in calls:
            xs = next((E.lin(s, a) for a, q_ in zip(x[4], f.params) if u64(q_)), None)
            if xs is None or xs != since:
                bad(ctx, f, 'pass', 'the parts of the tree are visited for another moment than was given', s)
        if vis > 1:
            bad(ctx, f, 'visit', 'an entry is visited more than once', s)
        elif vis and not c.proves(since - s0):
            bad(ctx, f, 'visit', 'an entry is taken that did not change since the given moment', s)
        elif not vis and not c.proves(s0 - since + 1):
            bad(ctx, f, 'visit', 'an entry is skipped that may have changed since the given moment', s)


def node(ctx, f, lo, up, p, pivots, s):
    q = pivots.setdefault((lo, up), (p, f.name))
    if q[0] != p:
        bad(ctx, f, 'pivot', 'the range [%d,%d[ is split at %d, but at %d by %s' % (lo, up, p, q[0], q[1]), s)
    return q[0] == p


def covers(ctx, E, f, s, p, args, pre, found):
    if not found:
        return True
    seq = E.lin(s, args[2])
    h = fld(E, s, p, 'highest', 16)
    h = Lf(h) if h.__class__ is Lin else None
    if h is None or not s.cons.proves(seq - h) or not s.cons.proves(Lf(pre[p]['highest']) - h):
        bad(ctx, f, 'highest', 'the highest sequence number of a part of the tree does not cover a change in it', s)
        return False
    return True


def order(ctx, m):
    """The entries are sorted by key."""
    fs = [f for f in m.fns.values() if f.short in ('operator()', 'operator<') and len(f.params) in (1, 2) and all('ObjectInfo' in p['t'] for p in f.params) and f.d['rt'] == 'bool']
    for f in fs:
        reset_atoms()
        E = Engine(m, Rule())
        st, this, args = start(E, f)
        if len(args) == 1:
            args = [Ptr(this, Z)] + args
            x = args[1:]
        else:
            x = args
        a, b = (E.load(st, Ptr(('fld', y.base, 'key'), Z), 'unsigned int', 32, True) for y in args)
        for s, v in E.exec_fn(f, st, None, ('root',), x, this, this):
            for s2, d in split(E, s, E.truth(s, v)):
                ctx.count('comparisons')
                if not s2.cons.proves(a - b + 1 if d else b - a):
                    bad(ctx, f, 'order', 'the entries are not sorted by key', s2)


def lookup(ctx, m, r0, pivots):
    N = 5 if ctx.thorough else 3
    for fid in sorted(r0.find | r0.since):
        f = m.fns[fid]
        for size in range(0, N + 1):
            r, E, st, this, args, pre = begin(m, f, size=size)
            r.root = None
            outs = E.exec_fn(f, st, None, ('root',), args, this, this)
            ctx.need(outs, 'a path through ' + f.name)
            since = E.lin(st, args[-1])
            for s, v in outs:
                ctx.count('paths')
                c = s.cons
                seen = s.g.get('seen', ())
                # follow the tree
                lo, up, path, ok = 0, size, [], True
                for i, x in enumerate(seen):
                    if lo >= up or pivots.get((lo, up), (None,))[0] != x:
                        ok = False
                        break
                    path.append((lo, up, x))
                    if i + 1 < len(seen):
                        nx = seen[i + 1]
                        if nx < x:
                            up = x
                        else:
                            lo = x + 1
                if not ok:
                    bad(ctx, f, 'pivot', 'with %d entries, the entries %s are visited, which is not a path in the tree' % (size, list(seen)), s)
                    continue
                vt = E.truth(s, v)
                for s2, d in split(E, s, vt):
                    c = s2.cons
                    if fid in r0.since:
                        if not seen:
                            if d or size:
                                bad(ctx, f, 'since', 'changes are reported without looking at the root of the tree', s2)
                            continue
                        h = Lf(pre[seen[0]]['highest'])
                        if len(seen) != 1 or not c.proves(since - h if d else h - since + 1):
                            bad(ctx, f, 'since', 'there are changes since some moment exactly if the highest sequence number of all is not lower', s2)
                        continue
                    key = E.lin(s, args[0])
                    for a, b in zip(path, path[1:]):
                        k = pre[a[2]]['key']
                        if not c.proves(key - k + 1 if b[2] < a[2] else k - key + 1):
                            bad(ctx, f, 'search', 'the wrong part of the tree is searched', s2)
                    if not path:
                        if size or d:
                            bad(ctx, f, 'since', 'the journal is not searched', s2)
                        continue
                    lo, up, x = path[-1]
                    o = pre[x]
                    h, q, k = Lf(o['highest']), Lf(o['seq']), o['key']
                    if d:
                        if not c.proves_eq(key - k) or not c.proves(since - q):
                            bad(ctx, f, 'since', 'an entry is reported as changed that is not', s2)
                    else:
                        pruned = c.proves(h - since + 1)
                        older = c.proves_eq(key - k) and c.proves(q - since + 1)
                        gone = lo >= x and c.proves(key - k + 1) or x + 1 >= up and c.proves(k - key + 1)
                        if not (pruned or older or gone):
                            bad(ctx, f, 'since', 'an entry may be reported as unchanged that is not', s2)


def split(E, s, f):
    d = E.decide(s, f)
    if d is not None:
        return [(s, d)]
    s2 = s.copy()
    return [(x, True) for x in E.assume(s, f, True)] + [(x, False) for x in E.assume(s2, f, False)]


class Changes(Tree):
    """What must happen when the journal changes."""
    unroll = 0
    K = 40

    def slice_call(self, E, st, fr, node, ci, lo, up):
        v = E.fresh_val(st, fr, node, 'sub')
        if ci.fid in self.regen:
            if lo == Z and up == E.size(st, MC):
                if st.g.get('stale') == 2:
                    E.report(fr, node, 'the tree is regenerated before the entries are sorted', st, key='sort')
                st.g['stale'] = 0
        if ci.fid in self.update:
            # the entries are the same, but for one
            self.n += 1
            self.current(E, st, fr, node, E.lin(st, ci.args[2]))
            if E.keytype.get('bool') is None:
                st.g['rec'] = 1
        return [(st, v)]

    def current(self, E, st, fr, node, seq):
        if fr.fn.short == 'bumpSeq' or any(True for x in self.stack(fr) if x in self.bump):
            return
        q = E.load(st, Ptr(('fld', ('this', SJ), 'm_seq'), Z), 'unsigned long', 64, True)
        if seq != q and not st.cons.proves_eq(seq - q):
            E.report(fr, node, 'a change is recorded under another sequence number than the current one', st, key='current')

    def stack(self, fr):
        while fr is not None:
            yield fr.fn.id
            fr = fr.parent

    def pre_call(self, E, st, fr, node, ci):
        if ci.fn == 'std::sort' and len(ci.args) in (2, 3) and st.g.get('stale') == 2:
            st.g['stale'] = 1
        if ci.obj is not None and ci.obj.base == MC:
            if ci.short in ('push_back', 'emplace_back', 'pop_back', 'erase', 'insert', 'emplace', 'resize', 'assign', 'swap'):
                st.g['stale'] = 2
                if ci.short in ('push_back', 'emplace_back', 'insert', 'emplace'):
                    st.g['rec'] = 1
        return Tree.pre_call(self, E, st, fr, node, ci)

    def on_store(self, E, st, fr, node, loc, val):
        b = loc.base
        if b[0] != 'fld':
            return
        if b[1] == ('this', SJ) and b[2] == 'm_partialSeq':
            st.g['partial'] = val.c if val.__class__ is Lin and val.const else None
        if fr.fn.short == 'operator=':
            if b[2] in ('seq', 'highest', 'key'):
                st.g['stale'] = 2
            return
        if b[2] in ('seq', 'highest') and self.entry(E, b[1]) and fr.fn.short != '(ctor)' and val.__class__ is Lin:
            h = val if b[2] == 'highest' else E.load(st, Ptr(('fld', b[1], 'highest'), Z), 'unsigned short', 16, True)
            q = val if b[2] == 'seq' else E.load(st, Ptr(('fld', b[1], 'seq'), Z), 'unsigned short', 16, True)
            if b[2] == 'seq':
                st.g['rec'] = 1
                self.n += 1
                self.current(E, st, fr, node, Lf(val))
            st.g['low'] = 0 if h.__class__ is Lin and q.__class__ is Lin and st.cons.proves(Lf(q) - Lf(h)) else 1

    def entry(self, E, b):
        t = unq(E.basetype.get(b) or '').replace('const ', '')
        return t.endswith('ObjectInfo') or b[0] == 'elem' and b[1] == ('buf', MC) or b[0] == 'sym'

    def on_access(self, *a):
        pass


def changes(ctx, m, r0):
    sl = r0.slices | r0.one
    fs = [f for f in m.fns.values() if f.cls == SJ and f.short not in ('(ctor)', '(dtor)') and f.id not in sl and f.id not in r0.long and f.id not in r0.short]
    bump = {f.id for f in fs if f.d['rt'] == 'unsigned long' and len(f.params) <= 1 and
            any(n['k'] in ('asg', 'un') and any(m2.get('n') == 'm_seq' for m2 in (f.nodes.get(x, {}) for x in n.get('c', ()))) for n in f.nodes.values())}
    ctx.need(bump, 'the function that increases the sequence number')
    called = {n.get('fid') for f in fs for n in f.nodes.values() if n.get('k') == 'call' and n.get('fid') != f.id}
    for f in fs:
        if f.d.get('acc') and f.id in called and f.id not in bump:
            continue
        reset_atoms()
        r = Changes(m)
        r.root = None
        r.bump = bump
        E = Engine(m, r)
        st, this, args = start(E, f)
        if this is None:
            continue
        E.basetype[MC] = 'std::vector<' + next(c for c in m.records if c.endswith('StoreJournal::ObjectInfo')) + '>'
        E.set_size(st, MC, E.size(st, MC))
        q0 = E.load(st, Ptr(('fld', this, 'm_seq'), Z), 'unsigned long', 64, True)
        st.cons.add_le(q0 - L(1 << 62))
        p0 = E.load(st, Ptr(('fld', this, 'm_partialSeq'), Z), 'bool', 8, True)
        outs = E.exec_fn(f, st, None, ('root',), args, this, this)
        ctx.count('change_events', r.n)
        for s, v in outs:
            ctx.count('paths')
            g = s.g
            if g.get('stale'):
                bad(ctx, f, 'stale', 'entries are added or removed, but the tree is not ' + ('sorted and ' if g['stale'] == 2 else '') + 'regenerated', s)
            if g.get('low'):
                bad(ctx, f, 'low', 'the sequence number of an entry is set, but the highest one of its part of the tree is lower', s)
            q = E.load(s, Ptr(('fld', this, 'm_seq'), Z), 'unsigned long', 64, True)
            p = E.load(s, Ptr(('fld', this, 'm_partialSeq'), Z), 'bool', 8, True)
            if g.get('rec') and f.id not in bump:
                pd = p.c if p.__class__ is Lin and p.const else None
                if pd != 1 and not (q.__class__ is Lin and s.cons.proves(q0 - q + 1)):
                    bad(ctx, f, 'partial', 'a change is recorded, but the current sequence number is not marked as used', s)
            if f.id in bump:
                ctx.count('bump_paths')
                if v.__class__ is Lin and not s.cons.proves_eq(v - q):
                    bad(ctx, f, 'bump', 'the number that is returned is not the current sequence number', s)
                if not s.cons.proves(q0 - q):
                    bad(ctx, f, 'bump', 'the sequence number decreases', s)
                if not (s.cons.proves_eq(p0) or s.cons.proves(q0 - q + 1)):
                    bad(ctx, f, 'bump', 'the sequence number is not increased after changes were recorded under it', s)
                if not s.cons.proves_eq(p):
                    bad(ctx, f, 'bump', 'the new sequence number counts as used already', s)
        for x in E.reports.values():
            ctx.finding(x['where'], x['func'], x['key'] or 'rule', x['msg'], x['via'], x['trace'])
