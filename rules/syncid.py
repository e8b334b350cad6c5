"""The synchronizer: what belongs to which store, and to which party's ids."""
from common import *
from engine import hk
from sync import SJ, SC, SY, SUNITS
from lin import ATOMS

CMD = {ord('h'): 'Hello', ord('w'): 'Welcome', ord('u'): 'Update', ord('b'): 'Bye'}
# space of the n-th id in a message
RECV = {('Hello', 0): 'theirs', ('Welcome', 0): 'ours', ('Welcome', 1): 'theirs', ('Update', 0): 'ours', ('Bye', 0): 'theirs'}
SENT = {('Hello', 0): 'ours', ('Welcome', 0): 'theirs', ('Welcome', 1): 'ours', ('Update', 0): 'theirs', ('Bye', 0): 'ours'}


def is_id(p):
    return p.get('w') == 16 and p.get('u') and not p.get('isref')


def ref_ptr(p):
    return p.get('isref') and unq(p['t'].rstrip('& ')).endswith('*')


def is_bool(p):
    return unq(p['t']) == 'bool'


def cls_of(p):
    return unq(p['t'].rstrip('& ')).replace('const ', '')


def fields(base):
    """The path of a location: root and names."""
    out = []
    while base[0] in ('fld', 'elem'):
        out.insert(0, base[2])
        base = base[1]
    return base, out


def entry(base):
    """(map, how, key) of the map entry that the base denotes."""
    r, names = fields(base)
    if r[0] == 'sym':
        k = ATOMS[r[1]].key
        if k and k[0] in ('at', 'find', 'begin'):
            return k[1], k[0], k[2][0] if k[0] == 'find' else k[2], r
    return None


class Sync(Rule):
    maxdepth = 12
    K = 60
    nevents = 0

    def __init__(self, m):
        self.m = m
        fs = [f for f in m.fns.values() if f.cls == SC]
        two = [f for f in fs if len(f.params) == 2]
        out = [f for f in two if ref_ptr(f.params[1]) or is_bool(f.params[1])]
        self.dec = {f.id for f in two if ref_ptr(f.params[0]) and f.params[1].get('isref') and f.d['rt'] == 'unsigned short'}
        self.new = {f.id for f in fs if not f.params and f.d['rt'] == 'unsigned short'}
        self.enc = {f.id for f in out if is_id(f.params[0])}
        self.cmd = {f.id for f in out if unq(f.params[0]['t']) in ('char', 'unsigned char')}
        js = [f for f in m.fns.values() if f.cls == SJ]
        self.apply = {f.id for f in js if len(f.params) >= 2 and ref_ptr(f.params[0]) and f.params[1].get('isref') and f.d['rt'] == 'unsigned long'}
        self.full = {f.id for f in js if len(f.params) == 2 and cls_of(f.params[0]) == PL and is_bool(f.params[1]) and f.d['rt'] == 'unsigned long'}
        self.upd = {f.id for f in js if len(f.params) == 2 and ref_ptr(f.params[0]) and unq(f.params[1]['t']) == 'unsigned long' and f.d['rt'] == 'unsigned long'}
        self.has = {f.id for f in js if len(f.params) == 1 and f.d['rt'] == 'bool' and unq(f.params[0]['t']) == 'unsigned long'}
        self.others = {f.id for f in m.fns.values() if f.cls == SY and f.d['rt'] == 'bool' and [cls_of(p) for p in f.params] == [SJ, SC]}
        self.plenc = ids(m, PL, 'encode')
        self.tag = {}
        self.first = None
        self.seen = set()

    def check(self, ctx):
        for n, s in (('the decoding of ids', self.dec), ('the selection of an id', self.new), ('the encoding of ids', self.enc), ('the encoding of commands', self.cmd),
                     ('the functions that apply a message', self.apply), ('the encoding of a store', self.full), ('the encoding of updates', self.upd),
                     ('the test for changes', self.has), ('the test for other connections', self.others)):
            ctx.need(s, n)

    def dyn_type(self, E, st, base):
        return SC if base == ('this', SC) else None

    def inline(self, E, st, fr, ci):
        t = ci.target
        if t.cls == SJ:
            return False
        return None

    # ------------------------------------------------------------ values
    def atom(self, v):
        if v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            return v.t[0][0]
        return None

    def space(self, v):
        if v.__class__ is Lin and v.const:
            return 'none' if v.c == 0 else 'const'
        a = self.atom(v)
        if a is None:
            return None
        t = self.tag.get(a)
        if t:
            return t[1]
        k = ATOMS[a].key
        if k and k[0] == 'init':
            b = k[1]
            if b[0] == 'fld' and b[2] == 'idOut':
                return 'theirs'
            if b[0] == 'fld' and b[2] == 'first':
                return 'ours'
        return None

    def on_branch(self, E, st, fr, node, formula, taken):
        if self.first is not None and 'cmd' not in st.g:
            lo, hi = st.cons.rng(self.first)
            if lo == hi:
                st.g['cmd'] = CMD.get(lo, '?')
        self.compared(E, st, fr, node, formula)

    def compared(self, E, st, fr, node, f):
        if f.__class__ in (BAnd, BOr):
            self.compared(E, st, fr, node, f.a)
            self.compared(E, st, fr, node, f.b)
        elif f.__class__ is B and f.op in ('eq', 'ne') and len(f.lin.t) == 2:
            sp = {self.space(A(a)) for a, _ in f.lin.t} - {None, 'none'}
            if len(sp) == 2:
                self.bad(E, st, fr, node, 'compare', 'an id of the other party is compared with one of our own')
            elif len(sp) == 1:
                self.ok()

    def ok(self):
        self.nevents += 1

    def bad(self, E, st, fr, node, key, msg):
        self.nevents += 1
        E.report(fr, node, msg + (' (message %s)' % st.g['cmd'] if st.g.get('cmd') else ''), st, key=key)

    # ------------------------------------------------------------ events
    def value(self, E, st, v, t='unsigned short', w=16):
        return E.load(st, v, t, w, True) if v.__class__ is Ptr else v

    def pre_call(self, E, st, fr, node, ci):
        fid, g = ci.fid, st.g
        if fid in self.dec:
            n = g.get('nin', 0)
            g['nin'] = n + 1
            v = E.fresh('id%d' % n, None, 16, True)
            self.tag[v.t[0][0]] = ('recv', RECV.get((g.get('cmd'), n)), n)
            return [(st, v)]
        if fid in self.new and fr.fn.id != fid and not self.inner:
            v = E.fresh('newid', None, None, None, 1, 0xffff)
            self.tag[v.t[0][0]] = ('new', 'ours', 0)
            return [(st, v)]
        if fid in self.cmd:
            v = E.lin(st, ci.args[0])
            g['out'] = CMD.get(v.c, '?') if v.const else '?'
            g['nout'] = 0
            self.on_cmd(E, st, fr, node, g['out'])
            return [(st, Z)]
        if fid in self.enc:
            n = g.get('nout', 0)
            g['nout'] = n + 1
            v = E.lin(st, ci.args[0])
            want = SENT.get((g.get('out'), n))
            sp = self.space(v)
            if want is None or sp is None:
                pass
            elif sp != 'none' and sp != want:
                self.bad(E, st, fr, node, 'send', 'id %d of a %s must be %s' % (n + 1, g['out'], 'the one that the other party has chosen' if want == 'theirs' else 'our own'))
            else:
                self.ok()
            self.on_send_id(E, st, fr, node, n, v)
            return [(st, Z)]
        if ci.cls and kind(unq(ci.cls)) == 'map' and ci.obj is not None and fields(ci.obj.base)[1][-1:] == ['m_idIn']:
            pt = (ci.node.get('pt') or [''])[0]
            if ci.short in ('find', 'operator[]', 'at', 'count', 'erase') and ci.args and 'iterator' not in pt.lower():
                sp = self.space(self.value(E, st, ci.args[0]))
                if sp == 'theirs' or sp == 'none' and ci.short == 'operator[]':
                    self.bad(E, st, fr, node, 'lookup', 'an id of the other party is looked up among our own')
                elif sp:
                    self.ok()
        return self.event(E, st, fr, node, ci)

    inner = False

    def on_cmd(self, E, st, fr, node, c):
        pass

    def on_send_id(self, E, st, fr, node, n, v):
        pass

    def event(self, E, st, fr, node, ci):
        if ci.target is not None and ci.target.cls == SJ:
            return [(st, self.result(E, st, fr, node, ci))]
        if overroot(self.m, ci.fid, self.plenc):
            return [(st, Z)]
        return None

    def result(self, E, st, fr, node, ci):
        return E.fresh_val(st, fr, node, ci.short)

    def on_store(self, E, st, fr, node, loc, val):
        b = loc.base
        if b[0] == 'fld' and b[2] == 'idOut' and fr.fn.short != '(ctor)':
            sp = self.space(val)
            if sp in ('ours', 'const'):
                self.bad(E, st, fr, node, 'idOut', 'an id that the other party did not choose is going to be used to send to it')
            elif sp:
                self.ok()
            self.on_idout(E, st, fr, node, b, val)

    def on_idout(self, E, st, fr, node, b, val):
        pass

    def at_exit(self, E, c, f, s, v):
        pass


class P12(Sync):
    """A message is applied to the store that the other party means."""

    def origin(self, st, base):
        """The entry of a map whose value the journal is."""
        k = ATOMS[base[1]].key if base[0] == 'sym' else None
        if k and k[0] == 'init' and k[1][0] == 'fld' and k[1][2] == 'second' and k[1][1][0] == 'sym':
            f = ATOMS[k[1][1][1]].key
            if f and f[0] == 'find':
                return k[1][1], f
        return None, None

    def event(self, E, st, fr, node, ci):
        t = ci.target
        g = st.g
        if t is not None and t.id in self.apply and fr.fn.cls == SC:
            j = ci.obj
            it, f = self.origin(st, j.base)
            what = 'the message is applied to a store that '
            if f is None or fields(f[1])[1][-1:] != ['m_idIn']:
                self.bad(E, st, fr, node, 'apply', what + 'was not looked up by the id in the message')
            else:
                a = self.atom(f[2][0])
                tg = self.tag.get(a)
                if not tg or tg[0] != 'recv' or tg[2] != 0:
                    self.bad(E, st, fr, node, 'apply', what + 'was looked up by another id than the first one of the message')
                else:
                    self.ok()
                end = [x for x in range(len(ATOMS)) if ATOMS[x].key and ATOMS[x].key[0] == 'end' and ATOMS[x].key[1] == f[1]]
                if not any(st.cons.proves_ne(A(it[1]) - A(x)) for x in end):
                    self.bad(E, st, fr, node, 'unknown', 'a message with an unknown id is applied')
                else:
                    self.ok()
            if g.get('cmd') == 'Welcome':
                if g.get('source') != (j, True):
                    self.bad(E, st, fr, node, 'direction', 'a Welcome is applied to a store that does not synchronize from this connection')
                else:
                    self.ok()
        if t is not None and t.id in self.full and fr.fn.cls == SC:
            g['whole'] = ci.obj
        c = ci.cls and kind(unq(ci.cls)) == 'map' and ci.obj is not None and fields(ci.obj.base)[1][-1:]
        if c and c[0] in ('m_idIn', 'm_store'):
            if ci.short in ('erase', 'clear'):
                g[('erased', c[0])] = (fr.fn.file, node['l'])
            elif ci.short == 'begin' or ci.short == 'cbegin':
                g[('scanned', c[0])] = 1
        return Sync.event(self, E, st, fr, node, ci)

    def on_branch(self, E, st, fr, node, formula, taken):
        Sync.on_branch(self, E, st, fr, node, formula, taken)
        f = formula
        if f.__class__ is B and len(f.lin.t) == 1:
            k = ATOMS[f.lin.t[0][0]].key
            if k and k[0] == 'init' and k[1][0] == 'fld' and k[1][2] == 'source':
                e = entry(k[1][1])
                d = E.decide(st, B('ne', A(f.lin.t[0][0])))
                if e is not None and d is not None and st.g.get('cmd') == 'Welcome' and e[2].__class__ in (Ptr, Lin):
                    st.g['source'] = (e[2], d)

    def absent(self, E, st, base, key):
        # what nextId() returns, which is checked on its own
        t = self.tag.get(self.atom(key))
        return bool(t) and t[0] == 'new'

    def on_store(self, E, st, fr, node, loc, val):
        Sync.on_store(self, E, st, fr, node, loc, val)
        e = entry(loc.base) if loc.base[0] == 'sym' else None
        g = st.g
        if e and fields(e[0])[1][-1:] == ['m_idIn'] and val.__class__ is Ptr:
            g['reg'] = 1
            t = self.tag.get(self.atom(e[2]))
            if t and t[0] == 'new':
                g['newreg'] = (e[2], val)
            if g.get('cmd') == 'Hello' and not g.get(('scanned', 'm_idIn')) and not g.get(('erased', 'm_idIn')):
                self.bad(E, st, fr, node, 'replace', 'an id is added for a store, while an id that was given out for it before stays valid')
        b = loc.base
        if b[0] == 'fld' and b[2] in ('idOut', 'source') and g.get('cmd') == 'Hello' and fr.fn.short != '(ctor)':
            e = entry(b[1])
            if e:
                g[b[2]] = (e[2], val)

    def on_send_id(self, E, st, fr, node, n, v):
        t = self.tag.get(self.atom(v))
        if t and t[0] == 'new':
            st.g['newsent'] = v

    def at_exit(self, E, c, f, s, v):
        g = s.g
        def bad(key, msg):
            c.finding(f.loc, f.name, key, msg, '', s.tr)
        if g.get(('erased', 'm_store')) and not g.get(('erased', 'm_idIn')) and not g.get(('scanned', 'm_idIn')):
            bad('lockstep', 'a store is dropped, while the id that was given out for it stays valid')
        if g.get(('erased', 'm_idIn')) and not g.get(('erased', 'm_store')) and not g.get('reg'):
            bad('lockstep', 'an id is withdrawn, while its store still counts as synchronized')
        c.count('exits_checked')
        if 'newsent' in g:
            if 'newreg' not in g or g['newreg'][0] != g['newsent']:
                bad('register', 'the other party is given an id that is not registered')
        if g.get('cmd') == 'Hello' and 'whole' in g:
            j = g['whole']
            if 'newreg' not in g or g['newreg'][1] != j:
                bad('hello', 'the store that is sent in a Welcome is not the one that the id in it is registered for')
            if 'idOut' not in g or g['idOut'][0] != j:
                bad('hello', 'the id in a Hello is not recorded for the store of that Hello')
            if 'source' not in g or g['source'][0] != j or not (g['source'][1].__class__ is Lin and g['source'][1].const and g['source'][1].c == 0):
                bad('hello', 'the store of a Hello keeps counting as one to synchronize from the other party')
        elif g.get('cmd') == 'Hello' and g.get('out') == 'Welcome':
            bad('hello', 'a Welcome without the contents of the store')


class NextId(P12):
    inner = True


class P13(Sync):
    """Every change is sent once to every other party, and none is overwritten before it was sent."""

    def state(self, st, j, **kw):
        d = dict(st.g.get('j', ()))
        x = dict(d.get(j, ()))
        x.update(kw)
        d[j] = tuple(sorted(x.items()))
        st.g['j'] = tuple(sorted(d.items(), key=str))

    def of(self, st, j):
        return dict(dict(st.g.get('j', ())).get(j, ()))

    def seq_of(self, st, v, j):
        """v is the sequence number kept for journal j."""
        a = self.atom(v)
        k = ATOMS[a].key if a is not None else None
        if not (k and k[0] == 'init' and k[1][0] == 'fld' and k[1][2] == 'seq'):
            return False
        b = k[1][1]
        e = entry(b)
        return e is not None and fields(e[0])[1][-1:] == ['m_store'] and (e[2] == j or e[2].__class__ is Ptr and e[2].base == j.base)

    def event(self, E, st, fr, node, ci):
        t, g = ci.target, st.g
        fid = ci.fid
        if fr.fn.cls == SC and t is not None and ci.obj is not None:
            j = ci.obj
            if fid in self.has:
                if not self.seq_of(st, E.lin(st, ci.args[0]), j):
                    self.bad(E, st, fr, node, 'since', 'changes are not looked for since the last ones that this connection has sent or received')
                else:
                    self.ok()
                s2 = st.copy()
                self.state(st, j, dirty=1, checked=1)
                self.state(s2, j, dirty=0, checked=1)
                return [(st, ONE), (s2, Z)]
            if fid in self.upd:
                if not self.seq_of(st, E.lin(st, ci.args[1]), j):
                    self.bad(E, st, fr, node, 'since', 'changes are not collected since the last ones that this connection has sent or received')
                else:
                    self.ok()
                v = self.result(E, st, fr, node, ci)
                a = self.atom(v)
                self.state(st, j, dirty=2, pend=a)
                return [(st, v)]
            if fid in self.full:
                v = self.result(E, st, fr, node, ci)
                self.state(st, j, pend=self.atom(v))
                return [(st, v)]
            if not t.params and t.d['rt'] == 'unsigned long' and self.of(st, j).get('pend') is not None:
                return [(st, A(self.of(st, j)['pend']))]    # they return the current number
            if fid in self.apply:
                x = self.of(st, j)
                if g.get('cmd') == 'Update':
                    if x.get('dirty'):
                        self.bad(E, st, fr, node, 'flush', 'an update is applied, while changes of our own were not sent first')
                    elif not x.get('checked') and not self.absent(E, st, j):
                        self.bad(E, st, fr, node, 'flush', 'an update is applied without looking for changes of our own that must be sent first')
                    else:
                        self.ok()
                    for p, a in zip(t.params, ci.args):
                        if is_bool(p):
                            o = E.lin(st, a)
                            if x.get('others') is not False and not st.cons.proves(L(1) - o):
                                self.bad(E, st, fr, node, 'record', 'changes in an update are not recorded for the other connections of the store')
                            else:
                                self.ok()
                elif x.get('others') is not False and len(t.params) == 2:
                    self.bad(E, st, fr, node, 'record', 'the contents that are received are not recorded as changes for the other connections of the store')
                v = self.result(E, st, fr, node, ci)
                s2 = st.copy()
                out = []
                for s in E.assume(st, B('eq', v)):
                    out.append((s, Z))
                for s in E.assume(s2, B('ne', v)):
                    self.state(s, j, pend=self.atom(v))
                    out.append((s, v))
                return out
        if fid in self.others and ci.args and ci.args[0].__class__ is Ptr:
            j = ci.args[0]
            mine = len(ci.args) > 1 and ci.args[1].__class__ is Ptr and ci.args[1].base == ('this', SC)
            if not mine:
                return None
            s2 = st.copy()
            self.state(st, j, others=True)
            self.state(s2, j, others=False)
            return [(st, ONE), (s2, Z)]
        if overroot(self.m, fid, self.plenc):
            for j, x in g.get('j', ()):
                x = dict(x)
                if x.get('dirty') == 2:
                    n = E.lin(st, ci.args[1])
                    self.state(st, j, dirty=0)
                    if x.get('pend') is not None:
                        self.bad(E, st, fr, node, 'before', 'an update is sent before it is recorded what was sent')
                    else:
                        self.ok()
        return Sync.event(self, E, st, fr, node, ci)

    def absent(self, E, st, j):
        """The path has found that the connection does not have the store."""
        for i, a in enumerate(ATOMS):
            if a.key and a.key[0] == 'find' and fields(a.key[1])[1][-1:] == ['m_store']:
                for x, e in enumerate(ATOMS):
                    if e.key and e.key[0] == 'end' and e.key[1] == a.key[1] and st.cons.proves_le(A(i) - A(x)) and st.cons.proves_le(A(x) - A(i)):
                        return True
        return False

    def on_store(self, E, st, fr, node, loc, val):
        Sync.on_store(self, E, st, fr, node, loc, val)
        b = loc.base
        if b[0] == 'fld' and b[2] == 'seq' and fr.fn.short != '(ctor)' and fr.fn.cls == SC:
            e = entry(b[1])
            if e is None or fields(e[0])[1][-1:] != ['m_store']:
                return
            a = self.atom(val)
            hit = False
            for j, x in st.g.get('j', ()):
                x = dict(x)
                if a is not None and x.get('pend') == a and e[2].__class__ is Ptr and (e[2] == j or e[2].base == j.base):
                    self.state(st, j, pend=None)
                    hit = True
            if hit:
                self.ok()
            elif not (val.__class__ is Lin and val.const):
                self.bad(E, st, fr, node, 'seq', 'the sequence number kept for a store is not the one of what was just sent or applied')

    def at_exit(self, E, c, f, s, v):
        c.count('exits_checked')
        for j, x in s.g.get('j', ()):
            x = dict(x)
            if x.get('pend') is not None:
                c.finding(f.loc, f.name, 'seq', 'it is not recorded which changes were sent or applied, so they are sent (back) again', '', s.tr)
            if x.get('dirty'):
                c.finding(f.loc, f.name, 'unsent', 'changes were found or collected, but not sent', '', s.tr)


class Others(Rule):
    """Whether another connection synchronizes a store."""
    maxdepth = 4

    def __init__(self, m, f):
        self.f = f
        self.yes = {g.id for g in m.fns.values() if g.cls == SC and g.d['rt'] == 'bool' and [cls_of(p) for p in g.params] == [SJ]}
        self.skip = None
        self.asked = 0

    def pre_call(self, E, st, fr, node, ci):
        if ci.fid in self.yes:
            self.asked += 1
            if self.store is not None and (ci.args[0].__class__ is not Ptr or ci.args[0].base != self.store):
                E.report(fr, node, 'it is asked for another store', st, key='others')
            s2 = st.copy()
            mine = self.skip is not None and ci.obj is not None and ci.obj.base == self.skip
            if not mine:
                st.g['seen'] = 1
            s2.g['end'] = 0
            return [(st, ONE), (s2, Z)]
        return None

    def on_branch(self, E, st, fr, node, formula, taken):
        if formula.__class__ is B and any(ATOMS[a].key and ATOMS[a].key[0] == 'end' for a, _ in formula.lin.t):
            if st.cons.proves(formula.lin) and st.cons.proves(-formula.lin):
                st.g['end'] = 1


def entries(m, R, ctx, fns):
    def job(c, fid):
        f = m.fns[fid]
        reset_atoms()
        r = R(m)
        E = Engine(m, r)
        st, this, args = start(E, f)
        bind_buffer(E, st, f, args)
        r.root = f
        if f.short == 'decode' and args and args[0].__class__ is Ptr:
            r.first = E.load(st, args[0], 'char', 8, False)
        outs = E.exec_fn(f, st, None, ('root',), args, this, this)
        c.count('exit_states', len(outs))
        for s, v in outs:
            r.at_exit(E, c, f, s, v)
        c.count('events', r.nevents)
        c.cover('functions', E.stats['functions'])
        for x in E.reports.values():
            c.finding(x['where'], x['func'], x['key'] or 'rule', x['msg'], x['via'], x['trace'])
    pmap(ctx, job, [f.id for f in fns])


def roots(m):
    """What is called from elsewhere; the other functions are seen as a part of these."""
    fs = [f for f in m.fns.values() if f.cls == SC and f.short not in ('(ctor)', '(dtor)')]
    called = {n.get('fid') for f in fs for n in f.nodes.values() if n.get('k') == 'call' and n.get('fid') != f.id}
    return [f for f in fs if not f.d.get('acc') and not f.d.get('static') or f.id not in called]


def p12(ctx):
    m = model('std', SUNITS)
    P12(m).check(ctx)
    fns = roots(m)
    entries(m, P12, ctx, fns)
    r = P12(m)
    for fid in sorted(r.new):
        f = m.fns[fid]
        reset_atoms()
        r = NextId(m)
        E = Engine(m, r)
        st, this, args = start(E, f)
        outs = E.exec_fn(f, st, None, ('root',), args, this, this)
        ctx.need(outs, 'a path through the selection of an id')
        for s, v in outs:
            ctx.count('id_selections')
            if not s.cons.proves_ne(v):
                ctx.finding(f.loc, f.name, 'zero', 'zero may be given out as an id, but it means that there is none', '', s.tr)
            ks = [(i, a.key) for i, a in enumerate(ATOMS) if a.key and a.key[0] in ('find', 'count') and a.key[2][:1] == (v,)]
            free = False
            for i, k in ks:
                if k[0] == 'count':
                    free = free or s.cons.hi(A(i)) <= 0
                else:
                    for x, a in enumerate(ATOMS):
                        if a.key and a.key[0] == 'end' and a.key[1] == k[1] and s.cons.proves(A(i) - A(x)) and s.cons.proves(A(x) - A(i)):
                            free = True
            if not free:
                ctx.finding(f.loc, f.name, 'inuse', 'an id may be given out that is in use already', '', s.tr)


def p13(ctx):
    m = model('std', SUNITS)
    r = P13(m)
    r.check(ctx)
    entries(m, P13, ctx, roots(m))
    for fid in sorted(r.others):
        f = m.fns[fid]
        reset_atoms()
        q = Others(m, f)
        ctx.need(q.yes, 'the test whether a connection synchronizes a store')
        E = Engine(m, q)
        st, this, args = start(E, f)
        q.store = args[0].base
        q.skip = args[1].base
        lam = any(x['k'] == 'lambda' for x in f.nodes.values())
        n = 0
        for s, v in E.exec_fn(f, st, None, ('root',), args, this, this):
            n += 1
            d = E.decide(s, E.truth(s, v))
            if s.g.get('seen') and d is not True:
                ctx.finding(f.loc, f.name, 'others', 'another connection that synchronizes the store is overlooked', '', s.tr)
            elif d is False and not s.g.get('end') and not lam:
                ctx.finding(f.loc, f.name, 'others', 'not all connections are asked', '', s.tr)
        ctx.count('exit_states', n)
        for x in E.reports.values():
            ctx.finding(x['where'], x['func'], x['key'] or 'rule', x['msg'], x['via'], x['trace'])
        if not q.asked and not lam:
            ctx.finding(f.loc, f.name, 'others', 'the connections are not asked whether they synchronize the store')
