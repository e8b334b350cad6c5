"""What the debugger answers: one complete response per request."""
from common import *
from frames import None_fr

DBG = 'stored::Debugger'
NACK, ACK = ord('?'), ord('!')
CFGS = {'std': ['debugger', 'protocol', 'd_store'], 'alt': ['debugger', 'protocol', 'd_store']}


def is_layer(m, t):
    t = unq(t.rstrip('& ').rstrip('* '))
    t = t.replace('const ', '')
    return t in m.records and PL in m.mro(t)


class Responses(Rule):
    """Counts the ends of the response frame and looks for data before a refusal."""
    maxdepth = 12
    K = 80

    def __init__(self, m, root):
        self.m, self.root, self.resp = m, root, None
        self.enc = ids(m, PL, 'encode')
        self.process = ids(m, DBG, 'process')
        self.calls = set()
        self.mergers = set()
        self.accepted = {}
        self.nested = 0

    first = None

    def on_branch(self, E, st, fr, node, formula, taken):
        # keep the commands apart
        if self.first is not None and 'cmd' not in st.g:
            lo, hi = st.cons.rng(self.first)
            if lo is not None and lo == hi:
                st.g['cmd'] = lo

    def dyn_type(self, E, st, base):
        return DBG if base == ('this', DBG) else None

    def inline(self, E, st, fr, ci):
        t = ci.target
        if t is None:
            return None
        if t.id in self.process and t.id != self.root.id and fr.fn.cls != DBG:
            return None
        if any(is_layer(self.m, p['t']) for p in t.params if p['t'].rstrip().endswith(('&', '*'))):
            return None
        if t.cls and is_layer(self.m, t.cls) and t.cls != DBG:
            return None
        if t.cls == DBG and t.short in ('decode',):
            return None
        return False

    def pre_call(self, E, st, fr, node, ci):
        if ci.fid in self.process and self.depth_of(fr, ci.fid):
            # a command of a macro: it answers with any number of chunks and one end of frame
            r = next((a for a, p in zip(ci.args, (ci.target or self.m.fns[ci.fid]).params) if is_layer(self.m, p['t'])), None)
            self.nested += 1
            if r is None or r.base == self.resp:
                self.end(E, st, fr, node, 'a nested command answers directly in the frame of the macro')
            else:
                ty = E.basetype.get(r.base)
                self.mergers.add(unq(ty) if ty else '?')
                st.g['data'] = 1
            return [(st, Z)]
        if ci.short != 'encode' or len(ci.args) != 3 or not overroot(self.m, ci.fid, self.enc):
            return None
        if ci.obj is None or ci.obj.base != self.resp or not (ci.virt and ci.target is None or ci.cls == PL):
            return None
        if ci.cls == PL and not ci.virt and self.resp[0] != 'this':
            return None
        self.calls.add((relf(fr.fn.file), node.get('l')))
        res = []
        lastf = E.truth(st, ci.args[2])
        d = E.decide(st, lastf)
        if d is None:
            s2 = st.copy()
            outs = [(s, True) for s in E.assume(s2, lastf, True)] + [(s, False) for s in E.assume(st, lastf, False)]
        else:
            outs = [(st, d)]
        for s, last in outs:
            if s.g.get('ended'):
                E.report(fr, node, 'something is sent after the response was ended', s, key='after')
            p, n = ci.args[0], E.lin(s, ci.args[1])
            one = n.const and n.c == 1
            v = E.load(s, p, 'char', 8, False) if one and p.__class__ is Ptr and p.base[0] == 'loc' else None
            if last and v.__class__ is Lin and v.const and v.c in (ACK, NACK) and s.g.get('data'):
                E.report(fr, node, "the status '%c' follows data that was already sent in this response" % v.c, s, key='partial')
            if last:
                nack = v.__class__ is Lin and v.const and v.c == NACK
                if not nack and 'cmd' in s.g:
                    self.accepted.setdefault(s.g['cmd'], (relf(fr.fn.file), node.get('l')))
                s.g['ended'] = 1
            elif not (n.const and n.c == 0):
                s.g['data'] = 1
            res.append((s, Z))
        return res

    def end(self, E, st, fr, node, msg):
        if st.g.get('ended'):
            E.report(fr, node, msg, st, key='nested')
        st.g['ended'] = 1

    def depth_of(self, fr, fid):
        while fr is not None:
            if fr.fn.id == fid:
                return True
            fr = fr.parent
        return False


class NeverEnds(Rule):
    """A helper that only contributes to a frame."""
    maxdepth = 8

    def __init__(self, m):
        self.enc = ids(m, PL, 'encode')
        self.n = 0

    def pre_call(self, E, st, fr, node, ci):
        if ci.short != 'encode' or not overroot(E.m, ci.fid, self.enc):
            return None
        if len(ci.args) == 3 and (ci.virt and ci.target is None or ci.cls == PL):
            self.n += 1
            if E.decide(st, E.truth(st, ci.args[2])) is not False:
                E.report(fr, node, 'may end the response, which only the command that it is part of may do', st, key='ends')
            return [(st, Z)]
        return None


def layer_calls(m, f):
    enc = ids(m, PL, 'encode')
    return any(n.get('k') == 'call' and n.get('fid') and overroot(m, n['fid'], enc) for n in f.nodes.values())


def run_process(ctx, cfg, f):
    m = model(cfg, CFGS[cfg])
    reset_atoms()
    r = Responses(m, f)
    E = Engine(m, r)
    st, this, args = start(E, f)
    bind_buffer(E, st, f, args)
    ri = next((i for i, p in enumerate(f.params) if is_layer(m, p['t'])), None)
    r.resp = args[ri].base if ri is not None else this
    for a, p in zip(args, f.params):
        if p['t'] == 'unsigned long' and a.__class__ is Lin:
            st.cons.add_le(L(1) - a)
        elif p['t'].endswith('*') and a.__class__ is Ptr and a.base[0] == 'sym':
            st.cons.add_le(L(1) - A(a.base[1]))
            if r.first is None:
                r.first = E.load(st, Ptr(a.base, Z), 'char', 8, False)
                st.env[E.lkey(Ptr(a.base, Z))] = r.first
    outs = E.exec_fn(f, st, None, ('root',), args, this, this)
    for s, v in outs:
        ctx.count('exit_states')
        if not s.g.get('ended'):
            E.report(None_fr(f), None, 'no response is sent on some path', s, key='unended')
    return r, E


def dbg_fn(ctx, m, short):
    fs = [f for f in m.fns_named(DBG + '::' + short)]
    ctx.need(len(fs) == 1, DBG + '::' + short)
    return fs[0]


def p09(ctx):
    ctx.rule('every path of a request of one byte or more passes exactly one end of frame to the response layer, nothing follows it, '
             'and a refusal is never preceded by data of the same response')
    ctx.rule('what contributes to a response without owning it (macro merging, list items) never ends the frame')

    def job(c, j):
        cfg, short = j
        m = model(cfg, CFGS[cfg])
        f = dbg_fn(c, m, short)
        r, E = run_process(c, cfg, f)
        add_reports(c, 'response', E)
        c.need(len(r.calls) >= 8, 'calls that send the response')
        for x in r.calls:
            c.cover('response_calls', ['%s:%s' % x])
        c.cover('functions', [fdef(m.fns[i]) for i in E.stats['functions'] if i in m.fns])
        c.need(r.nested, 'execution of the commands of a macro')
        c.need('?' not in r.mergers, 'type of the layer that merges the responses of a macro')
        todo = {f.id for f in m.fns.values() if f.cls in r.mergers and f.short == 'encode'}
        for f in m.fns.values():
            if re.search(r'/debugger\.(cpp|h)$', f.file or '') and layer_calls(m, f) and f.id not in E.stats['functions'] and \
                    not (f.cls and f.cls.startswith(('stored::Stream', DBG))):
                todo.add(f.id)
        for i in sorted(todo):
            f = m.fns[i]
            reset_atoms()
            n = NeverEnds(m)
            E = Engine(m, n)
            st, this, args = start(E, f)
            E.exec_fn(f, st, None, ('root',), args, this, this)
            add_reports(c, 'response', E)
            c.count('contributing_calls', n.n)
            c.cover('functions', [fdef(f)])
        c.need(len(todo) >= 2, 'helpers that contribute to responses')
    pmap(ctx, job, [(c, s) for c in sorted(CFGS) for s in ('process', 'decode')])


def add_reports(ctx, rule, E):
    for x in E.reports.values():
        ctx.finding(x['where'], x['func'], rule, x['msg'], x['via'], x['trace'])


class Caps(Rule):
    """Characters that are put in the list of capabilities."""
    maxdepth = 4
    K = 40

    def __init__(self):
        self.chars = {}

    def inline(self, E, st, fr, ci):
        return None if ci.cls == DBG else False

    def on_store(self, E, st, fr, node, loc, val):
        if val.__class__ is Lin and val.const and 0 < val.c < 128 and node and node.get('w') == 8 and not node.get('u'):
            self.chars.setdefault(val.c, (relf(fr.fn.file), node.get('l')))


def refs(f, n, q):
    if n.get('k') == 'ref' and n.get('q') == q:
        return True
    return any(refs(f, f.nodes[c], q) for c in n.get('c', ()) if c in f.nodes)


class Toggled:
    """The model with another value of one configuration constant."""

    def __init__(self, m, q, val):
        self.m, self.q, self.val, self.old = m, q, val, []

    def __enter__(self):
        for f in self.m.fns.values() if self.q else ():
            if not re.search(r'/debugger\.(cpp|h)$', f.file or ''):
                continue
            for n in f.nodes.values():
                if n.get('k') == 'ref' and n.get('q') == self.q or 'v' in n and n.get('k') != 'ref' and refs(f, n, self.q):
                    self.old.append((n, dict(n)))
                    n.pop('v', None)
                    if n['k'] == 'ref' or n['k'] == 'cast' and f.nodes[n['c'][0]].get('k') == 'ref':
                        n['v'] = self.val
        return self

    def __exit__(self, *a):
        for n, o in self.old:
            n.clear()
            n.update(o)


def p10(ctx):
    ctx.rule('the characters put in the capability list are exactly the commands that some path of the request handler answers without refusal, '
             'for both analysed configurations and for each of them with every debugger option switched on and off')
    jobs = []
    for cfg in sorted(CFGS):
        m = model(cfg, CFGS[cfg])
        qs = set()
        for s in ('process', 'capabilities'):
            f = dbg_fn(ctx, m, s)
            qs |= {n['q'] for n in f.nodes.values() if n.get('k') == 'ref' and re.search(r'Config::(Debugger(?!StreamBuffer)|CompressStreams)', n.get('q') or '')}
        ctx.need(len(qs) >= 10, 'configuration options of the debugger')
        jobs += [(cfg, None, 0)] + [(cfg, q, v) for q in sorted(qs) for v in (0, 1)]

    def job(c, j):
        cfg, q, val = j
        m = model(cfg, CFGS[cfg])
        with Toggled(m, q, val):
            if q:
                c.count('toggled_nodes', 1)
            r, E = run_process(c, cfg, dbg_fn(c, m, 'process'))
            f = dbg_fn(c, m, 'capabilities')
            reset_atoms()
            k = Caps()
            E2 = Engine(m, k)
            st, this, args = start(E2, f)
            E2.exec_fn(f, st, None, ('root',), args, this, this)
        acc = {x: w for x, w in r.accepted.items() if x != 0}
        how = '' if not q else ' (%s=%d)' % (q.split('::')[-1], val)
        c.count('configurations')
        c.count('commands', len(acc))
        c.need(len(acc) >= 8 and len(k.chars) >= 8, 'commands and capabilities %s %r %r' % (how, sorted(acc), sorted(k.chars)))
        for x in sorted(set(acc) | set(k.chars)):
            if x not in k.chars:
                c.finding('%s:%s' % acc[x], DBG + '::capabilities', 'capabilities',
                          "command '%c' is answered, but is not listed as a capability%s" % (x, how))
            elif x not in acc:
                c.finding('%s:%s' % k.chars[x], DBG + '::process', 'capabilities',
                          "capability '%c' is listed, but every such request is refused%s" % (x, how))
    pmap(ctx, job, jobs)
