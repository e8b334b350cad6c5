"""The program model of one configuration: functions, records, enums of all its units."""
import json, os, glob, re
from prepare import prepare, Broken, REPO, VERIF


class Fn:
    __slots__ = ('d', 'name', 'id', 'short', 'file', 'line', 'cls', 'params', 'entry', 'exit', 'blocks', 'nodes', 'refs',
                 'order', 'heads', 'body', 'unit', 'declnames', 'preds', 'rpo', '_live', '_arms')

    def __init__(self, d, unit):
        self.d = d
        self.unit = unit
        self.name, self.id, self.short = d['name'], d['id'], d['short']
        self.file, self.line, self.cls = d['file'], d['line'], d.get('cls')
        self.params = d['params']
        self.entry, self.exit = d['entry'], d['exit']
        self.blocks = {b['b']: b for b in d['blocks']}
        self.nodes = {n['i']: n for n in d['nodes']}
        self.refs = {p['d'] for p in self.params if p.get('isref')}
        self.declnames = {p['d']: p['n'] for p in self.params}
        for n in self.nodes.values():
            if n.get('u') and n.get('w') and n.get('v').__class__ is int and n['v'] < 0:
                n['v'] += 1 << n['w']       # the extractor writes 64 bit values as signed
            if n['k'] == 'decl':
                for v in n['vars']:
                    self.declnames[v['d']] = v['n']
                    if v.get('isref'):
                        self.refs.add(v['d'])
        self.heads = None
        self._live = None
        self._arms = None

    def arms(self):
        """Operands of the && and || and arms of the ?: whose values are used: whether they are evaluated matters."""
        if self._arms is None:
            r = set()
            for b in self.blocks.values():
                for e in b['e']:
                    n = self.nodes.get(e, {}) if e.__class__ is int else {}
                    todo = [n] if n.get('k') == 'log' else []
                    if n.get('k') == 'cond':
                        r.update(n['c'][1:])
                    while todo:
                        x = todo.pop()
                        r.update(x['c'])
                        todo.extend(y for y in (self.nodes.get(c, {}) for c in x['c']) if y.get('k') == 'log')
            self._arms = frozenset(r)
        return self._arms

    def dead(self, b):
        """Locals declared in the function that cannot be used from the start of block b."""
        if self._live is None:
            self.flow()
            use, kill, alldecl, reg = {}, {}, set(), set()
            lam = set()
            for n in self.nodes.values():
                if n['k'] == 'decl':
                    alldecl |= {v['d'] for v in n['vars']}
                    # what a reference or pointer may lead to stays alive
                elif n['k'] == 'lambda':
                    lam |= {c['d'] for c in n['cap'] if 'd' in c}
            byd = {}
            for n in self.nodes.values():
                if n['k'] == 'un' and n['op'] == '&':
                    c = self.nodes.get(n['c'][0], {})
                    while c.get('k') in ('mem', 'idx', 'cast') and c.get('c'):
                        c = self.nodes.get(c['c'][0], {})
                    if c.get('k') == 'ref' and 'd' in c:
                        lam.add(c['d'])
            for n in self.nodes.values():
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if v.get('isref') and 'init' in v:
                            todo = [v['init']]
                            while todo:
                                c = self.nodes.get(todo.pop(), {})
                                if c.get('k') == 'ref' and 'd' in c:
                                    lam.add(c['d'])
                                todo.extend(c.get('c') or ())
                                if 'obj' in c:
                                    todo.append(c['obj'])
            for b_ in self.rpo:
                u, k = set(), set()
                for e in self.blocks[b_]['e']:
                    n = self.nodes.get(e) if not isinstance(e, dict) else None
                    if isinstance(e, dict):
                        if 'd' in e and e['d'] not in k:
                            u.add(e['d'])
                        continue
                    if n is None:
                        continue
                    self._uses(n, u, k, set())
                    if n['k'] == 'decl':
                        k |= {v['d'] for v in n['vars']}
                tc = self.blocks[b_].get('tc')
                if tc and tc in self.nodes:
                    self._uses(self.nodes[tc], u, k, set())
                use[b_], kill[b_] = u, k
            live = {b_: set() for b_ in self.rpo}
            ch = True
            while ch:
                ch = False
                for b_ in reversed(self.rpo):
                    o = set()
                    for s_ in self.succs(b_):
                        o |= live.get(s_, set())
                    i = use[b_] | (o - kill[b_])
                    if i != live[b_]:
                        live[b_] = i
                        ch = True
            self._live = {b_: frozenset(alldecl - live[b_] - lam) for b_ in self.rpo}
        return self._live.get(b, frozenset())

    def _uses(self, n, u, k, seen):
        if n['i'] in seen:
            return
        seen.add(n['i'])
        if n['k'] == 'ref' and 'd' in n and n['d'] not in k:
            u.add(n['d'])
        for key in ('c', 'pl'):
            for c in n.get(key) or ():
                if c in self.nodes:
                    self._uses(self.nodes[c], u, k, seen)
        for key in ('obj', 'fe', 'asz'):
            c = n.get(key)
            if c in self.nodes:
                self._uses(self.nodes[c], u, k, seen)
        if n['k'] == 'lambda':
            for c in n['cap']:
                if 'd' in c and c['d'] not in k:
                    u.add(c['d'])
        if n['k'] == 'decl':
            for v in n['vars']:
                if v.get('init') in self.nodes:
                    self._uses(self.nodes[v['init']], u, k, seen)

    def __repr__(self):
        return '<Fn %s>' % self.name

    @property
    def loc(self):
        return '%s:%d' % (rel(self.file), self.line)

    def succs(self, b):
        blk = self.blocks[b]
        ss = blk['s']
        if blk.get('tk') == 'DoStmt' and len(ss) == 2 and self.nodes.get(blk.get('tc'), {}).get('v') in (0, False) and 'v' in self.nodes[blk['tc']]:
            ss = ss[1:]     # do ... while(0) is no loop
        return [(-s - 1) if s < 0 else s for s in ss if s is not None]

    def flow(self):
        """Reverse post order, loop heads (targets of back edges) and the natural loop bodies."""
        if self.heads is not None:
            return
        seen, post, onstack = set(), [], set()
        back = []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        onstack.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in self.blocks:
                    continue
                if s in onstack:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                post.append(b)
        self.rpo = list(reversed(post))
        self.order = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {}
        for b in seen:
            for s in self.succs(b):
                self.preds.setdefault(s, set()).add(b)
        self.heads = {}
        for u, h in back:
            body = self.heads.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(p for p in self.preds.get(x, ()) if p in seen)


def rel(f):
    if f.startswith(REPO + '/'):
        return f[len(REPO) + 1:]
    m = re.search(r'/genb?/(include|src)/VStore\.(h|cpp)$', f)
    if m:
        return 'generated ' + m.group(1) + '/VStore.' + m.group(2)
    return f


SCALARS = {x + y for x in ('', 'unsigned ') for y in ('char', 'short', 'int', 'long', 'long long')} | {'bool', 'signed char', 'float', 'double'}


class Model:
    _alias = None

    def __init__(self, cfg='std', units=None):
        self.work = prepare()
        self.cfg = cfg
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.byname = {}
        files = sorted(glob.glob(os.path.join(self.work, 'model', cfg + '_*.json')))
        if not files:
            raise Broken('no models for configuration ' + cfg)
        self.units = []
        for fn in files:
            unit = os.path.basename(fn)[len(cfg) + 1:-5]
            if units and unit not in units:
                continue
            self.units.append(unit)
            with open(fn) as f:
                d = json.loads(f.read().replace("*__restrict", "*").replace("* __restrict", "*"))
            for r in d['records']:
                o = self.records.get(r['name'])
                if o is None or len(o['methods']) < len(r['methods']):
                    self.records[r['name']] = r
            for e in d['enums']:
                self.enums[e['name']] = e
            for v in d['vars']:
                if v['name'] not in self.vars or 'v' in v:
                    self.vars[v['name']] = v
            for f in d['functions']:
                if f['id'] not in self.fns:
                    x = Fn(f, unit)
                    if 'lambda@' in x.name:
                        x.d['uid'] = unit
                    self.fns[x.id] = x
                    self.byname.setdefault(x.name, []).append(x)
        self.vt = {}
        self.overmap = {}
        for r in self.records.values():
            for m in r['methods']:
                if 'over' in m:
                    self.overmap[m['id']] = m['over']
        for f in self.fns.values():
            if 'over' in f.d:
                self.overmap.setdefault(f.id, f.d['over'])
        self._overclosure = {}

    def nodecount(self):
        return sum(len(f.nodes) for f in self.fns.values())

    def fn(self, name, n=0, file=None):
        l = [f for f in self.byname.get(name, []) if not file or f.file.endswith(file)]
        if not l:
            raise Broken('anchor vanished: no function %s in configuration %s' % (name, self.cfg))
        return l[n]

    def fns_named(self, name):
        return self.byname.get(name, [])

    def record(self, name):
        if name not in self.records:
            raise Broken('anchor vanished: no class %s in configuration %s' % (name, self.cfg))
        return self.records[name]

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo.extend(r['bases'])
        return out

    def isa(self, cls, base):
        return base in self.mro(cls)

    def subclasses(self, base):
        return [r for r in self.records if base in self.mro(r)]

    def overclosure(self, mid):
        c = self._overclosure.get(mid)
        if c is None:
            c = {mid}
            for o in self.overmap.get(mid, ()):
                c |= self.overclosure(o)
            self._overclosure[mid] = c
        return c

    def resolve(self, fid, dyn):
        """The method a virtual call of fid on an object of exactly class dyn reaches."""
        k = (fid, dyn)
        if k not in self.vt:
            res = None
            for c in self.mro(dyn):
                r = self.records.get(c)
                if not r:
                    continue
                for m in r['methods']:
                    if fid in self.overclosure(m['id']) and not m.get('pure'):
                        res = m['id']
                        break
                if res:
                    break
            self.vt[k] = res
        return self.vt[k]

    def method(self, cls, short):
        """The effective method(s) called short of class cls."""
        for c in self.mro(cls):
            l = [f for f in self.byname.get(c + '::' + short, [])]
            if l:
                return l
        return []

    def alias(self, cls, field):
        """The members of an anonymous union of scalars are one location: the name of that."""
        if self._alias is None:
            self._alias = {}
            for c, r in self.records.items():
                if '::(anonymous union at ' in c and r['fields'] and all(x['t'].endswith('*') or x['t'] in SCALARS for x in r['fields']):
                    o = c[:c.index('::(anonymous union at ')]
                    for x in r['fields']:
                        self._alias[(o, x['n'])] = self._alias[(c, x['n'])] = r['fields'][0]['n']
        return self._alias.get((cls, field), field)

    def fields(self, cls):
        """All fields, with declaring class, bases included."""
        out = []
        for c in self.mro(cls):
            r = self.records.get(c)
            if r:
                out.extend((c, f) for f in r['fields'])
        return out

    def field(self, cls, name):
        for c, f in self.fields(cls):
            if f['n'] == name:
                return f
        return None
