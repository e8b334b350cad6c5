"""The frame every check runs in: findings, counts, known findings, evidence, exit codes."""
import json, os, sys, time, multiprocessing, traceback, re
from prepare import Broken, VERIF, REPO
from model import Model, rel

_models = {}


def model(cfg='std', units=None):
    k = (cfg, tuple(sorted(units)) if units else None)
    if k not in _models:
        _models[k] = Model(cfg, units)
    return _models[k]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings = []
        self.counts = {}
        self.sets = {}
        self.notes = []
        self.assumptions = []
        self.samples = []
        self.rules = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, text):
        """Names a rule that is applied, in words."""
        if text not in self.rules:
            self.rules.append(text)

    def finding(self, where, func, rule, msg, via='', trace=()):
        f = dict(where=where, func=func, rule=rule, msg=msg, via=via, trace=list(trace))
        k = (where, func, rule, msg)
        if k not in {(x['where'], x['func'], x['rule'], x['msg']) for x in self.findings}:
            self.findings.append(f)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def cover(self, what, items):
        self.sets.setdefault(what, set()).update(items)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, cond, what):
        """Anchors: when they are gone there is nothing to decide."""
        if not cond:
            raise Broken('anchor vanished: ' + what)

    def absorb(self, o):
        for f in o.findings:
            self.finding(**f)
        for k, v in o.counts.items():
            self.count(k, v)
        for k, v in o.sets.items():
            self.cover(k, v)
        for s in o.samples:
            self.sample(s)
        for r in o.rules:
            self.rule(r)
        for a in o.assumptions:
            if a not in self.assumptions:
                self.assumptions.append(a)
        self.notes.extend(n for n in o.notes if n not in self.notes)


_job = None


def _runjob(i):
    fn, items, proto = _job
    c = Ctx(*proto)
    try:
        fn(c, items[i])
        return c, None
    except Broken as e:
        return c, 'broken: %s' % e
    except Exception:
        return c, traceback.format_exc()


def pmap(ctx, fn, items, procs=None):
    """Runs fn(ctx, item) for all items over the cores; collects into ctx."""
    global _job
    items = list(items)
    if not items:
        return
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    _job = (fn, items, (ctx.prop, ctx.tier, ctx.seed))
    if procs == 1 or len(items) == 1:
        rs = [_runjob(i) for i in range(len(items))]
    else:
        with multiprocessing.get_context('fork').Pool(min(procs, len(items))) as p:
            rs = p.map(_runjob, range(len(items)), 1)
    bad = []
    for c, e in rs:
        ctx.absorb(c)
        if e:
            bad.append(e)
    if bad:
        raise Broken('; '.join(bad)[:6000])


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def run(prop, fn, tier, level='other', explanation=''):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        fn(ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        if not ctx.findings:
            return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % prop)
        if not ctx.findings:
            return 2
    kn = [k for k in known() if k['property'] == prop]
    new, old = [], []
    for f in ctx.findings:
        hit = None
        for k in kn:
            if (k['func'] == f['func'] or k['func'] in f['via'].split(' <- ')) and k['rule'] == f['rule'] and k['construct'] in f['msg']:
                hit = k
        (old if hit else new).append((f, hit))
    seen = set()
    for f, k in old:
        if id(k) not in seen:
            seen.add(id(k))
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k['what'], f['where']))
    wall = time.time() - t0
    cov = dict(explanation=explanation or 'static analysis of the current source', rules=ctx.rules, samples=ctx.samples)
    for k, v in ctx.counts.items():
        cov[k] = v
    for k, v in ctx.sets.items():
        cov[k + '_count'] = len(v)
        cov[k] = sorted(v)[:400]
    if ctx.notes:
        cov['notes'] = ctx.notes[:50]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(new))
    if ctx.assumptions:
        ev['assumptions'] = ctx.assumptions
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rp = os.path.join(evd, prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, tier=tier, findings=[x for x, _ in new]), f, indent=1)
        for f, _ in new[:40]:
            print('%s: %s [%s] in %s%s' % (f['where'], f['msg'], f['rule'], f['func'], (' via ' + f['via'][:300]) if f['via'] else ''))
            for t in f['trace'][-12:]:
                print('      path: %s' % (t,))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, VERIF)))
        return 1
    print('OK property=%s tier=%s wall=%.1fs %s' % (prop, tier, wall, ' '.join('%s=%s' % kv for kv in sorted(ctx.counts.items()))))
    return 0
