"""Which fields are only set by constructors."""
from common import *

KEEPS = ('LValueToRValue', 'ArrayToPointerDecay')


def ctor_only(m, cls, names):
    """Those of the fields that no function but the constructor assigns or hands out by reference."""
    out = set(names)
    for f in m.fns.values():
        if f.short in ('(ctor)', '(dtor)'):
            continue
        mem = {n['i']: n['n'] for n in f.nodes.values() if n.get('k') == 'mem' and n.get('n') in out and n.get('cls') == cls and n.get('lv')}
        if not mem:
            continue
        good = set()
        for n in f.nodes.values():
            if n.get('k') == 'cast' and (n.get('ck') in KEEPS or n.get('t', '').startswith('const ')):
                good.update(n.get('c', ()))
            elif n.get('k') in ('call', 'mem') and n.get('cm') and n.get('obj') in mem:
                good.add(n['obj'])
        for i, x in mem.items():
            if i not in good:
                out.discard(x)
    return out
