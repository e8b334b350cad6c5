"""Shared pieces of the rules."""
import os
from engine import *
from prepare import REPO
from check import *

PL = 'stored::ProtocolLayer'


def overroot(m, fid, root_ids):
    return bool(fid) and bool(m.overclosure(fid) & root_ids)


def ids(m, cls, short, nparams=None):
    """Ids of the methods called short declared in cls."""
    r = m.records.get(cls)
    out = set()
    if r:
        for x in r['methods']:
            if x['n'] == short and (nparams is None or x.get('np', nparams) == nparams):
                out.add(x['id'])
    for f in m.fns_named(cls + '::' + short):
        if nparams is None or len(f.params) == nparams:
            out.add(f.id)
    return out


def start(E, f, cls=None, bufpairs=True):
    """An initial state for f as an entry point: anything may be in the object."""
    st = E.initial()
    cls = cls or f.cls
    this = None
    if cls:
        this = ('this', cls)
        E.basetype[this] = cls
    args = []
    for p in f.params:
        if p.get('isref'):
            b = ('arg', p['n'])
            E.basetype[b] = unq(p['t'].rstrip('& '))
            args.append(Ptr(b, Z))
        else:
            args.append(E.unknown(st, p['t'], p.get('w'), p.get('u'), p['n']))
    return st, this, args


def bind_buffer(E, st, f, args):
    """(pointer, length) parameters describe a buffer of that many bytes."""
    out = []
    for i in range(len(f.params) - 1):
        t, n = f.params[i], f.params[i + 1]
        if unq(t['t']).endswith('*') and n.get('w') == 64 and n.get('u') and args[i].__class__ is Ptr:
            et = sizeof(unq(t['t'])[:-1]) or 1
            st.env[('ext', args[i].base)] = args[i + 1].scale(et) if et > 1 else args[i + 1]
            st.cons.add_le(args[i + 1] - L(1 << 40))
            out.append((args[i], args[i + 1]))
    return out


def layers(m):
    return sorted(c for c in m.subclasses(PL) if c in m.records)


def own_methods(m, cls, short, n):
    return [f for f in m.fns_named(cls + '::' + short) if len(f.params) == n]


def fdef(f):
    return '%s (%s)' % (f.name, f.loc)
