"""A flow-, context- and value-sensitive abstract interpreter over the program model.

Abstract state: an environment of symbolic memory locations to linear terms,
a relational numeric domain over them (lin.Cons), and the automaton states of
the rule under check. States are joined at loop heads (with widening) and
beyond a disjunct bound elsewhere. Calls to functions of the model are
interpreted in context; calls leaving the model have conservative effects.
"""
from collections import namedtuple
from functools import lru_cache
from lin import Lin, L, A, INF, ATOMS, new_atom, key_atom, Cons, reset_atoms, norm_le, comb, ATOMKEY
from prepare import Broken
import re, sys

sys.setrecursionlimit(100000)

Ptr = namedtuple('Ptr', 'base off')
B = namedtuple('B', 'op lin')          # lin <= 0, lin == 0, lin != 0
BAnd = namedtuple('BAnd', 'a b')
BOr = namedtuple('BOr', 'a b')
Lam = namedtuple('Lam', 'fid caps this')
FnRef = namedtuple('FnRef', 'fid name')
Z = L(0)
ONE = L(1)
TRUE = B('le', L(-1))
FALSE = B('le', L(1))
NULLB = ('null',)
NULL = Ptr(NULLB, Z)
NOCONS = Cons()
CallInfo = namedtuple('CallInfo', 'fn short cls fid obj args node target virt objtype')


@lru_cache(maxsize=None)
def chain(key):
    out = [key]
    while key[0] in ('fld', 'elem', 'buf'):
        key = key[1]
        out.append(key)
    return tuple(out)


def root(key):
    return chain(key)[-1]


def negate(f):
    if f.__class__ is B:
        if f.op == 'le':
            return B('le', L(1) - f.lin)
        return B('ne' if f.op == 'eq' else 'eq', f.lin)
    if f.__class__ is BAnd:
        return BOr(negate(f.a), negate(f.b))
    return BAnd(negate(f.a), negate(f.b))


def is_float(t):
    return t in ('float', 'double', 'long double', 'const float', 'const double')


def unq(t):
    t = t.strip()
    for q in ('const ', 'volatile '):
        if t.startswith(q):
            t = t[len(q):]
    return t


SIZES = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
         'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8}


def sizeof(t):
    t = unq(t)
    if t.endswith('*'):
        return 8
    return SIZES.get(t)


def short_of(fn):
    d = 0
    for i in range(len(fn) - 1, 0, -1):
        c = fn[i]
        if c == '>' and not fn.endswith(('operator>', 'operator>=', 'operator->', 'operator>>', 'operator->*')):
            d += 1
        elif c == '<' and d:
            d -= 1
        elif c == ':' and fn[i - 1] == ':' and d == 0:
            return fn[i + 1:], fn[:i - 1]
    return fn, ''


@lru_cache(maxsize=None)
def split_name(fn):
    m = re.search(r'::(operator.{1,3}|\(ctor\)|\(dtor\))$', fn)
    if m:
        return m.group(1), fn[:m.start()]
    # conversion operators
    m = re.search(r'::(operator [^:].*)$', fn)
    if m:
        return m.group(1), fn[:m.start()]
    return short_of(fn)


CONT = re.compile(r'^(const )?std::(basic_string|vector|deque|list|map|set|unordered_map|unordered_multimap|multimap|array|'
                  r'_Vector_base|initializer_list|basic_string_view)<')
ITER = re.compile(r'(_iterator<|__normal_iterator<|_Node_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_Deque_iterator|_List_iterator|_List_const_iterator|_Node_const_iterator|_Local_iterator|_Local_const_iterator)')


@lru_cache(maxsize=None)
def kind(t):
    """Container kind of a type, or None."""
    m = CONT.match(t)
    return m.group(2) if m else None


@lru_cache(maxsize=None)
def is_iter(t):
    t = unq(t)
    return bool(re.match(r'(std::|__gnu_cxx::)', t)) and bool(ITER.search(t.split('<', 1)[0] + '<'))


@lru_cache(maxsize=None)
def targ0(t):
    """First template argument of a type."""
    i = t.find('<')
    if i < 0:
        return None
    d = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
            if d == 0:
                return t[i + 1:j].strip()
        elif t[j] == ',' and d == 1:
            return t[i + 1:j].strip()
    return None


@lru_cache(maxsize=None)
def targs(t):
    i = t.find('<')
    if i < 0:
        return []
    d, out, cur = 0, [], ''
    for ch in t[i:]:
        if ch == '<':
            d += 1
            if d == 1:
                continue
        elif ch == '>':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


class St:
    __slots__ = ('env', 'cons', 'nv', 'g', 'ep', 'tr', 'stack')

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.cons = self.cons.copy()
        s.nv = dict(self.nv)
        s.g = dict(self.g)
        s.ep = dict(self.ep)
        s.tr = self.tr
        s.stack = self.stack
        return s

    def key(self):
        return (frozenset(self.env.items()), self.cons.key(), frozenset(self.g.items()), frozenset(self.ep.items()))


class Fr:
    __slots__ = ('fn', 'id', 'this', 'depth', 'dyn', 'caps', 'parent', 'node', 'visits', 'b')


class Rule:
    """Base of the rules: what to look at while the interpreter runs."""
    strong = False      # prove loop invariants with more effort
    const_fields = ()   # fields that only constructors set
    maxdepth = 10
    K = 10
    unroll = 0          # iterations that are kept apart before loops are joined
    name = '?'
    ranges = None       # field of the object -> range, an invariant proved elsewhere

    def pre_call(self, E, st, fr, node, ci):
        return None

    def post_call(self, E, st, fr, node, ci, val):
        pass

    def on_store(self, E, st, fr, node, loc, val):
        pass

    def on_load(self, E, st, fr, node, loc, val):
        pass

    def on_access(self, E, st, fr, node, ptr, nbytes, write, what):
        pass

    def on_branch(self, E, st, fr, node, formula, taken):
        pass

    def on_new(self, E, st, fr, node, ptr):
        pass

    def on_delete(self, E, st, fr, node, ptr):
        pass

    def on_dtor(self, E, st, fr, el, base):
        pass

    def on_throw(self, E, st, fr, node):
        pass

    def inline(self, E, st, fr, ci):
        return None

    def at_head(self, E, st, fr, b, body):
        """Before the states at a loop head are joined; returns the states."""
        return None

    def past_head(self, E, st, fr, b):
        """After the states at a loop head are joined; returns the states."""
        return None

    def opaque_havoc(self, E, st, fr, ci):
        """Bases to havoc in addition for a call out of the model."""
        return ()

    def dyn_type(self, E, st, base):
        return None

    def extent(self, E, st, base):
        return None

    def gkey(self, st):
        return None

    def roots(self, st):
        return ()

    def absent(self, E, st, base, key):
        """Is the key known not to be in the map?"""
        return False

    def templates(self, E, env):
        """Inequalities (lin <= 0) worth keeping at joins."""
        return ()


class Engine:
    def __init__(self, model, rule):
        self.m = model
        self.rule = rule
        self.reports = {}
        self.frames = {}
        self.keytype = {}
        self.basetype = {}
        self.ext = {}
        self.arms = ()
        self.stats = {'functions': set(), 'calls': 0, 'opaque': 0, 'states': 0, 'joins': 0, 'blocks': 0}
        self.active = []
        self.opaque_names = {}
        self.budget = 2000000
        self.debug = 0

    # ------------------------------------------------------------ reports
    def report(self, fr, node, msg, st=None, key=None):
        fn = fr.fn if fr else None
        line = node['l'] if node and 'l' in node else (fn.line if fn else 0)
        where = '%s:%d' % (relf(fn.file), line) if fn else '?'
        ctx = []
        f = fr
        while f is not None:
            ctx.append(f.fn.name)
            f = f.parent
        k = (where, key or msg)
        if k not in self.reports:
            self.reports[k] = dict(key=key, where=where, func=fn.name if fn else '?', msg=msg, via=' <- '.join(ctx),
                                   trace=list(st.tr) if st is not None and st.tr else [])

    # ------------------------------------------------------------ state
    def initial(self):
        s = St()
        s.env = {}
        s.cons = Cons()
        s.nv = {}
        s.g = {}
        s.ep = {}
        s.tr = ()
        s.stack = ()
        return s

    def fresh(self, name, t=None, w=None, u=None, lo=None, hi=None):
        if lo is None:
            lo, hi = self.range(t, w, u)
        return A(new_atom(name, lo, hi))

    def range(self, t, w, u):
        if t is not None and unq(t.rstrip('& ')) == 'bool':
            return 0, 1
        if w:
            return (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return -INF, INF

    def keyed(self, key, name, t=None, w=None, u=None):
        lo, hi = self.range(t, w, u)
        a = key_atom(key, name, lo, hi)
        return A(a)

    def rawrange(self, fr, n, fn):
        """Size of the elements that a call of an algorithm handles, when it works on plain pointers to bytes."""
        k = 2 if fn == 'std::copy_n' else 0
        t = fr.fn.nodes.get(n['c'][k], {}).get('t', '')
        t = unq(t.rstrip('& '))
        return 1 if t in ('char *', 'unsigned char *', 'const char *', 'const unsigned char *', 'uint8_t *', 'signed char *', 'const uint8_t *') else None

    def fresh_val(self, st, fr, node, name):
        """An unknown value of the node's type."""
        t = node.get('t', '')
        if node.get('lv'):
            p = Ptr(('sym', new_atom(name)), Z)
            st.cons.add_ne(A(p.base[1]))
            self.basetype[p.base] = t
            return p
        return self.unknown(st, t, node.get('w'), node.get('u'), name, ('tmp', fr.id, node['i']))

    def unknown(self, st, t, w, u, name, tmp=None):
        ut = unq(t)
        if ut.endswith('*') or is_iter(t):
            b = ('sym', new_atom(name))
            self.basetype[b] = unq(ut[:-1]) if ut.endswith('*') else None
            return Ptr(b, Z)
        if w or ut == 'bool':
            return self.fresh(name, t, w, u)
        if is_float(ut) or ut in ('void', ''):
            return self.fresh(name)
        if ut.endswith('&'):
            b = ('sym', new_atom(name))
            st.cons.add_ne(A(b[1]))
            self.basetype[b] = unq(ut.rstrip('& '))
            return Ptr(b, Z)
        if tmp is None:
            tmp = ('tmp', 0, new_atom(name))
        self.havoc(st, tmp)
        self.basetype[tmp] = ut
        return Ptr(tmp, Z)

    # ------------------------------------------------------------ memory
    def lkey(self, loc):
        if loc.off == Z:
            return loc.base
        return ('elem', loc.base, loc.off)

    def token(self, st, key):
        ep = st.ep
        if key[0] == 'fld' and key[2] in self.rule.const_fields:
            return ()
        if not ep:
            return ()
        t = tuple((b, ep[b]) for b in chain(key) if b in ep)
        if key[0] == 'fld':
            k = ('F', key[2])
            if k in ep and root(key)[0] == 'sym':
                t += ((k, ep[k]),)
        elif root(key)[0] == 'sym' and 'S' in ep:
            t += (('S', ep['S']),)
        return t

    def const_value(self, key, t):
        """The value of a constant, or of an element of a constant table."""
        b, o = (key[1], key[2]) if key[0] == 'elem' else (key, Z)
        if b[0] != 'g' or not o.const:
            return None
        d = self.m.vars.get(b[1])
        v = d.get('v') if d else None
        if v.__class__ is list:
            es = sizeof(t) or sizeof(re.sub(r'\s*\[.*', '', d.get('t', '')))
            if not es or o.c % es or not 0 <= o.c // es < len(v):
                return None
            v = v[o.c // es]
        elif o.c:
            return None
        return v if v.__class__ is int else None

    def init_value(self, st, key, t=None, w=None, u=None):
        if t is None:
            t, w, u = self.keytype.get(key, ('', None, None))
        else:
            self.keytype.setdefault(key, (t, w, u))
        c = self.const_value(key, t)
        if c is not None:
            return L(c)
        tok = self.token(st, key)
        ut = unq(t)
        nm = keyname(key)
        if ut.endswith('*') or is_iter(t):
            a = key_atom(('init', key, tok), nm)
            b = ('sym', a)
            if ut.endswith('*'):
                self.basetype.setdefault(b, unq(ut[:-1]))
            return Ptr(b, Z)
        if ut.endswith('&'):
            a = key_atom(('init', key, tok), nm)
            b = ('sym', a)
            self.basetype.setdefault(b, unq(ut.rstrip('& ')))
            return Ptr(b, Z)
        lo, hi = self.range(t, w, u)
        if key[0] == 'fld':
            if key[2] == '#size':
                lo, hi = 0, 1 << 60
            if self.rule.ranges:
                r = self.rule.ranges.get(key[2])
                if r and key[1][0] == 'this':
                    lo, hi = r
        return A(key_atom(('init', key, tok), nm, lo, hi))

    def load(self, st, loc, t=None, w=None, u=None):
        key = self.lkey(loc)
        v = st.env.get(key)
        if v is not None:
            return v
        return self.init_value(st, key, t, w, u)

    def kill(self, st, pred):
        for k in [k for k in st.env if pred(k)]:
            del st.env[k]

    def store(self, st, loc, val, t=None, w=None, u=None):
        key = self.lkey(loc)
        if t is not None:
            self.keytype.setdefault(key, (t, w, u))
        base = loc.base
        env = st.env
        if not loc.off.const:
            self.bump(st, base)
            for k in [k for k in env if k[0] == 'elem' and k[1] == base]:
                del env[k]
            env.pop(base, None)
        elif key[0] == 'elem':
            for k in [k for k in env if k[0] == 'elem' and k[1] == base and not k[2].const]:
                del env[k]
        env[key] = val
        r = root(key)
        self.bump(st, ('W', r))
        if key[0] == 'fld' and r[0] in ('sym', 'this'):
            f = key[2]
            s = r[0] == 'sym'
            for k in [k for k in env if k[0] == 'fld' and k[2] == f and k != key and root(k)[0] == 'sym']:
                del env[k]
            if s:
                for k in [k for k in env if k[0] == 'fld' and k[2] == f and k != key and root(k)[0] == 'this']:
                    del env[k]
                    self.bump(st, k)
            st.ep[('F', f)] = new_token()
        elif r[0] == 'sym' and key[0] != 'fld':
            # a store through an unknown pointer: other unknown scalars may change
            for k in [k for k in env if k[0] in ('sym', 'elem') and root(k)[0] == 'sym' and root(k) != r]:
                del env[k]
            st.ep['S'] = new_token()

    def bump(self, st, base):
        st.ep[base] = new_token()

    def havoc(self, st, base):
        env = st.env
        for k in [k for k in env if base in chain(k)]:
            del env[k]
        self.bump(st, base)
        self.bump(st, ('W', root(base)))

    def copyobj(self, st, dst, src):
        if dst == src:
            return
        items = [(k, v) for k, v in st.env.items() if src in chain(k)]
        self.havoc(st, dst)
        bt = self.basetype.get(src)
        if bt and dst not in self.basetype:
            self.basetype[dst] = bt
        sk = ('fld', src, '#size')
        if kind(self.basetype.get(src) or '') and sk not in st.env:
            items.append((sk, self.init_value(st, sk)))
        for k, v in items:
            st.env[rebase(k, src, dst)] = v

    # ------------------------------------------------------------ values
    def lin(self, st, v):
        """v as a linear term."""
        c = v.__class__
        if c is Lin:
            return v
        if c in (B, BAnd, BOr):
            d = self.decide(st, v)
            if d is not None:
                return ONE if d else Z
            return A(key_atom(('b', v), 'b', 0, 1))
        if c is Ptr:
            if v.base == NULLB:
                return v.off
            return A(key_atom(('pi', Ptr(v.base, Z)), 'ptr', 1 if v.base[0] not in ('sym',) else 0, (1 << 63))) + v.off
        return A(key_atom(('val', v), 'val'))

    def truth(self, st, v):
        c = v.__class__
        if c in (B, BAnd, BOr):
            return v
        if c is Lin:
            if v.const:
                return TRUE if v.c else FALSE
            if len(v.t) == 1 and v.c == 0:
                k = ATOMS[v.t[0][0]].key
                if k and k[0] == 'b':
                    return k[1]
            return B('ne', v)
        if c is Ptr:
            if v.base == NULLB:
                return FALSE if v.off == Z else B('ne', v.off)
            if v.base[0] == 'sym':
                return B('ne', A(v.base[1]))
            return TRUE
        return B('ne', A(key_atom(('val', v), 'val', 0, 1)))

    def decide(self, st, f):
        c = f.__class__
        if c is B:
            l = f.lin
            cs = st.cons
            if f.op == 'le':
                if cs.proves_le(l):
                    return True
                if cs.proves_le(L(1) - l):
                    return False
            else:
                r = None
                if cs.proves_ne(l):
                    r = False
                elif cs.proves_eq(l):
                    r = True
                if r is not None:
                    return r if f.op == 'eq' else not r
            return None
        a, b = self.decide(st, f.a), self.decide(st, f.b)
        if c is BAnd:
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None

    def assume(self, st, f, val=True):
        """States refined by the formula; may consume st."""
        if not val:
            f = negate(f)
        c = f.__class__
        if c is B:
            if f.op == 'le':
                st.cons.add_le(f.lin)
            elif f.op == 'eq':
                st.cons.add_eq(f.lin)
            else:
                st.cons.add_ne(f.lin)
            if st.cons.bot:
                return []
            # facts about a remembered truth value imply the formula itself
            if f.op in ('eq', 'ne') and len(f.lin.t) == 1 and abs(f.lin.t[0][1]) == 1:
                k = ATOMS[f.lin.t[0][0]].key
                if k and k[0] == 'b':
                    x = -f.lin.c * f.lin.t[0][1]
                    tv = None
                    if f.op == 'eq':
                        tv = x != 0
                    elif x == 0:
                        tv = True
                    elif x == 1:
                        tv = False
                    if tv is not None:
                        return self.assume(st, k[1], tv)
            return [st]
        if c is BAnd:
            out = []
            for s in self.assume(st, f.a):
                out.extend(self.assume(s, f.b))
            return out
        d = self.decide(st, f)
        if d is True:
            return [st]
        if d is False:
            return []
        s2 = st.copy()
        out = self.assume(st, f.a)
        for s in self.assume(s2, negate(f.a)):
            out.extend(self.assume(s, f.b))
        return out

    def fit(self, st, l, t, w, u, exact=True):
        """l as the result of an operation of the given integer type."""
        if l.__class__ is not Lin:
            return l
        if not w:
            return l
        lo, hi = self.range(t, w, u)
        if l.const:
            if lo <= l.c <= hi:
                return l
            m = l.c & ((1 << w) - 1)
            if not u and m >> (w - 1):
                m -= 1 << w
            return L(m)
        if not u and exact:
            return l        # signed overflow is undefined
        cs = st.cons
        rl, rh = cs.rng(l)
        if rl >= lo and rh <= hi or (rl >= lo or cs.proves_le(L(lo) - l)) and (rh <= hi or cs.proves_le(l - L(hi))):
            x = ATOMKEY.get(('wrap', w, bool(u), l))
            if x is not None:
                cs.add_eq(A(x) - l)
            return l
        if rl != -INF and rh != INF and (rl - lo) // (1 << w) == (rh - lo) // (1 << w):
            # one and the same multiple of 2**w away
            return l - ((int(rl) - lo) // (1 << w) << w)
        for x, k in l.t:
            kk = ATOMS[x].key
            if kk and kk[0] == 'wrap' and kk[1] >= w:
                # arithmetic modulo 2**w: the inner reduction is redundant
                return self.fit(st, l.subst({x: kk[3]}), t, w, u, exact)
        at = key_atom(('wrap', w, bool(u), l), 'wrap(%r)' % l if len(l.t) < 3 else 'wrap', lo, hi)
        if u and w <= 16 and not ATOMS[at].ax:
            e = A(at) - l + self.floordiv(l, 1 << w).scale(1 << w)
            ATOMS[at].ax = (norm_le(e), norm_le(-e))
        return A(at)

    def split(self, a, k):
        """a as k * first + second, where the second is in [0, k) by the ranges of its atoms, or nothing."""
        d = tuple((x, c) for x, c in a.t if c % k == 0)
        r = tuple((x, c) for x, c in a.t if c % k)
        if not d and 0 <= a.c < k:
            return None
        rest = Lin(a.c % k, r)
        lo, hi = NOCONS.rng(rest)
        if lo < 0 or hi >= k:
            if r and not d:
                return None
            return Lin((a.c - a.c % k) // k, tuple((x, c // k) for x, c in d)), rest, False
        return Lin((a.c - a.c % k) // k, tuple((x, c // k) for x, c in d)), rest, True

    def modulo(self, a, k):
        """a mod k, of an a that is not negative."""
        sp = self.split(a, k)
        if sp:
            if sp[2]:
                return sp[1]
            a = sp[1]
        lo, hi = NOCONS.rng(a)
        if lo >= 0 and hi < k:
            return a
        at = key_atom(('mod', a, k), 'mod%d' % k, 0, k - 1)
        if not ATOMS[at].ax:
            e = A(at) - a + self.floordiv(a, k).scale(k)
            ATOMS[at].ax = ((norm_le(A(at) - a),) if lo >= 0 else ()) + ((norm_le(e), norm_le(-e)) if k <= 1 << 16 else ())
        return A(at)

    def floordiv(self, a, k):
        sp = self.split(a, k)
        if sp:
            return sp[0] if sp[2] else sp[0] + self.floordiv(sp[1], k)
        lo, hi = NOCONS.rng(a)
        if lo >= 0 and hi < k:
            return Z
        if len(a.t) == 1 and a.t[0][1] == 1 and a.c == 0:
            kk = ATOMS[a.t[0][0]].key
            if kk and kk[0] == 'div':
                return self.floordiv(kk[1], kk[2] * k)
        at = key_atom(('div', a, k), 'div%d' % k, -INF, INF)
        q = A(at)
        if not ATOMS[at].ax:
            lo, hi = NOCONS.rng(a)
            ATOMS[at].lo = lo // k if lo != -INF else lo
            ATOMS[at].hi = hi // k if hi != INF else hi
            ATOMS[at].ax = (norm_le(q.scale(k) - a), norm_le(a - q.scale(k) - L(k - 1)))
        return q

    def unwrap(self, st):
        """Values computed modulo 2**w that are now known not to have wrapped."""
        for k, v in list(st.env.items()):
            l = v.off if v.__class__ is Ptr else v
            if l.__class__ is not Lin or not l.t:
                continue
            for x, _ in l.t:
                kk = ATOMS[x].key
                if kk and kk[0] == 'wrap':
                    i = kk[3]
                    lo, hi = ATOMS[x].lo, ATOMS[x].hi
                    if st.cons.proves_le(L(lo) - i, 2) and (hi > 1 << 60 or st.cons.proves_le(i - L(hi), 2)):
                        if hi > 1 << 60 and not st.cons.proves_le(i - L(hi), 2):
                            continue
                        st.cons.add_eq(A(x) - i)
                        l = l.subst({x: i})
                        st.env[k] = Ptr(v.base, l) if v.__class__ is Ptr else l

    def binop(self, st, op, a, b, t, w, u, ps=None, at=None, bt=None):
        if op == ',':
            return b
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(st, op, a, b, at, bt)
        if is_float(t) or (at and is_float(at)):
            return A(key_atom(('f', op, hk(a), hk(b)), 'f' + op))
        if a.__class__ is Ptr and b.__class__ is Ptr and op == '-':
            if a.base == b.base:
                d = a.off - b.off
                k = self.psz(at)
                if k in (None, 1):
                    return d
                if d.const and d.c % k == 0:
                    return L(d.c // k)
                if all(c % k == 0 for _, c in d.t) and d.c % k == 0:
                    return Lin(d.c // k, tuple((x, c // k) for x, c in d.t))
                return self.fresh('pdiff')
            return A(key_atom(('pd', a, b), 'pdiff'))
        if a.__class__ is Ptr and op in '+-' and a.base != NULLB:
            o = self.lin(st, b).scale(ps or 1)
            return Ptr(a.base, a.off + o if op == '+' else a.off - o)
        if b.__class__ is Ptr and op == '+' and b.base != NULLB:
            return Ptr(b.base, b.off + self.lin(st, a).scale(ps or 1))
        a, b = self.lin(st, a), self.lin(st, b)
        if op == '+':
            return self.fit(st, a + b, t, w, u)
        if op == '-':
            return self.fit(st, a - b, t, w, u)
        if op == '*':
            if b.const:
                return self.fit(st, a.scale(b.c), t, w, u)
            if a.const:
                return self.fit(st, b.scale(a.c), t, w, u)
            return self.pure('*', a, b, t, w, u)
        if op == '<<' and b.const and 0 <= b.c < 64:
            return self.fit(st, a.scale(1 << b.c), t, w, u)
        if op in ('/', '>>') and b.const and b.c >= 0:
            k = b.c if op == '/' else (1 << b.c)
            if k == 0:
                return self.fresh('div0')
            if k == 1:
                return a
            if a.const:
                return L(a.c // k) if a.c >= 0 else self.pure(op, a, b, t, w, u)
            lo, hi = st.cons.rng(a)
            if lo >= 0 or st.cons.proves_le(-a):
                q = self.floordiv(a, k)
                if NOCONS.rng(q)[0] < 0:
                    st.cons.add_le(-q)
                return q
            return self.pure(op, a, b, t, w, u)
        if op == '%' and not b.const and st.cons.proves_le(-a) and st.cons.proves_le(a - b + 1):
            return a
        if op == '%' and b.const and b.c > 0:
            if a.const and a.c >= 0:
                return L(a.c % b.c)
            lo, hi = st.cons.rng(a)
            if lo >= 0 and hi < b.c:
                return a
            if lo >= 0 or st.cons.proves_le(-a):
                k = b.c
                if k & (k - 1):
                    if st.cons.proves_le(a - (k - 1)):
                        return a
                    if st.cons.proves_le(L(k) - a) and st.cons.proves_le(a - (2 * k - 1)):
                        return a - k
                return self.modulo(a, b.c)
            return self.pure(op, a, b, t, w, u)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if y.const and y.c >= 0:
                    if x.const:
                        return L(x.c & y.c)
                    lo, hi = st.cons.rng(x)
                    if lo >= 0 and hi != INF and (y.c + 1) & y.c == 0 and hi <= y.c:
                        return x
                    if lo >= 0 and hi != INF and y.c and (int(hi) + 1 & int(hi)) == 0 and y.c <= hi and ((hi - y.c) & (hi - y.c + 1)) == 0:
                        # clears the lower bits
                        return self.floordiv(x, hi - y.c + 1).scale(hi - y.c + 1)
                    k = y.c & -y.c
                    if k > 1 and lo >= 0 and hi != INF and (y.c + k) & (y.c + k - 1) == 0 and hi < y.c + k:
                        return self.floordiv(x, k).scale(k)
                    if (y.c + 1) & y.c == 0 and lo > y.c and hi <= 2 * y.c + 1:
                        return x - (y.c + 1)
                    if y.c and y.c & (y.c - 1) == 0 and lo >= y.c and hi < 2 * y.c:
                        return L(y.c)
                    if (y.c + 1) & y.c == 0 and (lo >= 0 or st.cons.proves_le(-x)):
                        return self.modulo(x, y.c + 1)
                    if y.c & (y.c - 1) == 0 and y.c and (lo >= 0 or st.cons.proves_le(-x)):
                        return self.modulo(self.floordiv(x, y.c), 2).scale(y.c)
                    at_ = key_atom(('and', x, y.c), 'and%#x' % y.c, 0, y.c)
                    if lo >= 0 and not ATOMS[at_].ax:
                        ATOMS[at_].ax = (norm_le(A(at_) - x),)
                    return A(at_)
                if y.const and y.c < 0 and -y.c & (-y.c - 1) == 0 and (st.cons.rng(x)[0] >= 0 or st.cons.proves_le(-x)):
                    return x if y.c == -1 else self.floordiv(x, -y.c).scale(-y.c)
            return self.pure(op, a, b, t, w, u)
        if op in ('|', '^'):
            if a.const and b.const:
                return L(a.c | b.c if op == '|' else a.c ^ b.c)
            if a == Z:
                return b
            if b == Z:
                return a
            if op == '^' and a == b:
                return Z
            if op == '^':
                # flips the highest bit
                for x, y in ((a, b), (b, a)):
                    if y.const and y.c > 0 and y.c & (y.c - 1) == 0:
                        lo, hi = st.cons.rng(x)
                        if lo >= y.c and hi < 2 * y.c:
                            return x - y.c
            # parts that have no bits in common
            for x, y in ((a, b), (b, a)):
                if st.cons.rng(x)[0] >= 0:
                    yl, yh = st.cons.rng(y)
                    if yl >= 0 and yh != INF:
                        k = 1 << int(yh).bit_length()
                        if x.c % k == 0 and all(q % k == 0 for _, q in x.t):
                            return a + b
            # bounded by the next power of two
            la, ha = st.cons.rng(a)
            lb, hb = st.cons.rng(b)
            if a.t > b.t or (a.t == b.t and a.c > b.c):
                a, b = b, a
            at_ = key_atom((op, a, b, w), op, *self.range(t, w, u))
            if la >= 0 and lb >= 0 and ha != INF and hb != INF:
                hi = (1 << max(int(ha).bit_length(), int(hb).bit_length())) - 1
                at = ATOMS[at_]
                at.lo = max(at.lo, 0)
                at.hi = min(at.hi, hi)
            return A(at_)
        return self.pure(op, a, b, t, w, u)

    def pure(self, op, a, b, t, w, u):
        return A(key_atom((op, a, b, w, bool(u)), op, *self.range(t, w, u)))

    def psz(self, t):
        if not t:
            return None
        t = unq(t.rstrip('& '))
        if t.endswith('*'):
            return sizeof(t[:-1])
        if is_iter(t):
            x = targ0(t)
            return sizeof(x[:-1]) if x and x.endswith('*') else None
        return None

    def compare(self, st, op, a, b, at, bt):
        if (at and is_float(at)) or (bt and is_float(bt)):
            return B('ne', A(key_atom(('fc', op, hk(a), hk(b)), 'fcmp', 0, 1)))
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if a.__class__ is Lin and a == Z:
                a = NULL
            if b.__class__ is Lin and b == Z:
                b = NULL
            for x, y in ((a, b), (b, a)):
                if x.__class__ is Lin and y.__class__ is Ptr and op in ('==', '!='):
                    # an integer that shares its storage with a pointer
                    if y.base == NULLB and y.off == Z:
                        return B('eq' if op == '==' else 'ne', x)
                    return self.compare(st, op, self.as_ptr(st, x, None), y, at, bt)
            if a.__class__ is Ptr and b.__class__ is Ptr:
                if a.base == b.base:
                    return self.lcompare(op, a.off, b.off)
                if op in ('==', '!='):
                    if b.base == NULLB or a.base == NULLB:
                        f = self.truth(st, a if b.base == NULLB else b)
                        return negate(f) if op == '==' else f
                    if a.base[0] == 'sym' and b.base[0] == 'sym' and a.off == b.off:
                        return B('eq' if op == '==' else 'ne', A(a.base[1]) - A(b.base[1]))
                    if a.base[0] in ('loc', 'tmp', 'new') and b.base[0] in ('loc', 'tmp', 'new', 'this'):
                        return FALSE if op == '==' else TRUE
                    x, y = sorted((a, b), key=repr)
                    f = B('ne', A(key_atom(('pe', x, y), 'peq', 0, 1)))
                    return f if op == '==' else negate(f)
            return B('ne', A(key_atom(('pc', op, hk(a), hk(b)), 'pcmp', 0, 1)))
        if a.__class__ in (B, BAnd, BOr) and b.__class__ in (B, BAnd, BOr, Lin) and op in ('==', '!='):
            if b.__class__ is Lin and b.const:
                f = a if b.c else negate(a)
                return f if op == '==' else negate(f)
        if b.__class__ in (B, BAnd, BOr) and a.__class__ is Lin and a.const and op in ('==', '!='):
            f = b if a.c else negate(b)
            return f if op == '==' else negate(f)
        return self.lcompare(op, self.lin(st, a), self.lin(st, b))

    def lcompare(self, op, a, b):
        d = a - b
        if op == '==':
            return B('eq', d)
        if op == '!=':
            return B('ne', d)
        if op == '<':
            return B('le', d + 1)
        if op == '<=':
            return B('le', d)
        if op == '>':
            return B('le', (b - a) + 1)
        return B('le', b - a)

    def cast(self, st, v, t, w, u):
        if v.__class__ is not Lin:
            return v
        return self.fit(st, v, t, w, u, exact=False)

    # ------------------------------------------------------------ nodes
    def get(self, st, fr, i):
        if not i:
            return Z
        v = st.nv.get(i)
        if v is not None:
            return v
        n = fr.fn.nodes.get(i)
        if n is None:
            return self.fresh('none')
        if 'v' in n:
            return L(n['v'])
        k = n['k']
        if k in ('log', 'cond', 'cast', 'ref', 'mem', 'this', 'lit', 'null', 'str', 'un', 'bin', 'idx', 'zero', 'init', 'flit'):
            if k == 'un' and n['op'] in ('++', '--'):
                return self.fresh('lazy')
            r = self.eval(st, fr, n)
            if r is not None:
                return r
        return self.fresh_val(st, fr, n, 'lazy')

    def loc_of(self, st, fr, n):
        """Location of a DeclRefExpr."""
        dk = n['dk']
        if dk in ('local', 'param', 'other'):
            d = n['d']
            if fr.caps is not None and d not in fr.fn.declnames:
                c = fr.caps.get(n['n'])
                if c is not None:
                    return c
            b = ('loc', fr.id, d)
            if d in fr.fn.refs:
                v = st.env.get(b)
                if v.__class__ is Ptr:
                    return v
                v = self.unknown(st, n['t'] + ' &', None, None, n['n'])
                st.env[b] = v
                return v
            if b not in self.basetype:
                self.basetype[b] = n['t']
            return Ptr(b, Z)
        return Ptr(('g', n.get('q', n['n'])), Z)

    def eval(self, st, fr, n):
        """Value of a node without control flow or calls; None when it has such."""
        k = n['k']
        if 'v' in n and k not in ('asg', 'casg', 'call'):
            return L(n['v'])
        if k == 'lit':
            return self.keyed(('lit', fr.fn.id, n['i']), 'lit', n.get('t'), n.get('w'), n.get('u'))
        if k == 'flit':
            return A(key_atom(('flit', n['f']), 'flit'))
        if k == 'null':
            return NULL
        if k == 'str':
            b = ('str', n.get('s', ''), n['n'])
            return Ptr(b, Z)
        if k == 'this':
            return Ptr(fr.this, Z) if fr.this is not None else self.fresh_val(st, fr, n, 'this')
        if k == 'ref':
            dk = n['dk']
            if dk == 'func':
                return FnRef(n['fid'], n['fn'])
            if dk == 'enum':
                return L(n.get('v', 0))
            loc = self.loc_of(st, fr, n)
            if not n.get('lv'):
                return self.load(st, loc, n['t'], n.get('w'), n.get('u'))
            return loc
        if k == 'mem':
            if 'fid' in n:
                return FnRef(n['fid'], n['fn'])
            b = self.get(st, fr, n['c'][0])
            cn = fr.fn.nodes.get(n['c'][0])
            if b.__class__ is not Ptr:
                b = self.as_ptr(st, b, cn)
            base = b.base if b.off == Z else ('elem', b.base, b.off)
            if n.get('arrow'):
                self.rule.on_access(self, st, fr, n, b, None, None, 'member')
            if not n['n'] and n.get('lv'):
                # the members of an anonymous union or struct are those of the object
                return Ptr(base, Z)
            f = ('fld', base, self.m.alias(n.get('cls'), n['n']))
            rec = self.m.records.get(n.get('cls'))
            ft = None
            if rec:
                for x in rec['fields']:
                    if x['n'] == n['n']:
                        ft = x['t']
                        break
            if ft is None:
                ft = n['t']
            if f not in self.basetype:
                self.basetype[f] = ft
            if ft.endswith('&'):
                v = st.env.get(f)
                return v if v.__class__ is Ptr else self.init_value(st, f, ft)
            if n.get('lv'):
                return Ptr(f, Z)
            return self.load(st, Ptr(f, Z), n['t'], n.get('w'), n.get('u'))
        if k == 'cast':
            return self.eval_cast(st, fr, n)
        if k == 'un':
            return self.eval_un(st, fr, n)
        if k == 'bin':
            a, b = n['c']
            na, nb = fr.fn.nodes.get(a, {}), fr.fn.nodes.get(b, {})
            return self.binop(st, n['op'], self.get(st, fr, a), self.get(st, fr, b), n.get('t'), n.get('w'), n.get('u'),
                              n.get('ps'), na.get('t'), nb.get('t'))
        if k == 'idx':
            b = self.get(st, fr, n['c'][0])
            i = self.get(st, fr, n['c'][1])
            if b.__class__ is Lin and i.__class__ is Ptr:
                b, i = i, b
            if b.__class__ is not Ptr:
                b = self.as_ptr(st, b, None)
            p = Ptr(b.base, b.off + self.lin(st, i).scale(n['es']))
            return p
        if k == 'log':
            l, r = n['c']
            a = self.truth(st, self.get(st, fr, l))
            first = r
            while fr.fn.nodes.get(first, {}).get('k') == 'log' and first not in st.nv:
                first = fr.fn.nodes[first]['c'][0]
            if first in st.nv or 'v' in fr.fn.nodes.get(first, {}):
                b = self.truth(st, self.get(st, fr, r))
                d = self.decide(st, a)
                if n['op'] == '&&':
                    if d is False:
                        return FALSE
                    return b if d else BAnd(a, b)
                if d is True:
                    return TRUE
                return b if d is False else BOr(a, b)
            return FALSE if n['op'] == '&&' else TRUE
        if k == 'cond':
            c, t, f = n['c']
            if c == t:
                t = c
            if t in st.nv and f not in st.nv:
                return st.nv[t]
            if f in st.nv and t not in st.nv:
                return st.nv[f]
            d = self.decide(st, self.truth(st, self.get(st, fr, c)))
            if d is True:
                return self.get(st, fr, t)
            if d is False:
                return self.get(st, fr, f)
            return self.fresh_val(st, fr, n, 'cond')
        if k == 'zero':
            t = unq(n.get('t', ''))
            if t.endswith('*'):
                return NULL
            if n.get('w') or t == 'bool':
                return Z
            if is_float(t):
                return A(key_atom(('flit', 0.0), 'flit'))
            return self.fresh_val(st, fr, n, 'zero')
        if k == 'init':
            c = n['c']
            t = unq(n.get('t', ''))
            scalar = n.get('w') or t.endswith('*') or is_float(t) or is_iter(t)
            if scalar:
                if not c:
                    return NULL if t.endswith('*') else Z
                return self.get(st, fr, c[0])
            tmp = ('tmp', fr.id, n['i'])
            self.havoc(st, tmp)
            self.basetype[tmp] = t
            rec = self.m.records.get(t)
            if rec and not rec['bases'] and len(rec['fields']) >= len(c):
                for fl, ci in zip(rec['fields'], c):
                    v = self.get(st, fr, ci)
                    cn = fr.fn.nodes.get(ci, {})
                    self.init_loc(st, fr, ('fld', tmp, fl['n']), v, cn, fl['t'])
            return Ptr(tmp, Z)
        return None

    def as_ptr(self, st, v, node):
        if v.__class__ is Ptr:
            return v
        if v.__class__ is Lin and v == Z:
            return NULL
        a = key_atom(('asptr', hk(v)), 'asptr')
        return Ptr(('sym', a), Z)

    def init_loc(self, st, fr, base, v, vnode, t):
        """Initialise an object of type t at base with value v."""
        ut = unq(t)
        if t.endswith('&'):
            st.env[base] = v
            return
        if v.__class__ is Ptr and not ut.endswith('*') and not is_iter(t) and vnode is not None and not is_scalar(vnode):
            if not v.off.const or v.off != Z:
                self.havoc(st, base)
            else:
                self.copyobj(st, base, v.base)
            self.basetype[base] = ut
            return
        self.store(st, Ptr(base, Z), v, t, vnode.get('w') if vnode else None, vnode.get('u') if vnode else None)

    def eval_cast(self, st, fr, n):
        ck = n['ck']
        c = n['c'][0]
        cn = fr.fn.nodes.get(c, {})
        v = self.get(st, fr, c)
        if ck == 'LValueToRValue':
            if v.__class__ is Ptr and cn.get('lv', True):
                self.rule.on_access(self, st, fr, cn, v, L((n.get('w') or 8 * (sizeof(n['t']) or 1)) // 8), False, 'read')
                r = self.load(st, v, n['t'], n.get('w'), n.get('u'))
                self.rule.on_load(self, st, fr, cn, v, r)
                return r
            return v
        if ck in ('NoOp', 'BitCast', 'LValueBitCast', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived',
                  'ArrayToPointerDecay', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion',
                  'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'Dependent'):
            if ck == 'Dynamic' and v.__class__ is Ptr and not n.get('lv'):
                return self.fresh_val(st, fr, n, 'dyn')
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if v.__class__ in (B, BAnd, BOr):
                v = self.lin(st, v)
            return self.cast(st, v, n['t'], n.get('w'), n.get('u'))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(st, v)
        if ck == 'FloatingToBoolean':
            return B('ne', A(key_atom(('ftob', hk(v)), 'ftob', 0, 1)))
        if ck == 'ToVoid':
            return Z
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return A(key_atom(('tof', hk(v)), 'tof'))
        if ck == 'FloatingToIntegral':
            return A(key_atom(('toi', hk(v), n.get('w')), 'toi', *self.range(n['t'], n.get('w'), n.get('u'))))
        if ck == 'PointerToIntegral':
            return self.lin(st, v)
        if ck == 'IntegralToPointer':
            return self.as_ptr(st, v, cn)
        return self.fresh_val(st, fr, n, ck)

    def eval_un(self, st, fr, n):
        op = n['op']
        c = n['c'][0]
        cn = fr.fn.nodes.get(c, {})
        v = self.get(st, fr, c)
        if op in ('+', '__extension__'):
            return v
        if op == '!':
            return negate(self.truth(st, v))
        if op == '-':
            if is_float(n['t']):
                return A(key_atom(('neg', hk(v)), 'neg'))
            return self.fit(st, -self.lin(st, v), n['t'], n.get('w'), n.get('u'))
        if op == '~':
            x = self.lin(st, v)
            if n.get('u'):
                return self.fit(st, L((1 << n['w']) - 1) - x, n['t'], n['w'], True)
            return -x - 1
        if op == '*':
            p = self.as_ptr(st, v, cn)
            if p.base not in self.basetype:
                self.basetype[p.base] = n['t']
            return p
        if op == '&':
            return v
        if op in ('++', '--'):
            if v.__class__ is not Ptr:
                return v
            self.rule.on_access(self, st, fr, cn, v, L((cn.get('w') or 8) // 8), True, 'incdec')
            old = self.load(st, v, cn['t'], cn.get('w'), cn.get('u'))
            new = self.binop(st, op[0], old, ONE, cn['t'], cn.get('w'), cn.get('u'), cn.get('ps'), cn['t'])
            if n.get('w') and n['w'] < 32:
                new = self.cast(st, new, n['t'], n['w'], n.get('u'))
            self.store(st, v, new, cn['t'], cn.get('w'), cn.get('u'))
            self.rule.on_store(self, st, fr, n, v, new)
            if n.get('post'):
                return old
            return v if n.get('lv') else new
        return self.fresh_val(st, fr, n, 'un' + op)

    # ------------------------------------------------------------ steps
    def step(self, st, fr, el):
        if isinstance(el, dict):
            return self.step_special(st, fr, el)
        n = fr.fn.nodes.get(el)
        if n is None:
            return [st]
        k = n['k']
        if k in ('call', 'ctor'):
            out = []
            for s, v in self.call(st, fr, n):
                s.nv[el] = v
                out.append(s)
            return out
        if k in ('log', 'cond'):
            v = self.eval(st, fr, n)
            # arms are consumed: the next evaluation sees only its own
            if k == 'log':
                todo = list(n['c'])
                while todo:
                    c = todo.pop()
                    st.nv.pop(c, None)
                    x = fr.fn.nodes.get(c, {})
                    if x.get('k') == 'log':
                        todo.extend(x['c'])
            else:
                if n['c'][0] != n['c'][1]:
                    st.nv.pop(n['c'][1], None)
                st.nv.pop(n['c'][2], None)
            st.nv[el] = v
            return [st]
        if k == 'asg':
            l, r = n['c']
            loc = self.get(st, fr, l)
            v = self.get(st, fr, r)
            ln = fr.fn.nodes.get(l, {})
            if loc.__class__ is Ptr:
                self.rule.on_access(self, st, fr, ln, loc, L((ln.get('w') or 8 * (sizeof(ln.get('t', '')) or 1)) // 8), True, 'write')
                self.store(st, loc, v, ln.get('t'), ln.get('w'), ln.get('u'))
                self.rule.on_store(self, st, fr, n, loc, v)
            st.nv[el] = loc if n.get('lv') else v
            return [st]
        if k == 'casg':
            l, r = n['c']
            loc = self.get(st, fr, l)
            v = self.get(st, fr, r)
            ln = fr.fn.nodes.get(l, {})
            rn = fr.fn.nodes.get(r, {})
            op = n['op'][:-1]
            if loc.__class__ is Ptr:
                self.rule.on_access(self, st, fr, ln, loc, L((ln.get('w') or 8 * (sizeof(ln.get('t', '')) or 1)) // 8), True, 'write')
                old = self.load(st, loc, ln.get('t'), ln.get('w'), ln.get('u'))
                new = self.binop(st, op, old, v, ln.get('t'), ln.get('w'), ln.get('u'), ln.get('ps'), ln.get('t'), rn.get('t'))
                if new.__class__ in (B, BAnd, BOr):
                    new = self.lin(st, new)
                if new.__class__ is Lin and not is_float(ln.get('t', '')):
                    new = self.cast(st, new, ln.get('t'), ln.get('w'), ln.get('u'))
                self.store(st, loc, new, ln.get('t'), ln.get('w'), ln.get('u'))
                self.rule.on_store(self, st, fr, n, loc, new)
            st.nv[el] = loc if n.get('lv') else v
            return [st]
        if k == 'decl':
            for v in n['vars']:
                b = ('loc', fr.id, v['d'])
                if v.get('static'):
                    b = ('g', fr.fn.name + '::' + v['n'])
                    continue
                self.basetype[b] = v['t']
                if v.get('bytes'):
                    self.ext[b] = v['bytes']
                elif v.get('w'):
                    self.ext[b] = v['w'] // 8
                if 'init' in v:
                    iv = self.get(st, fr, v['init'])
                    vn = fr.fn.nodes.get(v['init'], {})
                    if v.get('isref'):
                        if iv.__class__ is not Ptr or (not vn.get('lv') and is_scalar(vn)):
                            tb = ('tmp', fr.id, 'r%d' % v['d'])
                            self.store(st, Ptr(tb, Z), iv, v['t'].rstrip('& '), v.get('w'), v.get('u'))
                            iv = Ptr(tb, Z)
                        st.env[b] = iv
                    elif 'arr' in v:
                        self.havoc(st, b)
                        if vn.get('k') == 'init' and len(vn['c']) <= 64 and all(is_scalar(fr.fn.nodes.get(c, {})) for c in vn['c']):
                            es = v['bytes'] // v['arr'] if v['arr'] else 1
                            for j, c in enumerate(vn['c']):
                                x = self.get(st, fr, c)
                                if x.__class__ in (B, BAnd, BOr):
                                    x = self.lin(st, x)
                                st.env[self.lkey(Ptr(b, L(j * es)))] = x
                    else:
                        self.init_loc(st, fr, b, iv, vn, v['t'])
                else:
                    self.havoc(st, b)
                    st.env.pop(b, None)
                self.rule.on_store(self, st, fr, n, Ptr(b, Z), st.env.get(b))
            return [st]
        if k == 'ret':
            if n['c']:
                v = self.get(st, fr, n['c'][0])
                if v.__class__ in (B, BAnd, BOr) or v.__class__ is Lin:
                    rt = fr.fn.d['rt']
                st.nv['ret'] = v
            else:
                st.nv.pop('ret', None)
            st.nv['retl'] = n['l']
            return [st]
        if k == 'throw':
            self.rule.on_throw(self, st, fr, n)
            return []
        if k == 'new':
            if 'pl' in n:
                p = self.get(st, fr, n['pl'][0])
                p = self.as_ptr(st, p, None)
                iv = self.get(st, fr, n['c'][0]) if n['c'][0] else None
                if iv is not None and not n.get('array') and p.base != NULLB and kind(unq(n['at'])) and p.base[0] == 'sym':
                    self.basetype[self.objbase(p)] = n['at']
                    self.init_loc(st, fr, self.objbase(p), iv, fr.fn.nodes.get(n['c'][0], {}), n['at'])
                st.nv[el] = p
                self.rule.on_new(self, st, fr, n, p)
                return [st]
            b = ('new', fr.id, n['i'])
            self.havoc(st, b)
            self.basetype[b] = n['at']
            if n['c'][0]:
                iv = self.get(st, fr, n['c'][0])
                vn = fr.fn.nodes.get(n['c'][0], {})
                if not n.get('array'):
                    self.init_loc(st, fr, b, iv, vn, n['at'])
            if n.get('array') and n.get('asz'):
                es = sizeof(n['at'])
                if es:
                    st.env[('ext', b)] = self.lin(st, self.get(st, fr, n['asz'])).scale(es)
            st.nv[el] = Ptr(b, Z)
            self.rule.on_new(self, st, fr, n, Ptr(b, Z))
            return [st]
        if k == 'delete':
            p = self.get(st, fr, n['c'][0])
            self.rule.on_delete(self, st, fr, n, p)
            st.nv[el] = Z
            return [st]
        if k == 'lambda':
            caps = []
            for c in n['cap']:
                if c.get('this') or 'd' not in c:
                    continue
                fake = {'dk': 'local', 'd': c['d'], 'n': c['n'], 't': ''}
                loc = self.loc_of(st, fr, fake)
                if c.get('byref'):
                    caps.append((c['n'], loc))
                else:
                    tb = ('cap', fr.id, n['i'], c['n'])
                    v = st.env.get(self.lkey(loc))
                    if v is not None:
                        st.env[tb] = v
                    else:
                        self.copyobj(st, tb, loc.base)
                        self.basetype.setdefault(tb, self.basetype.get(loc.base, ''))
                        kt = self.keytype.get(loc.base)
                        if kt and loc.off == Z:
                            st.env[tb] = self.load(st, loc, *kt)
                    caps.append((c['n'], Ptr(tb, Z)))
            st.nv[el] = Lam(n['fid'], tuple(caps), fr.this)
            return [st]
        v = self.eval(st, fr, n)
        if v is None:
            v = self.fresh_val(st, fr, n, k)
        st.nv[el] = v
        return [st]

    def step_special(self, st, fr, el):
        k = el['k']
        if k == 'cinit':
            i = el.get('init')
            if 'field' in el:
                b = ('fld', fr.this, self.m.alias(fr.fn.cls, el['field']))
                rec = self.m.records.get(fr.fn.cls)
                ft = ''
                if rec:
                    for x in rec['fields']:
                        if x['n'] == el['field']:
                            ft = x['t']
                self.basetype.setdefault(b, ft)
                if i:
                    v = self.get(st, fr, i)
                    vn = fr.fn.nodes.get(i, {})
                    if el.get('isref'):
                        st.env[b] = v
                    else:
                        self.init_loc(st, fr, b, v, vn, ft or vn.get('t', ''))
                    self.rule.on_store(self, st, fr, el, Ptr(b, Z), st.env.get(b))
            else:
                # a base or delegated constructor ran into a temporary: its fields are ours
                if i:
                    v = self.get(st, fr, i)
                    if v.__class__ is Ptr and v.off == Z and v.base[0] == 'tmp':
                        items = [(kk, vv) for kk, vv in st.env.items() if v.base in chain(kk) and kk != v.base]
                        for kk, vv in items:
                            del st.env[kk]
                            st.env[rebase(kk, v.base, fr.this)] = vv
            return [st]
        if k == 'autodtor':
            b = ('loc', fr.id, el['d'])
            if el['d'] in fr.fn.refs:
                return [st]
            return self.destroy(st, fr, el, b, el.get('fid'))
        return [st]

    def destroy(self, st, fr, el, b, fid):
        self.rule.on_dtor(self, st, fr, el, b)
        t = self.m.fns.get(fid) if fid else None
        if t is None or t.d.get('implicit'):
            return [st]
        ci = CallInfo(t.name, '(dtor)', t.cls, fid, Ptr(b, Z), [], el, t, False, None)
        r = self.rule.pre_call(self, st, fr, el, ci)
        if r is not None:
            return [s for s, _ in r]
        if self.can_inline(st, fr, ci):
            return [s for s, _ in self.exec_fn(t, st, fr, ('d', el['d']), [], b, b)]
        return [st]

    # ------------------------------------------------------------ calls
    def dyn_of(self, st, fr, base):
        d = self.rule.dyn_type(self, st, base)
        if d:
            return d
        if base[0] in ('loc', 'tmp', 'new', 'fld', 'cap'):
            t = self.basetype.get(base)
            if t:
                t = unq(t)
                if t in self.m.records:
                    return t
        return None

    def call(self, st, fr, n):
        self.stats['calls'] += 1
        args = [self.get(st, fr, c) for c in n['c']]
        obj = None
        ot = None
        if n['k'] == 'ctor':
            if fr.this is not None and n['i'] in self.base_inits(fr.fn):
                obj = Ptr(fr.this, Z)
            else:
                obj = Ptr(('tmp', fr.id, n['i']), Z)
                self.havoc(st, obj.base)
                self.basetype[obj.base] = n['cls']
            ot = n['cls']
        elif 'obj' in n:
            on = fr.fn.nodes.get(n['obj'], {})
            obj = self.get(st, fr, n['obj'])
            ot = unq(on.get('t', '').rstrip('& '))
            if ot.endswith('*'):
                ot = unq(ot[:-1])
            if obj.__class__ is not Ptr and not obj.__class__ is Lam:
                obj = self.as_ptr(st, obj, on)
        fn = n.get('fn')
        fid = n.get('fid')
        if fn is None:
            # call through a pointer or a callable expression
            fe = self.get(st, fr, n['fe']) if 'fe' in n else None
            if fe.__class__ is FnRef:
                fn, fid = fe.name, fe.fid
            else:
                fn, fid = '?', None
        if obj.__class__ is Lam:
            t = self.m.fns.get(obj.fid)
            ci = CallInfo(fn, 'operator()', 'lambda', obj.fid, None, args, n, t, False, None)
            r = self.rule.pre_call(self, st, fr, n, ci)
            if r is not None:
                return r
            if t is not None and self.can_inline(st, fr, ci):
                return self.exec_fn(t, st, fr, n['i'], args, obj.this, None, dict(obj.caps))
            return self.opaque(st, fr, n, ci)
        short, cls = split_name(fn)
        target = self.m.fns.get(fid) if fid else None
        virt = n.get('virt', False)
        if virt and obj is not None:
            base = obj.base if obj.off == Z else ('elem', obj.base, obj.off)
            dyn = self.dyn_of(st, fr, base)
            target = None
            if dyn:
                rid = self.m.resolve(fid, dyn)
                if rid:
                    target = self.m.fns.get(rid)
                virt = False
        ci = CallInfo(fn, short, cls, fid, obj, args, n, target, virt, ot)
        r = self.rule.pre_call(self, st, fr, n, ci)
        if r is not None:
            return r
        r = self.builtin(st, fr, n, ci)
        if r is None:
            if target is not None and self.can_inline(st, fr, ci):
                ob = None
                if obj is not None:
                    ob = obj.base if obj.off == Z else ('elem', obj.base, obj.off)
                r = self.exec_fn(target, st, fr, n['i'], args, ob, ob)
                if n['k'] == 'ctor':
                    r = [(s, obj) for s, _ in r]
            else:
                r = self.opaque(st, fr, n, ci)
        for s, v in r:
            self.rule.post_call(self, s, fr, n, ci, v)
        if n.get('noret'):
            return []
        return r

    def base_inits(self, fn):
        """The initializers in a constructor of its base classes, or another constructor it delegates to."""
        r = fn.d.get('_binits')
        if r is None:
            r = fn.d['_binits'] = {el['init'] for b in fn.blocks.values() for el in b['e']
                                   if el.__class__ is dict and el.get('k') == 'cinit' and 'field' not in el and el.get('init')} if fn.short == '(ctor)' else set()
        return r

    def can_inline(self, st, fr, ci):
        t = ci.target
        if t is None:
            return False
        if fr.depth >= self.rule.maxdepth:
            return False
        f = fr
        while f is not None:
            if f.fn is t:
                return False
            f = f.parent
        r = self.rule.inline(self, st, fr, ci)
        return True if r is None else r

    def opaque(self, st, fr, n, ci):
        """A call whose body is not interpreted."""
        self.stats['opaque'] += 1
        self.opaque_names[ci.fn] = self.opaque_names.get(ci.fn, 0) + 1
        pts = n.get('pt', [])
        const = n.get('cm', False)
        for b in self.rule.opaque_havoc(self, st, fr, ci):
            self.havoc(st, b)
        for i, a in enumerate(ci.args):
            t = pts[i] if i < len(pts) else ''
            if a.__class__ is Ptr and a.base not in (NULLB,) and a.base[0] not in ('str',):
                isp = t.endswith('*') or t.endswith('&')
                cst = t.startswith('const ') and not t.endswith('*const *')
                if not t or (isp and not cst):
                    if t.endswith('&&') and False:
                        continue
                    self.havoc(st, a.base)
            elif a.__class__ is Lam:
                for _, loc in a.caps:
                    if loc.base[0] != 'cap':
                        self.havoc(st, loc.base)
        if ci.obj.__class__ is Ptr and not const and n['k'] != 'ctor' and not n.get('sm'):
            b = ci.obj.base
            if b != NULLB:
                self.havoc(st, b)
        if n['k'] == 'ctor':
            return [(st, ci.obj)]
        if const and ci.obj.__class__ is Ptr and not n.get('lv') and (n.get('w') or unq(n.get('t', '')).endswith('*')):
            key = ('cm', ci.fid, ci.obj, st.ep.get(('W', root(ci.obj.base))), self.token(st, ci.obj.base), tuple(hk(a) for a in ci.args))
            t = n.get('t', '')
            if unq(t).endswith('*'):
                b = ('sym', key_atom(key, ci.short))
                self.basetype.setdefault(b, unq(unq(t)[:-1]))
                return [(st, Ptr(b, Z))]
            return [(st, self.keyed(key, ci.short, t, n.get('w'), n.get('u')))]
        return [(st, self.fresh_val(st, fr, n, ci.short or 'call'))]

    # ---- library models -------------------------------------------------
    def size_loc(self, base):
        k = ('fld', base, '#size')
        self.keytype.setdefault(k, ('unsigned long', 64, True))
        return Ptr(k, Z)

    def size(self, st, base):
        t = self.basetype.get(base)
        if t and kind(t) == 'array':
            ta = targs(t)
            if len(ta) > 1 and re.match(r'\d+', ta[1]):
                return L(int(re.match(r'\d+', ta[1]).group(0)))
        return self.load(st, self.size_loc(base), 'unsigned long', 64, True)

    def set_size(self, st, base, l):
        l = self.lin(st, l)
        st.env[('fld', base, '#size')] = l
        self.keytype.setdefault(('fld', base, '#size'), ('unsigned long', 64, True))
        self.bump(st, ('buf', base))
        self.bump(st, ('W', root(base)))
        for k in [k for k in st.env if k != ('fld', base, '#size') and ('buf', base) in chain(k)]:
            del st.env[k]
        self.bump(st, ('V', base))

    def elem_size(self, t):
        k = kind(t or '')
        if k in ('basic_string', 'vector', 'deque', 'array', 'initializer_list', 'basic_string_view'):
            x = targ0(t)
            return (sizeof(x) or 1) if x else 1
        return 1

    def objbase(self, obj):
        return obj.base if obj.off == Z else ('elem', obj.base, obj.off)

    def builtin(self, st, fr, n, ci):
        fn, short, args = ci.fn, ci.short, ci.args
        if fn in ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::launder', '__builtin_expect',
                  'std::__addressof', 'std::move_if_noexcept'):
            return [(st, args[0])]
        if fn in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy', '__builtin_memmove'):
            nb = self.lin(st, args[2])
            d, s = self.as_ptr(st, args[0], None), self.as_ptr(st, args[1], None)
            self.rule.on_access(self, st, fr, n, d, nb, True, fn)
            self.rule.on_access(self, st, fr, n, s, nb, False, fn)
            self.weak_write(st, d)
            return [(st, d)]
        if fn in ('memset', 'std::memset', '__builtin_memset'):
            nb = self.lin(st, args[2])
            d = self.as_ptr(st, args[0], None)
            self.rule.on_access(self, st, fr, n, d, nb, True, fn)
            self.weak_write(st, d)
            return [(st, d)]
        if fn in ('memcmp', 'std::memcmp', '__builtin_memcmp'):
            nb = self.lin(st, args[2])
            for a in args[:2]:
                self.rule.on_access(self, st, fr, n, self.as_ptr(st, a, None), nb, False, fn)
            return [(st, self.fresh('memcmp', 'int', 32, False))]
        if fn in ('memchr', 'std::memchr', '__builtin_memchr', 'rawmemchr') and len(args) == 3:
            nb = self.lin(st, args[2])
            p = self.as_ptr(st, args[0], None)
            self.rule.on_access(self, st, fr, n, p, nb, False, fn)
            s2 = st.copy()
            i = self.fresh('memchr', None, None, None, 0, 1 << 60)
            s2.cons.add_le(i + 1 - nb)
            return [(st, NULL)] + ([] if s2.cons.bot else [(s2, Ptr(p.base, p.off + i))])
        if fn in ('strnlen', 'std::strnlen'):
            nb = self.lin(st, args[1])
            i = self.fresh('strnlen', None, None, None, 0, 1 << 60)
            st.cons.add_le(i - nb)
            return [(st, i)]
        if fn in ('std::copy', 'std::fill', 'std::fill_n', 'std::copy_n') and len(args) == 3 and self.rawrange(fr, n, fn):
            es = self.rawrange(fr, n, fn)
            if fn in ('std::fill_n', 'std::copy_n'):
                nb = self.lin(st, args[1]).scale(es)
                src, dst = self.as_ptr(st, args[0], None), self.as_ptr(st, args[2], None)
                if fn == 'std::fill_n':
                    src, dst = None, src
            else:
                x, y = self.as_ptr(st, args[0], None), self.as_ptr(st, args[1], None)
                nb = y.off - x.off if x.base == y.base else self.fresh('range', None, None, None, 0, 1 << 60)
                src, dst = (x, self.as_ptr(st, args[2], None)) if fn == 'std::copy' else (None, x)
            if src is not None:
                self.rule.on_access(self, st, fr, n, src, nb, False, fn)
            self.rule.on_access(self, st, fr, n, dst, nb, True, fn)
            self.weak_write(st, dst)
            return [(st, Ptr(dst.base, dst.off + nb))]
        if fn == 'std::make_pair' and len(args) == 2:
            tmp = ('tmp', fr.id, n['i'])
            self.havoc(st, tmp)
            self.basetype[tmp] = unq(n.get('t', ''))
            for f, a, c in (('first', args[0], n['c'][0]), ('second', args[1], n['c'][1])):
                cn = fr.fn.nodes.get(c, {})
                if a.__class__ is Ptr and cn.get('lv') and (cn.get('w') or unq(cn.get('t', '').rstrip('& ')).endswith(('*', '*const'))):
                    a = self.load(st, a, cn.get('t'), cn.get('w'), cn.get('u'))
                st.env[('fld', tmp, f)] = a
            return [(st, Ptr(tmp, Z))]
        if fn == 'std::distance' and len(args) == 2:
            x, y = args
            es = self.rawrange(fr, n, fn)
            if es and x.__class__ is Ptr and y.__class__ is Ptr and x.base == y.base:
                d = y.off - x.off
                if es == 1:
                    return [(st, d)]
        if fn in ('strlen', 'std::strlen'):
            p = self.as_ptr(st, args[0], None)
            if p.base[0] == 'str' and p.off.const and '\\x00' not in p.base[1]:
                return [(st, L(p.base[2] - p.off.c))]
            a = key_atom(('strlen', p, self.token(st, p.base), st.ep.get(('W', root(p.base)))), 'strlen', 0, 1 << 40)
            return [(st, A(a))]
        if fn in ('std::min', 'std::max') and len(args) == 2 and all(a.__class__ is Ptr or a.__class__ is Lin for a in args):
            vs = []
            for c, a in zip(n['c'], args):
                cn = fr.fn.nodes.get(c, {})
                if a.__class__ is Ptr and not (cn.get('t', '').rstrip('& ').endswith('*') and not cn.get('lv')):
                    a = self.load(st, a, cn.get('t'), cn.get('w'), cn.get('u')) if cn.get('lv') else a
                vs.append(a)
            t = n.get('t', '')
            if not is_float(unq(t)) and all(v.__class__ is Lin for v in vs):
                x, y = vs
                if fn == 'std::max':
                    x, y = y, x
                out = []
                s2 = st.copy()
                for s, c, v in ((st, B('le', x - y), vs[0]), (s2, B('le', (y - x) + 1), vs[1])):
                    for s_ in self.assume(s, c):
                        tb = ('tmp', fr.id, n['i'])
                        s_.env[tb] = v
                        out.append((s_, Ptr(tb, Z) if n.get('lv') else v))
                return out
        if fn == 'std::swap' and len(args) == 2 and all(a.__class__ is Ptr for a in args):
            a, b = args
            ta = unq(self.basetype.get(a.base) or (n.get('pt') or [''])[0].rstrip('& '))
            if kind(ta):
                sa, sb = self.size(st, a.base), self.size(st, b.base)
                self.set_size(st, a.base, sb)
                self.set_size(st, b.base, sa)
            else:
                pt = unq((n.get('pt') or [''])[0].rstrip('& '))
                w = {1: 8, 2: 16, 4: 32, 8: 64}.get(sizeof(pt))
                u = pt.startswith('unsigned')
                va, vb = self.load(st, a, pt, w, u), self.load(st, b, pt, w, u)
                self.store(st, a, vb)
                self.store(st, b, va)
            return [(st, Z)]
        if fn in ('read', 'recv', 'write', 'send', '::read', '::write') and len(args) >= 3:
            nb = self.lin(st, args[2])
            p = self.as_ptr(st, args[1], None)
            wr = fn.strip(':') in ('read', 'recv')
            self.rule.on_access(self, st, fr, n, p, nb, wr, fn)
            if wr:
                self.weak_write(st, p)
            r = self.fresh(fn, 'long', 64, False, -1, 1 << 40)
            st.cons.add_le(r - nb)
            return [(st, r)]
        if fn == '__errno_location':
            return [(st, Ptr(('g', 'errno'), Z))]
        cls = ci.cls
        if n['k'] == 'ctor' and n.get('cpy') and args:
            if is_iter(n['cls']):
                cn = fr.fn.nodes.get(n['c'][0], {})
                v = args[0]
                if cn.get('lv') and v.__class__ is Ptr:
                    v = self.load(st, v, n['cls'])
                return [(st, v)]
            if ci.target is None or ci.target.d.get('implicit') or kind(n['cls']):
                if args[0].__class__ is Lam:
                    return [(st, args[0])]
                if args[0].__class__ is Ptr:
                    sb = self.objbase(args[0])
                    self.basetype.setdefault(sb, n['cls'])
                    self.copyobj(st, ci.obj.base, sb)
                    if n['cpy'] == 'move' and kind(n['cls']):
                        self.set_size(st, sb, self.fresh('moved', None, None, None, 0, 1 << 60))
                    return [(st, ci.obj)]
        if n['k'] == 'ctor' and is_iter(n['cls']):
            if not args:
                return [(st, self.fresh_val(st, fr, dict(n, lv=False), 'it'))]
            cn = fr.fn.nodes.get(n['c'][0], {})
            v = args[0]
            if cn.get('lv') and v.__class__ is Ptr:
                v = self.load(st, v, cn.get('t'))
            return [(st, v)]
        if n['k'] == 'ctor' and n['cls'].startswith('std::pair<') and len(args) == 2:
            for f, a, c in (('first', args[0], n['c'][0]), ('second', args[1], n['c'][1])):
                cn = fr.fn.nodes.get(c, {})
                if a.__class__ is Ptr and cn.get('lv') and (cn.get('w') or cn.get('t', '').endswith('*')):
                    a = self.load(st, a, cn.get('t'), cn.get('w'), cn.get('u'))
                st.env[('fld', ci.obj.base, f)] = a
            return [(st, ci.obj)]
        k = kind(cls) if cls else None
        if k and ci.obj.__class__ is Ptr:
            return self.container(st, fr, n, ci, k)
        if ci.cls and ITER.search(ci.cls) and (ci.cls.startswith('std::') or ci.cls.startswith('__gnu_cxx::')) and ci.obj.__class__ is Ptr:
            return self.iterator_op(st, fr, n, ci)
        if short in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator>', 'operator<=', 'operator>=') and fn.startswith(('std::', '__gnu_cxx::')) and len(args) == 2:
            vs = []
            ok = True
            for c, a in zip(n['c'], args):
                cn = fr.fn.nodes.get(c, {})
                if is_iter(cn.get('t', '').rstrip('& ')):
                    if cn.get('lv') and a.__class__ is Ptr and self.islv(fr, cn):
                        a = self.load(st, a, unq(cn['t'].rstrip('& ')))
                    vs.append((a, cn.get('t')))
                else:
                    ok = False
            if ok and vs:
                if short == 'operator-':
                    return [(st, self.binop(st, '-', vs[0][0], vs[1][0], n.get('t'), n.get('w'), n.get('u'), None, vs[0][1]))]
                return [(st, self.compare(st, short[8:], vs[0][0], vs[1][0], None, None))]
        if short == 'operator==' and fn.startswith('std::operator'):
            return [(st, self.fresh('eq', 'bool'))]
        return None

    def weak_write(self, st, p):
        b = p.base
        if b == NULLB:
            return
        if p.off == Z and b[0] in ('loc', 'tmp', 'fld') and sizeof(self.basetype.get(b) or '') is not None:
            st.env.pop(b, None)
            self.bump(st, b)
            self.bump(st, ('W', root(b)))
            return
        if b[0] == 'buf':
            for k in [k for k in st.env if b in chain(k)]:
                del st.env[k]
            self.bump(st, b)
            return
        self.havoc(st, b)

    def iter_val(self, st, fr, i, v):
        cn = fr.fn.nodes.get(i, {})
        if cn.get('lv') and v.__class__ is Ptr and self.islv(fr, cn):
            return self.load(st, v, unq(cn.get('t', '').rstrip('& ')))
        return v

    def islv(self, fr, cn):
        """Whether an iterator is held in memory, below its casts."""
        while cn.get('k') == 'cast' and cn.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase') and cn.get('c'):
            cn = fr.fn.nodes.get(cn['c'][0], {})
        return cn.get('lv')

    def iterator_op(self, st, fr, n, ci):
        on = fr.fn.nodes.get(n['obj'], {})
        v = self.iter_val(st, fr, n['obj'], ci.obj)
        es = self.psz(on.get('t', '')) or 1
        s = ci.short
        if v.__class__ is not Ptr:
            v = self.as_ptr(st, v, None)
        arr = v.base[0] == 'buf'
        if s in ('operator*', 'operator->', 'operator[]', 'base'):
            if s == 'operator[]':
                v = Ptr(v.base, v.off + self.lin(st, ci.args[0]).scale(es))
            return [(st, v)]
        if s in ('operator++', 'operator--'):
            if arr:
                new = Ptr(v.base, v.off + (es if s == 'operator++' else -es))
            else:
                new = Ptr(('sym', new_atom('it')), Z)
            if on.get('lv') and ci.obj.__class__ is Ptr:
                self.store(st, ci.obj, new)
            post = len(ci.args) == 1
            if post:
                return [(st, v)]
            return [(st, ci.obj if n.get('lv') else new)]
        if s in ('operator+', 'operator-') and len(ci.args) == 1 and is_iter(n.get('t', '')):
            o = self.lin(st, ci.args[0]).scale(es)
            return [(st, Ptr(v.base, v.off + o if s == 'operator+' else v.off - o))]
        if s in ('operator+=', 'operator-='):
            o = self.lin(st, ci.args[0]).scale(es)
            new = Ptr(v.base, v.off + o if s == 'operator+=' else v.off - o)
            if on.get('lv') and ci.obj.__class__ is Ptr:
                self.store(st, ci.obj, new)
            return [(st, ci.obj)]
        if s in ('operator==', 'operator!=') and len(ci.args) == 1:
            b = self.iter_val(st, fr, n['c'][0], ci.args[0])
            return [(st, self.compare(st, s[8:], v, b, None, None))]
        if s == 'operator=' and ci.args:
            b = self.iter_val(st, fr, n['c'][0], ci.args[0])
            self.store(st, ci.obj, b)
            return [(st, ci.obj)]
        return None

    def container(self, st, fr, n, ci, k):
        base = self.objbase(ci.obj)
        if base not in self.basetype or not kind(unq(self.basetype[base] or '')):
            self.basetype[base] = ci.cls
        s, a = ci.short, ci.args
        es = self.elem_size(ci.cls)
        ns = [fr.fn.nodes.get(c, {}) for c in n['c']]
        pts = n.get('pt', [])
        arrlike = k in ('basic_string', 'vector', 'array', 'initializer_list', 'basic_string_view')
        one = [(st, Z)]

        def keyval(i):
            """What identifies the key that is given: its value, when it is a scalar."""
            v, cn = a[i], ns[i] if i < len(ns) else {}
            if v.__class__ is Ptr and cn.get('lv'):
                t = unq(cn.get('t', '').rstrip('& '))
                if t.endswith('*const'):
                    t = t[:-5]
                if cn.get('w') or t.endswith('*'):
                    return self.load(st, v, t, cn.get('w'), cn.get('u'))
                return (v, self.token(st, v.base), st.ep.get(('W', root(v.base))))
            return v

        def sz():
            return self.size(st, base)

        def added(i):
            """Number of elements a (ptr,len)-style argument list starting at i denotes."""
            m = len(a) - i
            t0 = pts[i] if i < len(pts) else ''
            if m == 0:
                return Z
            if kind(unq(t0.rstrip('& '))) and a[i].__class__ is Ptr:
                o = self.size(st, self.objbase(a[i]))
                if m == 1 or 'npos' in str(m):
                    return o
                return self.fresh('sub', None, None, None, 0, 1 << 60)
            if m == 1:
                if a[i].__class__ is Ptr and t0.endswith('*'):
                    return self.builtin(st, fr, n, ci._replace(fn='strlen', args=[a[i]]))[0][1]
                return ONE
            t1 = pts[i + 1] if i + 1 < len(pts) else ''
            if t0.endswith('*') and not t1.endswith('*'):
                self.rule.on_access(self, st, fr, n, self.as_ptr(st, a[i], None), self.lin(st, a[i + 1]).scale(es), False, 'copy into container')
                return self.lin(st, a[i + 1])
            if sizeof(t0) and sizeof(unq(t1.rstrip('& '))) and a[i].__class__ is not Ptr:
                return self.lin(st, a[i])
            # iterator range
            x, y = a[i], a[i + 1]
            x = self.iter_val(st, fr, n['c'][i], x) if is_iter(ns[i].get('t', '').rstrip('& ')) else x
            y = self.iter_val(st, fr, n['c'][i + 1], y) if is_iter(ns[i + 1].get('t', '').rstrip('& ')) else y
            if x.__class__ is Ptr and y.__class__ is Ptr and x.base == y.base:
                d = y.off - x.off
                self.rule.on_access(self, st, fr, n, x, d, False, 'copy into container')
                if es == 1:
                    return d
            r = self.fresh('cnt', None, None, None, 0, 1 << 60)
            return r

        if s in ('size', 'length'):
            return [(st, sz())]
        if s == 'empty':
            return [(st, B('eq', sz()))]
        if s in ('max_size',):
            return [(st, L(1 << 60))]
        if s == 'capacity':
            c = self.keyed(('cap', base, self.token(st, base), st.ep.get(('W', root(base)))), 'cap', 'unsigned long', 64, True)
            st.cons.add_le(sz() - c)
            return [(st, c)]
        if s in ('data', 'c_str', 'begin', 'cbegin') and arrlike:
            return [(st, Ptr(('buf', base), Z))]
        if s in ('end', 'cend') and arrlike:
            return [(st, Ptr(('buf', base), sz().scale(es)))]
        if s in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
            at = key_atom((s.lstrip('c') if s[0] == 'c' else s, base, self.token(st, base), st.ep.get(('V', base))), s)
            return [(st, Ptr(('sym', at), Z))]
        if s == 'clear':
            self.clear_cont(st, base)
            self.set_size(st, base, Z)
            return one
        if s == 'resize':
            z = self.lin(st, a[0])
            if st.cons.hi(z) > 1 << 60:
                st.cons.add_le(z - L(1 << 60))      # throws otherwise
                if st.cons.bot:
                    return []
            self.set_size(st, base, z)
            return one
        if s in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            z = sz()
            et = targ0(ci.cls) or ''
            ek = kind(unq(et))
            nz = None
            if ek in ('basic_string', 'vector'):
                if s.startswith('push') and len(a) == 1 and a[0].__class__ is Ptr:
                    nz = self.size(st, self.objbase(a[0]))
                elif s.startswith('emplace') and ek == 'basic_string':
                    # forwarding references to scalars: take what they refer to
                    npt = []
                    for i, x in enumerate(a):
                        pt = pts[i] if i < len(pts) else ''
                        rt = unq(pt.rstrip('& '))
                        if pt.endswith('&') and x.__class__ is Ptr and (rt.endswith('*') or sizeof(rt)):
                            a[i] = self.load(st, x, rt)
                        npt.append(rt if rt.endswith('*') or sizeof(rt) else pt)
                    pts = npt
                    nz = self.lin(st, added(0)) if a else Z
            self.set_size(st, base, z + 1)
            if nz is not None and (arrlike or k == 'deque'):
                eb = self.objbase(Ptr(('buf', base), z.scale(es) if s.endswith('back') else Z))
                self.basetype.setdefault(eb, unq(et))
                self.set_size(st, eb, nz)
            if n.get('lv'):
                return [(st, Ptr(('buf', base), z.scale(es)) if arrlike else self.fresh_val(st, fr, n, 'back'))]
            return one
        if s in ('pop_back', 'pop_front'):
            z = sz()
            self.rule.on_access(self, st, fr, n, Ptr(('buf', base), (z - 1).scale(es)), L(es), True, 'pop')
            self.set_size(st, base, z - 1)
            return one
        if s == '(ctor)':
            if not a or (len(a) == 1 and 'allocator' in (pts[0] if pts else '')):
                self.set_size(st, base, Z)
            elif k in ('basic_string', 'vector', 'deque') and pts and not pts[0].startswith('std::initializer_list'):
                na = [x for x, p in zip(a, pts) if 'allocator' not in p]
                if k != 'basic_string' and len(na) == 1 and na[0].__class__ is not Ptr:
                    self.set_size(st, base, na[0])
                elif k != 'basic_string' and len(na) == 2 and na[0].__class__ is Lin:
                    self.set_size(st, base, na[0])
                else:
                    ci2 = ci
                    if len(na) != len(a):
                        a[:] = na
                    self.set_size(st, base, added(0))
            elif pts and pts[0].startswith('std::initializer_list') and ns[0].get('k') == 'init':
                self.set_size(st, base, L(len(ns[0]['c'])))
            else:
                self.set_size(st, base, self.fresh('size', None, None, None, 0, 1 << 60))
            return [(st, ci.obj)]
        if s == '(dtor)':
            return one
        if s == 'operator=':
            src = a[0]
            if src.__class__ is Ptr and (not pts or kind(unq(pts[0].rstrip('& ')))):
                sb = self.objbase(src)
                z = self.size(st, sb)
                if sb != base:
                    self.copyobj(st, base, sb)
                    self.set_size(st, base, z)
                    if pts and pts[0].endswith('&&'):
                        self.set_size(st, sb, self.fresh('moved', None, None, None, 0, 1 << 60))
            else:
                self.set_size(st, base, added(0))
            return [(st, ci.obj)]
        if s == 'assign':
            z = added(0)
            self.set_size(st, base, z)
            return [(st, ci.obj)]
        if s in ('append', 'operator+='):
            z = sz() + self.lin(st, added(0))
            self.set_size(st, base, z)
            return [(st, ci.obj)]
        if s == 'erase' and k in ('basic_string', 'vector', 'deque'):
            z = sz()
            ip = a and (a[0].__class__ is Ptr or is_iter(ns[0].get('t', '').rstrip('& ')))
            if not a:
                self.set_size(st, base, Z)
                return [(st, ci.obj)]
            if not ip:
                pos = self.lin(st, a[0])
                cnt = self.lin(st, a[1]) if len(a) > 1 else None
                if cnt is not None and not (cnt.const and cnt.c > (1 << 60)) and st.cons.proves_le(pos + cnt - z):
                    self.set_size(st, base, z - cnt)
                elif cnt is None or (cnt.const and cnt.c > (1 << 60)):
                    self.set_size(st, base, pos)
                else:
                    # erase(pos, cnt) is clipped at the end
                    out = []
                    s2 = st.copy()
                    for s_ in self.assume(st, B('le', pos + cnt - z)):
                        self.set_size(s_, base, z - cnt)
                        out.append((s_, ci.obj))
                    for s_ in self.assume(s2, B('le', z - pos - cnt + 1)):
                        self.set_size(s_, base, pos)
                        out.append((s_, ci.obj))
                    return out
                return [(st, ci.obj)]
            x = self.iter_val(st, fr, n['c'][0], a[0])
            if len(a) == 2:
                y = self.iter_val(st, fr, n['c'][1], a[1])
                if x.__class__ is Ptr and y.__class__ is Ptr and x.base == y.base and es == 1:
                    self.set_size(st, base, z - (y.off - x.off))
                else:
                    r = self.fresh('erased', None, None, None, 0, 1 << 60)
                    st.cons.add_le(r - z)
                    self.set_size(st, base, r)
            else:
                self.set_size(st, base, z - 1)
            return [(st, x if arrlike else self.fresh_val(st, fr, n, 'it'))]
        if s in ('erase',):
            z = sz()
            r = self.fresh('erased', None, None, None, 0, 1 << 60)
            st.cons.add_le(r - z)
            self.set_size(st, base, r)
            return [(st, self.fresh_val(st, fr, n, 'it'))]
        if s in ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'splice', 'merge'):
            z = sz()
            if k == 'map' and s == 'insert' and len(a) == 1 and a[0].__class__ is Ptr and ('fld', a[0].base, 'first') in st.env:
                key = st.env[('fld', a[0].base, 'first')]
                val = st.env.get(('fld', a[0].base, 'second'))
                tok = self.token(st, base)
                fi = key_atom(('find', base, (key,), tok, st.ep.get(('V', base))), 'find')
                end = [x for x in range(len(ATOMS)) if ATOMS[x].key and ATOMS[x].key[0] == 'end' and ATOMS[x].key[1] == base]
                out = []
                if not self.rule.absent(self, st, base, key) and not any(st.cons.proves_eq(A(fi) - A(x)) for x in end):
                    s2 = st.copy()
                    out.append((s2, self.fresh_val(s2, fr, n, 'ins')))
                at = key_atom(('at', base, key, tok), 'at')
                self.set_size(st, base, z + 1)
                st.cons.add_ne(A(at))
                p = Ptr(('sym', at), Z)
                if val is not None:
                    st.env[p.base] = val
                    self.rule.on_store(self, st, fr, n, p, val)
                return [(st, self.fresh_val(st, fr, n, 'ins'))] + out
            if k == 'vector' and len(a) == 2 and is_iter(ns[0].get('t', '').rstrip('& ')):
                self.set_size(st, base, z + 1)
            elif k in ('vector', 'basic_string', 'deque') and len(a) >= 3 and is_iter(ns[0].get('t', '').rstrip('& ')):
                self.set_size(st, base, z + self.lin(st, added(1)))
            else:
                r = self.fresh('inserted', None, None, None, 0, 1 << 60)
                st.cons.add_le(z - r)
                self.set_size(st, base, r)
            return [(st, self.fresh_val(st, fr, n, 'ins'))]
        if s == 'operator[]' or s == 'at':
            if arrlike or k == 'deque':
                i = self.lin(st, a[0])
                p = Ptr(('buf', base), i.scale(es))
                self.rule.on_access(self, st, fr, n, p, L(es), None, 'index')
                return [(st, p)]
            z = sz()
            r = self.fresh('inserted', None, None, None, 0, 1 << 60)
            st.cons.add_le(z - r)
            st.cons.add_le(L(1) - r)
            kv = keyval(0)
            at = key_atom(('at', base, kv, self.token(st, base)), 'at')
            self.set_size(st, base, r)
            p = Ptr(('sym', at), Z)
            st.cons.add_ne(A(at))
            self.basetype.setdefault(p.base, unq(n.get('t', '')))
            return [(st, p)]
        if s in ('front', 'back') and (arrlike or k == 'deque'):
            z = sz()
            p = Ptr(('buf', base), Z if s == 'front' else (z - 1).scale(es))
            self.rule.on_access(self, st, fr, n, p, L(es), None, s)
            return [(st, p)]
        if s in ('reserve', 'shrink_to_fit', 'rehash', 'get_allocator'):
            return one
        if s == 'swap' and a and a[0].__class__ is Ptr:
            ob = self.objbase(a[0])
            za, zb = sz(), self.size(st, ob)
            self.set_size(st, base, zb)
            self.set_size(st, ob, za)
            return one
        if s in ('find', 'find_first_of', 'rfind') and k == 'basic_string':
            z = sz()
            pos = self.lin(st, a[1]) if len(a) > 1 and s != 'rfind' else Z
            s2 = st.copy()
            r = self.fresh('pos', None, None, None, 0, 1 << 60)
            st.cons.add_le(r - z + 1)
            if st.cons.proves_le(-pos):
                st.cons.add_le(pos - r)
            out = [] if st.cons.bot else [(st, r)]
            out.append((s2, L((1 << 64) - 1)))
            return out
        if s in ('find', 'lower_bound', 'upper_bound', 'count'):
            kv = tuple(keyval(i) for i in range(len(a))) if not arrlike and k != 'deque' else tuple(a)
            key = (s, base, kv, self.token(st, base), st.ep.get(('V', base)))
            if n.get('w'):
                return [(st, self.keyed(key, s, n.get('t'), n.get('w'), n.get('u')))]
            return [(st, Ptr(('sym', key_atom(key, s)), Z))]
        if s == 'substr':
            tmp = ('tmp', fr.id, n['i'])
            self.havoc(st, tmp)
            self.basetype[tmp] = ci.cls
            self.set_size(st, tmp, self.fresh('sub', None, None, None, 0, 1 << 60))
            return [(st, Ptr(tmp, Z))]
        if n.get('cm'):
            return [(st, self.fresh_val(st, fr, n, s))]
        return None

    def clear_cont(self, st, base):
        for k in [k for k in st.env if ('buf', base) in chain(k)]:
            del st.env[k]

    def extent(self, st, base, write=False):
        """Size in bytes of the memory region, if known."""
        r = self.rule.extent(self, st, base)
        if r is not None:
            return r
        v = st.env.get(('ext', base))
        if v is not None:
            return v
        if base[0] == 'buf':
            t = self.basetype.get(base[1]) or ''
            z = self.size(st, base[1]).scale(self.elem_size(t))
            if kind(t) == 'basic_string':
                z = z + 1
            return z
        if base[0] == 'str':
            return L(base[2] + 1)
        if base in self.ext:
            return L(self.ext[base])
        t = self.basetype.get(base)
        if t:
            m = re.match(r'^(.*?) ?\[(\d+)\]$', unq(t))
            if m and sizeof(m.group(1)):
                return L(int(m.group(2)) * sizeof(m.group(1)))
            if base[0] in ('fld', 'loc', 'tmp') and sizeof(t):
                return L(sizeof(t))
        return None

    # ------------------------------------------------------------ functions
    def frame_id(self, parent, node):
        k = (parent, node)
        r = self.frames.get(k)
        if r is None:
            r = len(self.frames) + 1
            self.frames[k] = r
        return r

    def exec_fn(self, fn, st, parent, callnode, args, this, thisbase=None, caps=None, dyn=None):
        """Interprets fn in the context; returns [(state, value)]."""
        fr = Fr()
        fr.fn = fn
        fr.id = self.frame_id(parent.id if parent else 0, (callnode, fn.id))
        fr.this = this
        fr.depth = parent.depth + 1 if parent else 0
        fr.caps = caps
        fr.parent = parent
        fr.node = callnode
        fr.dyn = dyn
        self.stats['functions'].add(fn.id)
        pn = parent.fn.nodes.get(callnode) if parent and not isinstance(callnode, tuple) else None
        for i, p in enumerate(fn.params):
            b = ('loc', fr.id, p['d'])
            self.basetype[b] = p['t']
            if p.get('w') and not p.get('isref'):
                self.ext[b] = p['w'] // 8
            if i < len(args):
                v = args[i]
                an = None
                if pn is not None and i < len(pn.get('c', ())):
                    an = parent.fn.nodes.get(pn['c'][i])
                if p.get('isref'):
                    if v.__class__ is not Ptr or (an is not None and not an.get('lv') and is_scalar(an)):
                        tb = ('tmp', fr.id, 'p%d' % i)
                        st.env[tb] = v
                        v = Ptr(tb, Z)
                    st.env[b] = v
                elif v.__class__ is Ptr and not unq(p['t']).endswith('*') and not is_iter(p['t']) and (an is None or not is_scalar(an)) and p['t'] != 'std::nullptr_t':
                    self.copyobj(st, b, self.objbase(v))
                    self.basetype[b] = p['t']
                else:
                    st.env[b] = v
                    self.keytype.setdefault(b, (p['t'], p.get('w'), p.get('u')))
            else:
                st.env.pop(b, None)
                if p.get('isref') or unq(p['t']).endswith('*'):
                    st.env[b] = self.unknown(st, p['t'], p.get('w'), p.get('u'), p['n'])
                elif p.get('w'):
                    st.env[b] = self.fresh(p['n'], p['t'], p.get('w'), p.get('u'))
        saved = st.nv
        st.stack = st.stack + (saved,)
        st.nv = {}
        outs = self.run(fr, st)
        res = []
        for s in outs:
            v = s.nv.get('ret')
            s.nv = dict(saved)
            s.stack = s.stack[:-1]
            if parent is not None:
                if v.__class__ is Ptr and v.base[0] in ('tmp', 'loc') and v.base[1] == fr.id and not fn.d['rt'].endswith(('*', '&')):
                    nb = ('tmp', parent.id, callnode if not isinstance(callnode, tuple) else str(callnode))
                    if is_iter(fn.d['rt']):
                        pass
                    else:
                        self.basetype.setdefault(v.base, unq(fn.d['rt']))
                        self.copyobj(s, nb, v.base)
                        self.basetype[nb] = unq(fn.d['rt'])
                        v = Ptr(nb, Z)
                dead = fr.id
                for k in [k for k in s.env if is_dead(k, dead)]:
                    del s.env[k]
                for k in [k for k in s.ep if ep_dead(k, dead)]:
                    del s.ep[k]
            if v is None:
                v = Z
            elif v.__class__ is Ptr and v.base[0] == 'loc' and fn.d['rt'].endswith('&') is False and False:
                pass
            res.append((s, v))
        return res

    def run(self, fr, st):
        fn = fr.fn
        fn.flow()
        pend = {fn.entry: [st]}
        inv = {}
        count = {}
        outs = []
        rpo = fn.rpo
        order = fn.order
        heads = fn.heads
        visits = {}
        while pend:
            b = min(pend, key=lambda x: order[x])
            sts = pend.pop(b)
            if b in heads:
                sts = [x for s in sts for x in (lambda r: [s] if r is None else r)(self.rule.at_head(self, s, fr, b, heads[b]))]
                if not sts:
                    continue
            if b in heads and visits.get(b, 0) < self.rule.unroll:
                self.arms = fn.arms()
                sts = self.merge(sts, (b, fr.id)) if len(sts) > 1 else sts
            elif b in heads:
                nxt = {}
                dead = fn.dead(b)
                for s in sts:
                    if dead:
                        for k in [k for k in s.env if (k[1] if k[0] == 'ext' else k)[0] in ('loc', 'fld', 'elem', 'buf') and isdeadloc(k[1] if k[0] == 'ext' else k, fr.id, dead)]:
                            del s.env[k]
                        for k in [k for k in s.ep if k.__class__ is tuple and k[0] != 'F' and isdeadloc(k[1] if k[0] in ('W', 'V') else k, fr.id, dead)]:
                            del s.ep[k]
                    k = self.pkey(s)
                    old = inv.setdefault(b, {}).get(k)
                    if old is None:
                        self.gc(s)
                        inv[b][k] = (s.copy(), new_token())
                        count[(b, k)] = 0
                        nxt[k] = s
                        continue
                    count[(b, k)] += 1
                    self.arms = fn.arms()
                    j = self.join(old[0], s, ('loop', old[1]), count[(b, k)])
                    if j is None:
                        continue
                    inv[b][k] = (j, old[1])
                    nxt[k] = j.copy()
                    # inner loops start over
                    for h in heads:
                        if h != b and h in heads[b] and b not in heads[h]:
                            inv.pop(h, None)
                sts = list(nxt.values())
                if not sts:
                    continue
            elif len(sts) > 1:
                self.arms = fn.arms()
                sts = self.merge(sts, (b, fr.id))
            if b in heads:
                sts = [x for s in sts for x in (lambda r: [s] if r is None else r)(self.rule.past_head(self, s, fr, b))]
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 200:
                raise Broken('no fixpoint in %s' % fn.name)
            self.stats['blocks'] += 1
            if b == fn.exit:
                outs.extend(sts)
                continue
            for s in sts:
                self.budget -= 1
                if self.budget < 0:
                    raise Broken('analysis budget exhausted in %s' % fn.name)
                for s2, succ in self.block(fr, b, s):
                    if s2.cons.bot:
                        continue
                    if succ == fn.exit and fr.parent is not None:
                        self.leave(fr, s2)
                    pend.setdefault(succ, []).append(s2)
        if len(outs) > 1:
            self.arms = ()
            outs = self.merge(outs, ('exit', fr.id))
        return outs

    def leave(self, fr, s):
        pass

    def pkey(self, s):
        return (frozenset(s.g.items()), self.rule.gkey(s))

    def block(self, fr, b, st):
        blk = fr.fn.blocks[b]
        fr.b = b
        states = [st]
        for el in blk['e']:
            nx = []
            for s in states:
                nx.extend(self.step(s, fr, el))
            if len(nx) > 4 * self.rule.K:
                self.arms = fr.fn.arms()
                nx = self.merge(nx, ('mid', fr.id, b), 2 * self.rule.K)
            states = nx
            if not states:
                return
        if blk.get('noret'):
            return
        succs = blk['s']
        tk = blk.get('tk')
        if tk == 'SwitchStmt':
            yield from self.switch(fr, blk, states)
            return
        if tk == 'CXXTryStmt':
            return
        if len(succs) == 2 and 'tc' in blk:
            tc = blk['tc']
            n = fr.fn.nodes.get(tc, {})
            for s in states:
                # the operands of && and || have their own blocks; this is the one of the last operand
                lf = tc
                while fr.fn.nodes.get(lf, {}).get('k') == 'log' and lf not in s.nv:
                    lf = fr.fn.nodes[lf]['c'][1]
                f = self.truth(s, self.get(s, fr, lf))
                s.nv.pop(tc, None) if n.get('k') == 'log' else None
                d = self.decide(s, f) if n.get('v') not in (0, 1, True, False) else bool(n['v'])
                for val, su in ((True, succs[0]), (False, succs[1])):
                    if su is None or d is (not val):
                        continue
                    if su < 0:
                        su = -su - 1
                    s2 = s.copy() if val and d is None else s
                    if d is None:
                        rs = self.assume(s2, f, val)
                    else:
                        rs = [s2]
                    for r in rs:
                        if d is None:
                            self.unwrap(r)
                        r.tr = (r.tr + ((relf(fr.fn.file), blk.get('tl'), val),))[-16:]
                        self.rule.on_branch(self, r, fr, n, f, val)
                        yield r, su
            return
        for s in states:
            for su in succs:
                if su is None:
                    continue
                if su < 0:
                    su = -su - 1
                yield s, su
                break

    def switch(self, fr, blk, states):
        tc = blk['tc']
        n = fr.fn.nodes.get(tc, {})
        for s in states:
            v = self.lin(s, self.get(s, fr, tc))
            rest = s.copy()
            dead = False
            default = None
            for su in blk['s']:
                if su is None:
                    continue
                if su < 0:
                    su = -su - 1
                t = fr.fn.blocks[su]
                if t.get('lk') != 'case':
                    default = su
                    continue
                lo = t.get('cv')
                hi = t.get('cvhi', lo)
                s2 = s.copy()
                if lo == hi:
                    r2 = self.assume(s2, B('eq', v - L(lo)))
                else:
                    r2 = self.assume(s2, BAnd(B('le', L(lo) - v), B('le', v - L(hi))))
                for r in r2:
                    r.tr = (r.tr + ((relf(fr.fn.file), blk.get('tl'), 'case %s' % t.get('cn', lo)),))[-16:]
                    self.rule.on_branch(self, r, fr, n, B('eq', v - L(lo)), True)
                    yield r, su
                if not dead and lo == hi:
                    rs = self.assume(rest, B('ne', v - L(lo)))
                    if not rs:
                        dead = True
                    else:
                        rest = rs[0]
            if default is not None and not dead:
                yield rest, default

    # ------------------------------------------------------------ joins
    def merge(self, sts, where, K=None):
        K = K or self.rule.K
        seen = {}
        out = []
        for s in sts:
            k = s.key() + (frozenset((a, b) for a, b in s.nv.items() if a == 'ret' or a in self.arms),)
            o = seen.get(k)
            if o is None:
                seen[k] = s
                out.append(s)
            else:
                # same memory, other temporaries: keep what they agree on
                for i in [i for i, v in o.nv.items() if s.nv.get(i) != v]:
                    del o.nv[i]
        if len(out) <= K:
            return out
        groups = {}
        for s in out:
            groups.setdefault(self.pkey(s), []).append(s)
        res = []
        for g in groups.values():
            lim = max(1, K // max(1, len(groups)))
            if len(g) > lim:
                its = [set(s.env.items()) for s in g]
                dist = {}
                ids = list(range(len(g)))
                while len(ids) > lim:
                    best = None
                    for x in range(len(ids)):
                        for y in range(x + 1, len(ids)):
                            k = (ids[x], ids[y])
                            d = dist.get(k)
                            if d is None:
                                d = dist[k] = len(its[k[0]] ^ its[k[1]])
                            if best is None or d < best[0]:
                                best = (d, k)
                    x, y = best[1]
                    g.append(self.join(g[x], g[y], where, 0))
                    its.append(set(g[-1].env.items()))
                    ids.remove(x)
                    ids.remove(y)
                    ids.append(len(g) - 1)
                g = [g[i] for i in ids]
            res.extend(g)
        return res

    def join(self, a, b, where, n):
        """Least common weakening; None when b is within a (only for n > 0: loop heads)."""
        self.stats['joins'] += 1
        loop = n > 0
        keys = [k for k in a.env if k in b.env or True]
        for k in b.env:
            if k not in a.env:
                keys.append(k)
        res = St()
        res.env = {}
        res.g = dict(a.g)
        res.tr = a.tr
        res.stack = a.stack
        res.ep = {}
        changed = False
        newtok = {}
        for k in set(a.ep) | set(b.ep):
            x, y = a.ep.get(k), b.ep.get(k)
            if x == y:
                res.ep[k] = x
            elif loop and isinstance(x, tuple) and x[0] == 'J' and x[1] == where:
                res.ep[k] = x
            elif loop:
                res.ep[k] = J(('J', where, str(k)))
                changed = True
            else:
                res.ep[k] = new_token()
                changed = True
        chk = set()
        pa, pb = {}, {}      # phi atom -> value in a / in b
        phis = []

        def val(s, k):
            v = s.env.get(k)
            if v is None:
                if k[0] in ('ext',):
                    return None
                v = self.init_value(s, k)
            return v

        for k in keys:
            if loop and k[0] == 'elem' and not k[2].const and k not in a.env:
                e = J(('J', where, 'el', str(k[1])))
                if b.env[k] != self.init_value(a, k) and res.ep.get(k[1]) != e:
                    if not (isinstance(a.ep.get(k[1]), tuple) and a.ep[k[1]][1] == where):
                        res.ep[k[1]] = e
                        changed = True
                continue
            x, y = val(a, k), val(b, k)
            if x is None or y is None:
                chk.add(k) if k in a.env else None
                continue
            if x == y:
                res.env[k] = x
                continue
            if x.__class__ in (B, BAnd, BOr):
                x = self.lin(a, x)
            if y.__class__ in (B, BAnd, BOr):
                y = self.lin(b, y)
            if x == y:
                res.env[k] = x
                continue
            if x.__class__ is Lin and y.__class__ is Lin:
                own = loop and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and is_phi(x.t[0][0], where, k)
                if own:
                    p = x.t[0][0]
                else:
                    t, w, u = self.keytype.get(k, ('', None, None))
                    lo, hi = self.range(t, w, u)
                    if k[0] == 'fld' and k[2] == '#size':
                        lo, hi = 0, 1 << 60
                    if not (a.cons.rng(x)[0] >= lo and a.cons.rng(x)[1] <= hi and b.cons.rng(y)[0] >= lo and b.cons.rng(y)[1] <= hi):
                        if not u or lo < 0:
                            lo, hi = -INF, INF
                        elif not (a.cons.proves_le(L(lo) - x) and b.cons.proves_le(L(lo) - y)):
                            lo, hi = -INF, INF
                        elif hi != INF and not (a.cons.proves_le(x - L(hi)) and b.cons.proves_le(y - L(hi))):
                            hi = INF
                    p = new_atom('phi_' + keyname(k), lo, hi, ('phi', where, k))
                    chk.add(k)
                pa[p], pb[p] = x, y
                phis.append((p, k, own))
                res.env[k] = A(p)
            elif x.__class__ is Ptr and y.__class__ is Ptr and x.base == y.base:
                xo, yo = x.off, y.off
                own = loop and len(xo.t) == 1 and xo.c == 0 and xo.t[0][1] == 1 and is_phi(xo.t[0][0], where, k)
                if own:
                    p = xo.t[0][0]
                else:
                    p = new_atom('phi_' + keyname(k), -INF, INF, ('phi', where, k))
                    chk.add(k)
                pa[p], pb[p] = xo, yo
                phis.append((p, k, own))
                res.env[k] = Ptr(x.base, A(p))
            elif x.__class__ is Ptr and y.__class__ is Ptr:
                own = loop and x.base[0] == 'sym' and is_phi(x.base[1], where, k) and x.off == Z
                # only nullness is kept
                if own:
                    p = x.base[1]
                else:
                    p = new_atom('phi_' + keyname(k), 0, 1 << 63, ('phi', where, k))
                    chk.add(k)
                bp = ('sym', p)
                t = self.keytype.get(k, ('',))[0]
                if unq(t).endswith('*'):
                    self.basetype.setdefault(bp, unq(unq(t)[:-1]))
                res.env[k] = Ptr(bp, Z)
                na, nb = self.decide(a, self.truth(a, x)), self.decide(b, self.truth(b, y))
                phis.append((p, k, own))
                pa[p] = L(0) if na is False else None
                pb[p] = L(0) if nb is False else None
                nn = na is True and nb is True
                res_ne = getattr(self, '_rn', None)
                pa[p] = ('nn', na)
                pb[p] = ('nn', nb)
            else:
                chk.add(k) if k in a.env else None
                # drop: an unknown from here on
                res.ep[k] = J(('J', where, 'drop', str(k))) if loop else new_token()
        # what is said in terms of a value that changes per iteration is about its old value
        chg = {p for p, k, own in phis if own and pb[p] != A(p)} if loop else ()
        deps = {}

        def dep(x):
            c = x.__class__
            if c is Lin:
                return any(depa(i) for i, _ in x.t)
            if c is Ptr:
                return dep(x.base) or dep(x.off)
            if c is B:
                return dep(x.lin)
            if c is tuple:
                if len(x) == 2 and x[0] == 'sym' and x[1].__class__ is int:
                    return depa(x[1])
                return any(dep(i) for i in x if i.__class__ not in (str, int))
            if c in (BAnd, BOr):
                return dep(x.a) or dep(x.b)
            return False

        def depa(i):
            if i in chg:
                return True
            r = deps.get(i)
            if r is None:
                deps[i] = False
                k = ATOMS[i].key
                r = deps[i] = bool(k) and k[0] != 'phi' and dep(k[1:])
            return r

        def depx(c):
            return any(i not in chg and depa(i) for i, _ in c.t)
        if chg:
            for k in [k for k in res.env if k[0] != 'ext' and dep(k)]:
                del res.env[k]
                chk.discard(k)
                if k in a.env:
                    changed = True
                    res.ep[k] = J(('J', where, 'dep', str(k)))
        changed = changed or bool(chk)
        # node values in flight
        res.nv = {}
        for i, v in a.nv.items():
            if b.nv.get(i) == v:
                res.nv[i] = v
            elif i == 'ret' and not loop:
                y = b.nv.get(i)
                if y is None:
                    continue
                x2 = self.lin(a, v) if v.__class__ in (B, BAnd, BOr) else v
                y2 = self.lin(b, y) if y.__class__ in (B, BAnd, BOr) else y
                if x2.__class__ is Lin and y2.__class__ is Lin:
                    p = new_atom('phi_ret')
                    pa[p], pb[p] = x2, y2
                    phis.append((p, ('ret',), False))
                    res.nv[i] = A(p)
                elif x2.__class__ is Ptr and y2.__class__ is Ptr:
                    p = new_atom('phi_ret', 0, 1 << 63)
                    na, nb = self.decide(a, self.truth(a, x2)), self.decide(b, self.truth(b, y2))
                    pa[p], pb[p] = ('nn', na), ('nn', nb)
                    phis.append((p, ('ret',), False))
                    if x2.base[0] in ('tmp', 'loc') or y2.base[0] in ('tmp', 'loc'):
                        continue
                    res.nv[i] = Ptr(('sym', p), Z)
        for i in self.arms:
            if i not in res.nv and (i in a.nv or i in b.nv):
                x, y = a.nv.get(i), b.nv.get(i)
                if x.__class__ is Ptr or y.__class__ is Ptr:
                    res.nv[i] = Ptr(('sym', new_atom('arm', 0, 1 << 63)), Z)
                elif x.__class__ in (B, BAnd, BOr, None.__class__) and y.__class__ in (B, BAnd, BOr, None.__class__):
                    res.nv[i] = A(new_atom('arm', 0, 1))
                else:
                    res.nv[i] = A(new_atom('arm'))
        # constraints
        cand_le, cand_ne = {}, {}
        sa = {p: v for p, v in pa.items() if v.__class__ is Lin}
        sb = {p: v for p, v in pb.items() if v.__class__ is Lin}
        inv_a = self.invert(sa)
        inv_b = self.invert(sb)
        for c in a.cons.le:
            cand_le[c] = None
        for c in a.cons.ne:
            cand_ne[c] = None
        for c in b.cons.ne:
            cand_ne[c] = None
        fresh_phi = [p for p, k, own in phis if not own and p in sa]
        if not loop or n <= 2 or fresh_phi:
            for c in list(a.cons.le):
                for c2 in self.rewrite(c, inv_a):
                    cand_le[c2] = None
            if not loop or n <= 2:
                for c in list(b.cons.le):
                    cand_le[c] = None
                    for c2 in self.rewrite(c, inv_b):
                        cand_le[c2] = None
            for c in list(a.cons.ne):
                for c2 in self.rewrite(c, inv_a):
                    cand_ne[c2] = None
            if not loop:
                for c in list(b.cons.ne):
                    for c2 in self.rewrite(c, inv_b):
                        cand_ne[c2] = None
        for p in fresh_phi:
            x, y = sa[p], sb[p]
            P = A(p)
            la, ha = a.cons.rng(x)
            lb, hb = b.cons.rng(y)
            lo, hi = min(la, lb), max(ha, hb)
            if lo != -INF and lo > ATOMS[p].lo:
                cand_le[L(int(lo)) - P] = None
                if lb < la:
                    cand_le[L(int(lo) - 1) - P] = None
            if hi != INF and hi < ATOMS[p].hi:
                cand_le[P - L(int(hi))] = None
                if hb > ha:
                    cand_le[P - L(int(hi) + 1)] = None
            if loop:
                cand_le[x - P] = None
                cand_le[P - x] = None
            else:
                cand_le[x - P] = None
                cand_le[P - x] = None
                cand_le[y - P] = None
                cand_le[P - y] = None
            if loop:
                # the counter stays within what bounded it
                pass
        # affine relations between pairs of changed values
        for i, p in enumerate(fresh_phi):
            dp = sb[p] - sa[p]
            for q in fresh_phi[i + 1:]:
                dq = sb[q] - sa[q]
                for (u_, du, v_, dv) in ((p, dp, q, dq), (q, dq, p, dp)):
                    done = False
                    for k in (1, -1, 2, -2, 4, -4, 8, -8, 16, 24, 32):
                        if du == dv.scale(k):
                            e = (A(u_) - A(v_).scale(k)) - (sa[u_] - sa[v_].scale(k))
                            cand_le[e] = None
                            cand_le[-e] = None
                            done = True
                            break
                    if done:
                        break
        if loop and fresh_phi and chg:
            for c in base_le_(a):
                if len(c.t) > 4 or not any(x in chg for x, _ in c.t):
                    continue
                dc = c.subst(sb) - c.subst(sa)
                if not dc.const or not dc.c:
                    continue
                for p in fresh_phi:
                    dp = sb[p] - sa[p]
                    if dp.const and dp.c and dc.c % dp.c == 0:
                        k = -dc.c // dp.c
                        cand_le[c + (A(p) - sa[p]).scale(k)] = None
        # sums and differences of changed values
        if len(fresh_phi) <= 10:
            for i, p in enumerate(fresh_phi):
                for q in fresh_phi[i + 1:]:
                    for sg in (1, -1):
                        e = A(p) + A(q).scale(sg)
                        ea = sa[p] + sa[q].scale(sg)
                        eb = sb[p] + sb[q].scale(sg)
                        if ea == eb:
                            continue
                        for x in (ea, eb):
                            if len(x.t) <= 1 and x.t:
                                for c in (e - x, x - e):
                                    if c not in cand_le and a.cons.proves_le(c.subst(sa), 1) and b.cons.proves_le(c.subst(sb), 1):
                                        cand_le[c] = None
        # octagonal templates: a changed value against the values it is bounded by elsewhere
        strong = set()
        if loop and fresh_phi and len(fresh_phi) <= 12:
            tp = {}
            for cs in (a.cons.le, b.cons.le):
                for c in cs:
                    if len(c.t) <= 3:
                        for x, k in c.t:
                            tp[x] = None
            tp = [x for x in tp if x not in chg and x not in sa and (ATOMS[x].key is None or ATOMS[x].key[0] != 'b')]
            tp = [x for x in tp if a.cons.rng(A(x))[0] != a.cons.rng(A(x))[1] or b.cons.rng(A(x)) != a.cons.rng(A(x))]
            if len(tp) <= 40:
                for p in fresh_phi:
                    P = A(p)
                    for x in tp:
                        N = A(x)
                        for d in (P - N, N - P):
                            xa, xb = d.subst(sa), d.subst(sb)
                            h = max(a.cons.hi(xa), b.cons.hi(xb))
                            if h < 0 and h != -INF and d - int(h) not in cand_le:
                                cand_le[d - int(h)] = None
                            for k in ((1, 0, -1) if h > 1 else (0,)):
                                c = d + k
                                if c in cand_le:
                                    continue
                                if k <= 0 and self.rule.strong and len(fresh_phi) <= 4:
                                    if a.cons.proves(xa + k) and b.cons.proves(xb + k):
                                        cand_le[c] = None
                                        strong.add(c)
                                        break
                                elif a.cons.proves_le(xa + k, 1) and b.cons.proves_le(xb + k, 1):
                                    cand_le[c] = None
                                    break
            for i, p in enumerate(fresh_phi):
                for q in fresh_phi[i + 1:] + [q for q in sorted(chg) if q in sa]:
                    for d in (A(p) - A(q), A(q) - A(p)):
                        for k in (1, 0, -1):
                            c = d + k
                            if a.cons.proves_le(c.subst(sa), 1) and b.cons.proves_le(c.subst(sb), 1):
                                cand_le[c] = None
                                break
            if len(fresh_phi) <= 5 and len(tp) <= 24:
                # one goes up while the other goes down
                tp = tp + [x for x in dict.fromkeys(x for p in fresh_phi for v in (sa[p],) for x, _ in v.t) if x not in tp and x not in chg and x not in sa]
                for i, p in enumerate(fresh_phi):
                    for q in fresh_phi[i + 1:] + [q for q in sorted(chg) if q in sa]:
                        for x in tp:
                            d = A(p) + A(q) - A(x)
                            for c in (d, -d):
                                if c not in cand_le and a.cons.proves_le(c.subst(sa), 1) and b.cons.proves_le(c.subst(sb), 1):
                                    cand_le[c] = None
        for c in self.rule.templates(self, res.env):
            cand_le[c] = None
        cons = Cons()
        kept = 0
        dropped = False
        base_le = a.cons.le
        dp_ = 4 if loop else 3
        for c in cand_le:
            if not c.t:
                continue
            if chg and depx(c):
                if c in base_le:
                    dropped = True
                continue
            if c in cons.le or not loop and cons.proves_le(c, 1):
                continue
            if c in strong or (a.cons.proves_le(c.subst(sa) if sa else c, dp_) and (b.cons.proves_le(c.subst(sb) if sb else c, dp_) or
                                                                                    c in base_le and self.rule.strong and loop and b.cons.proves(c.subst(sb) if sb else c))):
                cn = norm_le(c)
                cons.le[cn] = None
                cons._dirty()
            elif loop and c in base_le:
                dropped = True
        for c in cand_ne:
            if chg and depx(c):
                if c in a.cons.ne:
                    dropped = True
                continue
            if a.cons.proves_ne(c.subst(sa) if sa else c) and b.cons.proves_ne(c.subst(sb) if sb else c):
                cons.ne[c] = None
            elif loop and c in a.cons.ne:
                dropped = True
        for p, k, own in phis:
            if pa[p].__class__ is tuple:
                x, y = pa[p][1], pb[p][1]
                if own:
                    # nullness of the invariant against the incoming value
                    if x is True and y is not True:
                        cons.ne.pop(A(p), None)
                        dropped = True
                    elif x is False and y is not False:
                        for c in (A(p), -A(p)):
                            cons.le.pop(c, None)
                        dropped = True
                else:
                    if x is True and y is True:
                        cons.ne[A(p)] = None
                    elif x is False and y is False:
                        cons.le[A(p)] = None
        if loop and not changed and not dropped:
            return None
        res.cons = cons
        self.gc(res)
        if loop and res.env == a.env and res.ep == a.ep and res.cons.le.keys() == a.cons.le.keys() and res.cons.ne.keys() == a.cons.ne.keys():
            return None
        return res

    def invert(self, sub):
        """For phi -> lin over atoms: atom -> expression in phi, where solvable."""
        inv = {}
        for p, v in sub.items():
            if v.const:
                continue
            for x, k in v.t:
                if abs(k) == 1 and x != p:
                    # p = k*x + rest  =>  x = k*(p - rest)
                    rest = v - Lin(0, ((x, k),))
                    inv.setdefault(x, []).append((A(p) - rest).scale(k))
                    break
        return inv

    def rewrite(self, c, inv):
        out = []
        xs = [x for x, _ in c.t if x in inv]
        if not xs:
            return out
        for x in xs[:3]:
            for e in inv[x][:4]:
                r = c.subst({x: e})
                out.append(r)
        if len(xs) > 1:
            out.append(c.subst({x: inv[x][0] for x in xs}))
        return out

    def gc(self, st):
        """Forgets memory behind pointers nothing refers to any more, and facts about it."""
        live = set()
        work = []
        toks = {v for v in st.ep.values()}
        seen = {}

        def addv(v):
            c = v.__class__
            if c is Lin:
                for a, _ in v.t:
                    if a not in live:
                        live.add(a)
                        work.append(a)
            elif c is Ptr:
                addbase(v.base)
                addv(v.off)
            elif c is B:
                addv(v.lin)
            elif c in (BAnd, BOr):
                addv(v.a)
                addv(v.b)
            elif c is Lam:
                for _, l in v.caps:
                    addv(l)
                if v.this:
                    addbase(v.this)
            elif c in (tuple, frozenset):
                if c is tuple and len(v) == 2 and v[0] == 'sym' and v[1].__class__ is int:
                    addbase(v)
                else:
                    for x in v:
                        if x.__class__ not in (str, int, Tok):
                            addv(x)

        def addbase(b):
            for x in chain(b):
                if x[0] == 'sym':
                    if x[1] not in live:
                        live.add(x[1])
                        work.append(x[1])
                elif x[0] == 'tmp':
                    if x not in live:
                        live.add(x)
                        work.append(x)
                elif x[0] == 'elem':
                    addv(x[2])

        def current(x):
            """Whether evaluating the same expression now gives the same term."""
            c = x.__class__
            if c in (Tok, J):
                return x in toks
            if c is Lin:
                return all(again(i) for i, _ in x.t)
            if c is Ptr:
                return current(x.base) and current(x.off)
            if c is B:
                return current(x.lin)
            if c is tuple:
                if len(x) == 2 and x[0] == 'sym' and x[1].__class__ is int:
                    return again(x[1])
                return all(current(y) for y in x if y.__class__ not in (str, int))
            if c in (BAnd, BOr):
                return current(x.a) and current(x.b)
            return True

        def again(i):
            if i in live:
                return True
            r = seen.get(i)
            if r is None:
                seen[i] = False
                k = ATOMS[i].key
                r = seen[i] = bool(k) and k[0] != 'phi' and current(k[1:])
            return r

        pend = {}
        for k, v in st.env.items():
            if k[0] == 'ext':
                r = root(k[1])
                if r[0] == 'sym':
                    pend.setdefault(r[1], []).append((k[1], v))
                elif r[0] == 'tmp':
                    pend.setdefault(r, []).append((k[1], v))
                else:
                    addv(v)
                continue
            r = root(k)
            if r[0] == 'sym':
                pend.setdefault(r[1], []).append((k, v))
            elif r[0] == 'tmp':
                pend.setdefault(r, []).append((k, v))
            else:
                addbase(k)
                addv(v)
        for d in (st.nv,) + st.stack:
            for v in d.values():
                addv(v)
        for v in st.g.values():
            addv(v)
        for v in self.rule.roots(st):
            addv(v)
        while True:
            while work:
                a = work.pop()
                for k, v in pend.pop(a, ()):
                    addbase(k)
                    addv(v)
                k = ATOMS[a].key if a.__class__ is int else None
                if k and k[0] != 'phi':
                    for x in k[1:]:
                        if x.__class__ not in (str, int):
                            addv(x)
            for r in pend:
                if r.__class__ is int and again(r):
                    live.add(r)
                    work.append(r)
                    break
            else:
                break
            seen.clear()
        if pend:
            for k in [k for k in st.env if epsym(k) is not None and epsym(k) not in live]:
                del st.env[k]
        for k in [k for k in st.ep if epsym(k) is not None and epsym(k) not in live and (k.__class__ is tuple and epsym(k).__class__ is tuple or not again(epsym(k)))]:
            del st.ep[k]
        # project the facts about forgotten terms away
        dead = {}
        for c in st.cons.le:
            for a, k in c.t:
                if a not in live and not again(a):
                    dead.setdefault(a, 0)
        if dead:
            le = dict(st.cons.le)
            byat = {}
            for c in le:
                for a, k in c.t:
                    if a in dead:
                        byat.setdefault(a, set()).add(c)
            for a in sorted(dead, key=lambda x: len(byat.get(x, ()))):
                cs = byat.pop(a, set())
                pos = [(c, c.coef(a)) for c in cs if c in le]
                neg = [(c, k) for c, k in pos if k < 0]
                pos = [(c, k) for c, k in pos if k > 0]
                for c in cs:
                    le.pop(c, None)
                if len(pos) * len(neg) <= 16:
                    at = ATOMS[a]
                    if at.hi != INF and at.hi < 1 << 62 and neg:
                        pos = pos + [(A(a) - L(at.hi), 1)]
                    if at.lo != -INF and at.lo > -(1 << 62) and pos:
                        neg = neg + [(L(at.lo) - A(a), -1)]
                    for p, kp in pos:
                        for n, kn in neg:
                            r = norm_le(comb(p, -kn, n, kp))
                            if not r.t or len(r.t) > 4 or r in le or st.cons.hi(r) <= 0:
                                continue
                            le[r] = None
                            for x, _ in r.t:
                                if x in dead and x in byat:
                                    byat[x].add(r)
            if le.keys() != st.cons.le.keys():
                st.cons.le = le
                st.cons._dirty()
        for c in [c for c in st.cons.ne if any(a not in live and not again(a) for a, _ in c.t)]:
            del st.cons.ne[c]


def base_le_(a):
    return list(a.cons.le)


def epsym(k):
    if k.__class__ is not tuple:
        return None
    if k[0] in ('W', 'V', 'ext'):
        return epsym(k[1])
    if k[0] == 'F':
        return None
    r = root(k)
    return r[1] if r[0] == 'sym' else r if r[0] == 'tmp' else None


_tok = [0]


class Tok(int):
    """Identifies one state of a memory region in the keys of the terms about it."""
    __slots__ = ()


class J(tuple):
    """The same, for the region at a loop head."""
    __slots__ = ()


def new_token():
    _tok[0] += 1
    return Tok(_tok[0])


def init_atom(a):
    k = ATOMS[a].key
    return bool(k) and k[0] in ('init', 'cm', 'b', 'div', 'mod', 'and')


def is_phi(a, where, k):
    key = ATOMS[a].key
    return bool(key) and key[0] == 'phi' and key[1] == where and key[2] == k


def rebase(k, src, dst):
    if k == src:
        return dst
    if k[0] in ('fld', 'elem'):
        return (k[0], rebase(k[1], src, dst), k[2])
    if k[0] == 'buf':
        return ('buf', rebase(k[1], src, dst))
    return k


def isdeadloc(k, frame, dead):
    r = root(k)
    return r[0] == 'loc' and r[1] == frame and r[2] in dead


def is_dead(k, frame):
    r = root(k)
    if r[0] in ('loc', 'tmp'):
        return r[1] == frame
    if r[0] == 'ext':
        return root(r[1])[0] in ('loc', 'tmp') and root(r[1])[1] == frame
    return False


def ep_dead(k, frame):
    if not isinstance(k, tuple):
        return False
    if k[0] in ('W', 'V'):
        return isinstance(k[1], tuple) and ep_dead(k[1], frame)
    if k[0] == 'F':
        return False
    r = root(k)
    return r[0] in ('loc', 'tmp') and r[1] == frame


def is_scalar(n):
    t = unq(n.get('t', ''))
    return bool(n.get('w')) or t.endswith('*') or is_float(t) or is_iter(t) or t == 'std::nullptr_t'


def keyname(k):
    if k[0] == 'fld':
        return keyname(k[1]) + '.' + str(k[2]) if k[1][0] in ('fld',) else str(k[2])
    if k[0] == 'loc':
        return 'v%s' % k[2]
    if k[0] == 'g':
        return k[1]
    if k[0] == 'elem':
        return keyname(k[1]) + '[]'
    return k[0]


def relf(f):
    from model import rel
    return rel(f)


def hk(v):
    return v
