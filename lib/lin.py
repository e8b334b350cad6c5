"""Linear terms over atoms, and the relational numeric domain (conjunctions of
linear constraints) used by the abstract interpreter."""
from math import gcd

INF = float('inf')


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'ax', 'name')


ATOMS = []
ATOMKEY = {}


def reset_atoms():
    ATOMS.clear()
    ATOMKEY.clear()


def new_atom(name, lo=-INF, hi=INF, key=None):
    a = Atom()
    a.id = len(ATOMS)
    a.key = key
    a.lo, a.hi = lo, hi
    a.ax = ()
    a.name = name
    ATOMS.append(a)
    return a.id


def key_atom(key, name=None, lo=-INF, hi=INF):
    """The atom of an uninterpreted term: equal keys, equal atoms."""
    r = ATOMKEY.get(key)
    if r is None:
        r = new_atom(name or str(key)[:60], lo, hi, key)
        ATOMKEY[key] = r
    return r


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, self.t))
        return self.h

    def __eq__(self, o):
        return o.__class__ is Lin and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def coef(self, a):
        for x, k in self.t:
            if x == a:
                return k
        return 0

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin(self.c)
        for a, k in self.t:
            r = r + (m[a].scale(k) if a in m else Lin(0, ((a, k),)))
        return r

    def __repr__(self):
        s = ''
        for a, k in self.t:
            n = ATOMS[a].name if a < len(ATOMS) else '?'
            s += '%s%s%s#%d' % ('+' if k > 0 and s else '', '' if k == 1 else '-' if k == -1 else '%d*' % k, n, a)
        if self.c or not s:
            s += '%+d' % self.c if s else '%d' % self.c
        return s


def L(x):
    return Lin(x)


def A(atom):
    return Lin(0, ((atom, 1),))


def comb(x, kx, y, ky):
    """kx * x + ky * y"""
    d = {a: k * kx for a, k in x.t}
    for a, k in y.t:
        n = d.get(a, 0) + k * ky
        if n:
            d[a] = n
        else:
            del d[a]
    return Lin(x.c * kx + y.c * ky, tuple(sorted(d.items())))


def norm_le(l):
    """Normal form of the constraint l <= 0 over integers."""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        if k == 1 or k == -1:
            return l
        g = gcd(g, k)
    if g > 1:
        c = -((-l.c) // g)  # ceil(c/g)
        return Lin(c, tuple((a, k // g) for a, k in l.t))
    return l


class Cons:
    """A conjunction of constraints lin <= 0 and lin != 0."""
    __slots__ = ('le', 'ne', '_b', '_i', '_m', 'bot')

    def __init__(self, le=(), ne=()):
        self.le = dict.fromkeys(le)
        self.ne = dict.fromkeys(ne)
        self._b = None
        self._i = None
        self._m = {}
        self.bot = False

    def copy(self):
        c = Cons.__new__(Cons)
        c.le = dict(self.le)
        c.ne = dict(self.ne)
        c._b = self._b
        c._i = self._i
        c._m = self._m
        c.bot = self.bot
        return c

    def _dirty(self):
        self._b = None
        self._i = None
        self._m = {}

    def bounds(self):
        b = self._b
        if b is None:
            b = {}
            for l in self.le:
                if len(l.t) == 1:
                    a, k = l.t[0]
                    lo, hi = b.get(a, (-INF, INF))
                    if k > 0:
                        hi = min(hi, (-l.c) // k)
                    else:
                        lo = max(lo, _ceil(l.c, -k))
                    b[a] = (lo, hi)
            self._b = b
        return b

    def index(self):
        i = self._i
        if i is None:
            i = {}
            for l in self.le:
                if len(l.t) > 1:
                    for a, k in l.t:
                        i.setdefault(a, []).append((l, k))
            self._i = i
        return i

    def rng(self, l):
        b = self.bounds()
        lo = hi = l.c
        for a, k in l.t:
            at = ATOMS[a]
            x = b.get(a)
            if x:
                al, ah = max(x[0], at.lo), min(x[1], at.hi)
            else:
                al, ah = at.lo, at.hi
            if k > 0:
                lo += k * al
                hi += k * ah
            else:
                lo += k * ah
                hi += k * al
        return lo, hi

    def hi(self, l):
        b = self.bounds()
        hi = l.c
        for a, k in l.t:
            at = ATOMS[a]
            x = b.get(a)
            if k > 0:
                h = at.hi
                if x and x[1] < h:
                    h = x[1]
            else:
                h = at.lo
                if x and x[0] > h:
                    h = x[0]
            hi += k * h
        return hi

    def proves_le(self, l, depth=4):
        """Whether l <= 0 follows."""
        if self.bot:
            return True
        l = norm_le(l)
        if not l.t:
            return l.c <= 0
        if l in self.le:
            return True
        m = self._m.get(l)
        if m is not None and (m is True or m >= depth):
            return m is True
        r = False
        budget = [150 if depth <= 4 else 4000]
        for d in range(1, depth + 1):
            r = self._prove(l, d, {}, budget)
            if r or budget[0] <= 0:
                break
        self._m[l] = True if r else depth
        return r

    def _prove(self, l, depth, seen, budget):
        # upper bound of l from the bounds of its atoms; the atoms that are too
        # wide for that have to be eliminated by a relation
        b = self.bounds()
        hi = l.c
        wide = None
        wc = 1 << 31
        for a, k in l.t:
            at = ATOMS[a]
            x = b.get(a)
            if k > 0:
                h = at.hi
                if x and x[1] < h:
                    h = x[1]
            else:
                h = at.lo
                if x and x[0] > h:
                    h = x[0]
            h *= k
            hi += h
            if h > wc:
                wc = h
                wide = (a, k)
        if hi <= 0:
            return True
        if depth == 0 or seen.get(l, 0) >= depth or budget[0] <= 0:
            return False
        budget[0] -= 1
        seen[l] = depth
        idx = self.index()
        for a, k in ((wide,) if wide else l.t):
            ak = k if k > 0 else -k
            for c, ck in idx.get(a, ()):
                if (ck > 0) == (k > 0):
                    m = ck if ck > 0 else -ck
                    n = comb(l, m, c, -ak)
                    # over the integers, l <= 0 when m * l < m
                    n = norm_le(n if m == 1 else n - (m - 1))
                    if not n.t:
                        if n.c <= 0:
                            return True
                        continue
                    if len(n.t) <= 6 and self._prove(n, depth - 1, seen, budget):
                        return True
            for c in ATOMS[a].ax:
                ck = c.coef(a)
                if ck and (ck > 0) == (k > 0):
                    m = ck if ck > 0 else -ck
                    n = comb(l, m, c, -ak)
                    # over the integers, l <= 0 when m * l < m
                    n = norm_le(n if m == 1 else n - (m - 1))
                    if not n.t:
                        if n.c <= 0:
                            return True
                        continue
                    if len(n.t) <= 6 and self._prove(n, depth - 1, seen, budget):
                        return True
        return False

    def proves(self, l):
        """proves_le for obligations: tries harder."""
        return self.proves_le(l) or self.proves_le(l, 8) or self.refutes(norm_le(l))

    def refutes(self, l):
        """Whether l >= 1 contradicts the constraints, by elimination of the atoms (with integer tightening)."""
        if not l.t:
            return l.c <= 0
        k = ('fm', l)
        r = self._m.get(k)
        if r is None:
            r = self._m[k] = self._fm(l)
        return r

    def _fm(self, l):
        cs = {norm_le((-l) + 1): None}
        atoms = {}
        todo = [a for a, _ in l.t]
        idx = self.index()
        while todo:
            a = todo.pop(0)
            if a in atoms:
                continue
            if len(atoms) >= 10:
                break
            atoms[a] = None
            for c in [c for c, _ in idx.get(a, ())] + list(ATOMS[a].ax):
                if len(c.t) <= 5:
                    todo.extend(b for b, _ in c.t if b not in atoms)
        for a in atoms:
            for c in [c for c, _ in idx.get(a, ())] + list(ATOMS[a].ax):
                if all(b in atoms for b, _ in c.t):
                    cs[norm_le(c)] = None
        b = self.bounds()
        for a in atoms:
            at = ATOMS[a]
            lo, hi = b.get(a, (-INF, INF))
            lo, hi = max(lo, at.lo), min(hi, at.hi)
            if hi < INF:
                cs[A(a) - hi] = None
            if lo > -INF:
                cs[A(a).scale(-1) + lo] = None
        rest = set(atoms)
        while rest:
            best = None
            for a in rest:
                p = n = 0
                for c in cs:
                    k = c.coef(a)
                    if k > 0:
                        p += 1
                    elif k < 0:
                        n += 1
                w = p * n - p - n
                if best is None or w < best[0]:
                    best = (w, a)
            a = best[1]
            rest.discard(a)
            pos, neg, new = [], [], {}
            for c in cs:
                k = c.coef(a)
                if k > 0:
                    pos.append((c, k))
                elif k < 0:
                    neg.append((c, -k))
                else:
                    new[c] = None
            if len(pos) * len(neg) + len(new) > 400:
                return False
            for c, k in pos:
                for d, j in neg:
                    g = gcd(k, j)
                    n = norm_le(comb(c, j // g, d, k // g))
                    if not n.t:
                        if n.c > 0:
                            return True
                    else:
                        new[n] = None
            cs = new
        return any(c.c > 0 for c in cs if not c.t)

    def proves_ne(self, l):
        if self.bot:
            return True
        if not l.t:
            return l.c != 0
        if l in self.ne or -l in self.ne:
            return True
        return self.proves_le(l + 1) or self.proves_le((-l) + 1)

    def proves_eq(self, l):
        if not l.t:
            return l.c == 0
        return self.proves_le(l) and self.proves_le(-l)

    def add_le(self, l):
        l = norm_le(l)
        if not l.t:
            if l.c > 0:
                self.bot = True
            return
        if l in self.le:
            return
        l = self._multiple(l)
        if self.proves_le(l):
            return
        if self.proves_le((-l) + 1):
            self.bot = True
            return
        self.le[l] = None
        self._dirty()
        for n in list(self.ne):
            # x != 0 together with x <= 0 gives x <= -1
            if set(a for a, _ in n.t) <= set(a for a, _ in l.t) or len(n.t) == 1:
                if any(a in dict(l.t) for a, _ in n.t):
                    self._tighten(n)

    def _multiple(self, l):
        """Tightens l <= 0 by an atom that is known to be a multiple."""
        if not 2 <= len(l.t) <= 3:
            return l
        for a, k in l.t:
            if k != 1 and k != -1:
                continue
            g = 0
            for b, j in l.t:
                if b != a:
                    g = gcd(g, j)
            if g < 2 or l.c % g == 0:
                continue
            for e in self.le:
                if len(e.t) == 2 and not e.c:
                    d = dict(e.t)
                    if d.get(a) in (1, -1) and all(j % g == 0 for b, j in e.t if b != a) and -e in self.le:
                        return l + (-l.c) % g       # everything else is a multiple of g
        return l

    def _tighten(self, n):
        if n not in self.ne:
            return
        if self.proves_le(-n):
            self.ne.pop(n, None)
            self._dirty()
            self.add_le((-n) + 1)
        elif self.proves_le(n):
            self.ne.pop(n, None)
            self._dirty()
            self.add_le(n + 1)

    def add_ne(self, l):
        if not l.t:
            if l.c == 0:
                self.bot = True
            return
        if l in self.ne or -l in self.ne:
            return
        if self.proves_eq(l):
            self.bot = True
            return
        self.ne[l] = None
        self._tighten(l)

    def add_eq(self, l):
        if not l.t:
            if l.c != 0:
                self.bot = True
            return
        if l in self.ne or -l in self.ne:
            self.bot = True
            return
        self.add_le(l)
        self.add_le(-l)

    def key(self):
        return (frozenset(self.le), frozenset(self.ne))


def _ceil(c, k):
    # lower bound from  -k*a + c <= 0  (k>0):  a >= c/k
    return -((-c) // k)
