"""Shared specification helpers (independent of the code under verification)."""
import numpy as np
from pyvc import terms as T
from pyvc import arr as A
from pyvc.terms import Unsupported
z3 = T.z3

VISP = [a + b for fs in ('xy', 'rl', 'en') for a in fs for b in fs]


def rev_pol(p):
    return p[::-1]


def rev(k):
    return (k[1], k[0]) + tuple(p[::-1] for p in k[2:])


def feeds(k):
    """(ant, feed) keys of a baseline, per the convention 'ab' -> Jaa, Jbb"""
    return (k[0], 'J' + k[2][0] * 2), (k[1], 'J' + k[2][1] * 2)


def keq(c, a, b):
    """keys equal (symbolic condition)"""
    if len(a) != len(b):
        return c.eq(0, 1)
    return c.and_(*[(c.eq(x, y) if not isinstance(x, str) else c.eq(0, 0 if x == y else 1)) for x, y in zip(a, b)])


def same_bl(c, a, b):
    return c.or_(keq(c, a, b), keq(c, rev(a), b))


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


class SymMap(dict):
    """Unbounded map (i, j, pol) -> array: presence and contents are uninterpreted functions of the key.
    Stands for an arbitrary container store in the pre-state; later writes are kept exactly."""

    def __init__(self, c, name, pols, shape, dtype, reverse=rev, conflict_free=True):
        super().__init__()
        self.c, self.name, self.pols, self.shp, self.dt = c, name, list(pols), shape, np.dtype(dtype)
        self.rv, self.cf = reverse, conflict_free
        self.over = []

    def _ok(self, key):
        return isinstance(key, tuple) and len(key) == 3 and isinstance(key[2], str) and key[2] in self.pols

    def present0(self, key):
        if not self._ok(key):
            return z3.BoolVal(False)
        z = lambda k: (A.zi(k[0]), A.zi(k[1]))
        P = z3.Function(f'{self.name}.has.{key[2]}', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        t = P(*z(key))
        if self.cf:
            r = self.rv(key)
            if self._ok(r):
                Q = z3.Function(f'{self.name}.has.{r[2]}', z3.IntSort(), z3.IntSort(), z3.BoolSort())
                same = z3.And(z(key)[0] == z(key)[1], z3.BoolVal(key[2] == r[2]))
                self.c.axiom(z3.Or(same, z3.Not(z3.And(t, Q(*z(r))))), key=('cf', t.sexpr()))
        return t

    def value0(self, key):
        i, j = A.zi(key[0]), A.zi(key[1])
        nd = len(self.shp)
        so = [z3.IntSort()] * (2 + nd)
        k = T.kind_of_dtype(self.dt)
        nm = f'{self.name}.{key[2]}'
        if k == 'c':
            f, g = z3.Function(nm + '.re', *so, z3.RealSort()), z3.Function(nm + '.im', *so, z3.RealSort())
            fn = lambda idx: T.Sym('c', f(i, j, *[A.zi(x) for x in idx]), g(i, j, *[A.zi(x) for x in idx]))
        elif k == 'b':
            f = z3.Function(nm, *so, z3.BoolSort())
            fn = lambda idx: T.SBool(f(i, j, *[A.zi(x) for x in idx]))
        else:
            f = z3.Function(nm, *so, z3.RealSort() if k == 'f' else z3.IntSort())
            fn = lambda idx: T.Sym(k, f(i, j, *[A.zi(x) for x in idx]))
        return A.SymArray(tuple(self.shp), self.dt, fn)

    def __contains__(self, key):
        if not self._ok(key):
            return False
        for k, v in reversed(self.over):
            if bool(keq(self.c, k, key)):
                return v is not None
        return self.c.branch(self.present0(key))

    def __getitem__(self, key):
        if not self._ok(key):
            raise KeyError(key)
        for k, v in reversed(self.over):
            if bool(keq(self.c, k, key)):
                if v is None:
                    raise KeyError(key)
                return v
        if self.c.branch(self.present0(key)):
            return self.value0(key)
        raise KeyError(key)

    def __setitem__(self, key, v):
        if not self._ok(key):
            raise Unsupported('key outside the modelled map')
        self.over.append((key, v))

    def __delitem__(self, key):
        if key not in self:
            raise KeyError(key)
        self.over.append((key, None))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        return self

    def _no(self, *a, **k):
        raise Unsupported('iteration over an unbounded map')
    __iter__ = __len__ = values = items = pop = update = setdefault = copy = __bool__ = _no
