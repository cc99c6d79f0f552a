"""Equality of rational functions by cross-multiplied polynomial normal forms.
prove(a, b, nonzero, nonneg): a == b as real terms, given that every denominator met is nonzero (each is
checked with the `nonzero` callback) and every SQRT argument is nonnegative (`nonneg` callback)."""
from fractions import Fraction
from .terms import z3, zval, _sumsq

LIMIT = 20000


class Fail(Exception):
    pass


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


class Norm:
    def __init__(self, nonzero, nonneg, decide=lambda c: None, sqrt_of=None):
        self.decide, self.sqrt_of = decide, sqrt_of or {}
        self.atoms, self.keep, self.sq = {}, [], {}
        self.nonzero, self.nonneg = nonzero, nonneg
        self.cache = {}
        self.work = 0

    def atom(self, t):
        i = self.atoms.setdefault(t.get_id(), len(self.atoms))
        self.keep.append(t)
        return i

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise Fail
        self.work += len(p) * len(q)
        if self.work > 40 * LIMIT:
            raise Fail
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return self.reduce(r)

    def reduce(self, p):
        if not self.sq:
            return p
        for m in p:
            for x, e in m:
                if e >= 2 and x in self.sq:
                    rest = {tuple((y, f) for y, f in m if y != x) + (((x, e - 2),) if e > 2 else ()): p[m]}
                    rest = {tuple(sorted(k)): v for k, v in rest.items()}
                    q = {k: v for k, v in p.items() if k != m}
                    return self.reduce(padd(q, self.pmul(rest, self.sq[x])))
        return p

    def norm(self, t):
        """(num, den) polynomials"""
        k = t.get_id()
        hit = self.cache.get(k)
        if hit is None:
            hit = self._norm(t)
            self.cache[k] = hit
            self.keep.append(t)
        return hit

    ONE = {(): Fraction(1)}

    def addf(self, a, b, s=1):
        if a[1] == b[1]:
            return padd(a[0], b[0], s), a[1]
        return padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), s), self.pmul(a[1], b[1])

    def _norm(self, t):
        v = zval(t)
        if v is not None:
            v = Fraction(v)
            return ({(): v} if v else {}), self.ONE
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_TO_REAL and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_ANUM):
            return self.norm(ch[0])
        if kd == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.addf(r, self.norm(c))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.addf(r, self.norm(c), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return {m: -c for m, c in n.items()}, d
        if kd == z3.Z3_OP_MUL:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n, d = self.pmul(n, n2), self.pmul(d, d2)
            return n, d
        if kd == z3.Z3_OP_DIV:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            if not b[0] or not self.nonzero(ch[1]):
                raise Fail
            return self.pmul(a[0], b[1]), self.pmul(a[1], b[0])
        if kd == z3.Z3_OP_POWER:
            e = zval(ch[1])
            if e is not None and Fraction(e).denominator == 1 and 0 <= e <= 8:
                a = self.norm(ch[0])
                n, d = self.ONE, self.ONE
                for _ in range(int(e)):
                    n, d = self.pmul(n, a[0]), self.pmul(d, a[1])
                return n, d
        if kd == z3.Z3_OP_ITE:
            d = self.decide(ch[0])
            if d is not None:
                return self.norm(ch[1] if d else ch[2])
        x = self.atom(t)
        if t.decl().name() == 'SQRT':
            n, d = self.norm(ch[0])
            if x in self.sq or t.get_id() in self.sqrt_of or _sumsq(ch[0]) or self.nonneg(ch[0]):
                # the atom stands for d * SQRT(n / d), whose square is n * d (d is nonzero)
                self.sq[x] = n if d == self.ONE else self.pmul(n, d)
                return {((x, 1),): Fraction(1)}, d
        return {((x, 1),): Fraction(1)}, self.ONE

    def equal(self, a, b):
        n, d = self.norm(a)
        m, e = self.norm(b)
        return not padd(self.pmul(n, e), self.pmul(m, d), -1)


def equalities(g, out, seen=None, depth=0):
    seen = set() if seen is None else seen
    if g.get_id() in seen or depth > 60:
        return
    seen.add(g.get_id())
    if z3.is_quantifier(g):
        return
    if z3.is_eq(g) and z3.is_real(g.children()[0]):
        out.append(g)
        return
    if z3.is_bool(g):
        for c in g.children():
            equalities(c, out, seen, depth + 1)
