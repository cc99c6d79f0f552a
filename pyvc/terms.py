"""Symbolic scalars for pyvc.

A symbolic scalar stands for one Python/numpy number.  Numbers are mathematical
(int -> Z, float -> extended reals with explicit nan/inf marks, complex -> pair of
reals); rounding is not modelled.  Terms are z3 terms.
"""
import sys
import math
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402


class Unsupported(BaseException):
    """The code did something the verifier has no model for (out of reach, not a violation)."""


class PathEnd(BaseException):
    """Ends the current path silently (assumption failed / infeasible)."""


CTX = None  # current symbolic context (set by engine)


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


R = z3.RealSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def _rv(x):
    """exact rational z3 value of a python/numpy real number"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


def bor(*xs):
    xs = [x for x in xs if x is not None and not z3.is_false(x)]
    if not xs:
        return None
    if any(z3.is_true(x) for x in xs):
        return TRUE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def band(*xs):
    """and of possibly-None(False) marks"""
    if any(x is None or z3.is_false(x) for x in xs):
        return None
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def bnot(x):
    if x is None:
        return TRUE
    return z3.simplify(z3.Not(x)) if (z3.is_true(x) or z3.is_false(x)) else z3.Not(x)


def zb(x):
    return FALSE if x is None else x


def is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def zval(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def add(a, b):
    va, vb = zval(a), zval(b)
    if va == 0 and va is not None and a.sort() == b.sort():
        return b
    if vb == 0 and vb is not None and a.sort() == b.sort():
        return a
    if va is not None and vb is not None:
        return z3.simplify(a + b)
    return a + b


def sub(a, b):
    vb = zval(b)
    if vb is not None and vb == 0 and a.sort() == b.sort():
        return a
    if vb is not None and zval(a) is not None:
        return z3.simplify(a - b)
    return a - b


def mul(a, b):
    va, vb = zval(a), zval(b)
    if va is not None and vb is not None:
        return z3.simplify(a * b)
    if va is not None:
        if va == 0:
            return a
        if va == 1:
            return b
    if vb is not None:
        if vb == 0:
            return b
        if vb == 1:
            return a
    for x, y in ((a, b), (b, a)):
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == y.sort():
            # 0/1 masks: keep products with them linear
            c, p, q = x.children()
            vp, vq = zval(p), zval(q)
            if vp is not None and vq is not None and (vp == 0 or vq == 0) and vp in (0, 1) and vq in (0, 1):
                return ite(c, y if vp == 1 else p, y if vq == 1 else q)
    if a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 1 and a.eq(b) and a.decl().name() == 'SQRT':
        h = ctx().sqrt_of.get(a.get_id())
        if h is not None:
            return h[1]
        if _sumsq(a.children()[0]):
            return a.children()[0]
    return a * b


def _sumsq(t):
    """syntactically a sum of squares"""
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return all(_sumsq(x) for x in ch)
    v = zval(t)
    if v is not None:
        return v >= 0
    return k == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1])


def rdiv(a, b):
    va, vb = zval(a), zval(b)
    if vb is not None and vb != 0:
        if vb == 1:
            return a
        return mul(a, z3.simplify(z3.RealVal(1) / b))
    if va is not None and va == 0 and vb is not None and vb != 0:
        return a
    return a / b


KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
DT = {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float), 'c': np.dtype(complex)}


def kind_of_dtype(dt):
    dt = getattr(dt, 'dtype', dt) if not isinstance(dt, np.dtype) else dt
    k = np.dtype(dt).kind
    if k == 'b':
        return 'b'
    if k in 'iu':
        return 'i'
    if k == 'f':
        return 'f'
    if k == 'c':
        return 'c'
    raise Unsupported(f'dtype {dt}')


class Sym:
    """scalar: kind in b,i,f,c"""
    __slots__ = ('kind', 're', 'im', 'nan', 'inf', 'zero')
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, kind, re, im=None, nan=None, inf=None, zero=None):
        self.kind = kind
        self.zero = zero      # condition equivalent to 'the (finite) value is zero', when known in a simpler form
        self.re = re
        self.im = im
        self.nan = None if nan is None or z3.is_false(nan) else nan
        self.inf = None if inf is None or z3.is_false(inf) else inf

    def __format__(self, spec): return '<symbolic>'   # log messages

    # pretend to be the python type
    @property
    def __class__(self):
        return {'b': bool, 'i': int, 'f': float, 'c': complex}[self.kind]

    def __repr__(self):
        return f'<Sym {self.kind} {self.re}{"" if self.im is None else " +i " + str(self.im)}>'

    def is_zero(self):
        if self.zero is not None:
            return self.zero
        z = self.as_real() == 0
        if self.im is not None:
            z = z3.And(z, self.im == 0)
        return z

    # -- coercions
    def as_bool(self):
        if self.kind == 'b':
            return self.re
        nz = self.re != 0
        if self.im is not None:
            nz = z3.Or(nz, self.im != 0)
        r = bor(nz, self.nan, self.inf)
        return r

    def as_int(self):
        if self.kind == 'b':
            return ite(self.re, z3.IntVal(1), z3.IntVal(0))
        if self.kind == 'i':
            return self.re
        raise Unsupported('float used as int')

    def as_real(self):
        if self.kind == 'b':
            return ite(self.re, z3.RealVal(1), z3.RealVal(0))
        if self.kind == 'i':
            return z3.RealVal(zval(self.re)) if zval(self.re) is not None else z3.ToReal(self.re)
        return self.re

    def as_imag(self):
        return self.im if self.im is not None else z3.RealVal(0)

    def to(self, kind):
        if kind == self.kind:
            return self
        if kind == 'b':
            return Sym('b', self.as_bool())
        if kind == 'i':
            if self.kind == 'b':
                return Sym('i', self.as_int())
            if self.kind == 'f':
                if self.nan is not None or self.inf is not None:
                    raise Unsupported('int(nan/inf)')
                # truncation toward zero
                fl = z3.ToInt(self.re)
                return Sym('i', ite(self.re >= 0, fl, -z3.ToInt(-self.re)))
            raise Unsupported('int(complex)')
        if kind == 'f':
            if self.kind == 'c':
                return Sym('f', self.re, None, self.nan, self.inf)  # numpy casts with ComplexWarning
            return Sym('f', self.as_real())
        return Sym('c', self.as_real(), self.as_imag(), self.nan, self.inf, self.zero)

    # -- python protocol
    def __bool__(self):
        return ctx().branch(self.as_bool())

    def __index__(self):
        if self.kind not in 'bi':
            raise TypeError('not an int')
        return ctx().concretize_int(self.as_int())

    def __int__(self):
        v = self.to('i')
        return ctx().concretize_int(v.re)

    def __float__(self):
        v = zval(z3.simplify(self.as_real()))
        if v is not None and self.nan is None and self.inf is None:
            return float(v)
        raise Unsupported('float() of symbolic value')

    def __hash__(self):
        if self.kind in 'bi':
            v = zval(z3.simplify(self.as_int()))
            if v is not None and not getattr(CTX, 'const_hash', True):
                return hash(v)
        return 0

    # -- arithmetic
    def _bin(self, other, op, swap=False):
        if isinstance(other, SymArrayBase):
            return NotImplemented
        if isinstance(other, np.ndarray) and other.ndim:
            from . import arr as A
            sa = A.asarr(self)
            return A.elementwise(op, *((A.asarr(other), sa) if swap else (sa, A.asarr(other))))
        try:
            o = lift(other)
        except TypeError:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return op(a, b)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * ctx().concretize_int(self.as_int())
        return self._bin(o, s_mul)
    __rmul__ = lambda self, o: (o * ctx().concretize_int(self.as_int())) if isinstance(o, (list, tuple, str)) else self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_fdiv)
    def __rfloordiv__(self, o): return self._bin(o, s_fdiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __and__(self, o): return self._bin(o, s_and)
    def __rand__(self, o): return self._bin(o, s_and, True)
    def __or__(self, o): return self._bin(o, s_or)
    def __ror__(self, o): return self._bin(o, s_or, True)
    def __xor__(self, o): return self._bin(o, s_xor)
    def __rxor__(self, o): return self._bin(o, s_xor, True)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __invert__(self): return s_invert(self)
    def __eq__(self, o): return self._cmp(o, s_eq)
    def __ne__(self, o): return self._cmp(o, s_ne)
    def __lt__(self, o): return self._bin(o, s_lt)
    def __le__(self, o): return self._bin(o, s_le)
    def __gt__(self, o): return self._bin(o, s_lt, True)
    def __ge__(self, o): return self._bin(o, s_le, True)

    def _cmp(self, o, op):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict, set)):
            return NotImplemented
        return self._bin(o, op)

    def __round__(self, n=None):
        if self.kind in 'bi' and n is None:
            return self
        raise Unsupported('round')

    def __floor__(self): return s_floor(self).to('i')
    def __ceil__(self): return s_neg(s_floor(s_neg(self))).to('i')

    # -- numpy scalar-ish attributes
    @property
    def real(self):
        return self if self.kind != 'c' else Sym('f', self.re, None, self.nan, self.inf)

    @property
    def imag(self):
        if self.kind != 'c':
            return Sym('i', z3.IntVal(0)) if self.kind in 'bi' else Sym('f', z3.RealVal(0))
        return Sym('f', self.im, None, self.nan, self.inf)

    def conj(self): return s_conj(self)
    conjugate = conj
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self): return DT[self.kind]
    def copy(self): return self
    def item(self): return self
    def astype(self, dt): return self.to(kind_of_dtype(dt))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def lower(self): raise AttributeError('lower')
    def any(self, *a, **k): return self.to('b')
    def all(self, *a, **k): return self.to('b')
    def is_integer(self): return SBool(self.as_real() == z3.ToReal(z3.ToInt(self.as_real())))


class SymArrayBase:
    pass


def SBool(t): return Sym('b', t)
def SInt(t): return Sym('i', t)
def SReal(t): return Sym('f', t)


def is_sym(x):
    return type(x) is Sym


def lift(x):
    if type(x) is Sym:
        return x
    if isinstance(x, (bool, np.bool_)):
        return Sym('b', z3.BoolVal(bool(x)))
    if isinstance(x, (int, np.integer)):
        return Sym('i', z3.IntVal(int(x)))
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return Sym('f', z3.RealVal(0), None, TRUE)
        if math.isinf(x):
            return Sym('f', z3.RealVal(1 if x > 0 else -1), None, None, TRUE)
        return Sym('f', _rv(x))
    if isinstance(x, (complex, np.complexfloating)):
        if math.isnan(x.real) or math.isnan(x.imag):
            return Sym('c', z3.RealVal(0), z3.RealVal(0), TRUE)
        if math.isinf(x.real) or math.isinf(x.imag):
            return Sym('c', z3.RealVal(1), z3.RealVal(0), None, TRUE)
        return Sym('c', _rv(x.real), _rv(x.imag))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError(f'cannot lift {type(x)}')


def top(*xs):
    return max((x.kind for x in xs), key=KORD.get)


def _noinf2(a, b):
    if a.inf is not None and b.inf is not None:
        raise Unsupported('inf op inf')


def s_add(a, b):
    k = top(a, b)
    if k == 'b':
        return SBool(zb(bor(a.re, b.re))) if isinstance(a, Sym) else None
    if k == 'i':
        return SInt(add(a.as_int(), b.as_int()))
    _noinf2(a, b)
    a, b = a.to(k), b.to(k)
    nan = bor(a.nan, b.nan)
    inf = bor(a.inf, b.inf)
    re = add(a.re, b.re)
    if inf is not None:
        re = ite(zb(a.inf), a.re, ite(zb(b.inf), b.re, re))
    if k == 'f':
        return Sym('f', re, None, nan, inf)
    return Sym('c', re, add(a.im, b.im), nan, inf)


def s_neg(a):
    if a.kind == 'b':
        raise TypeError('neg of bool')
    if a.kind == 'i':
        return SInt(z3.simplify(-a.re) if zval(a.re) is not None else -a.re)
    n = lambda t: z3.simplify(-t) if zval(t) is not None else -t
    if a.kind == 'f':
        return Sym('f', n(a.re), None, a.nan, a.inf)
    return Sym('c', n(a.re), n(a.im), a.nan, a.inf)


def s_sub(a, b):
    k = top(a, b)
    if k == 'b':
        # python bool - bool is int; numpy bool - bool raises.  Treat as int (python scalars).
        return SInt(sub(a.as_int(), b.as_int()))
    if k == 'i':
        return SInt(sub(a.as_int(), b.as_int()))
    if a.inf is None and b.inf is None:
        a, b = a.to(k), b.to(k)
        nan = bor(a.nan, b.nan)
        if k == 'f':
            return Sym('f', sub(a.re, b.re), None, nan)
        return Sym('c', sub(a.re, b.re), sub(a.im, b.im), nan)
    return s_add(a.to(k), s_neg(b.to(k)))


def s_mul(a, b):
    k = top(a, b)
    if k == 'b':
        return SBool(z3.And(a.re, b.re))
    if k == 'i':
        return SInt(mul(a.as_int(), b.as_int()))
    nan = bor(a.nan, b.nan)
    inf = None
    if a.inf is not None or b.inf is not None:
        za = z3.And(a.as_real() == 0, a.as_imag() == 0, z3.Not(zb(a.inf)))
        zb_ = z3.And(b.as_real() == 0, b.as_imag() == 0, z3.Not(zb(b.inf)))
        nan = bor(nan, band(a.inf, zb_), band(b.inf, za))
        inf = bor(a.inf, b.inf)
    zero = z3.Or(a.is_zero(), b.is_zero()) if (a.zero is not None or b.zero is not None or k == 'c') else None
    if k == 'f':
        return Sym('f', mul(a.as_real(), b.as_real()), None, nan, inf, zero)
    # complex
    if a.kind != 'c':
        r = a.as_real()
        return Sym('c', mul(r, b.re), mul(r, b.im), nan, inf, zero)
    if b.kind != 'c':
        r = b.as_real()
        return Sym('c', mul(a.re, r), mul(a.im, r), nan, inf, zero)
    return Sym('c', sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)), nan, inf, zero)


def s_div(a, b):
    k = top(a, b, Sym('f', z3.RealVal(0)))
    if b.inf is not None:
        if ctx().must(z3.Not(b.inf)):
            b = Sym(b.kind, b.re, b.im, b.nan, None, b.zero)
        elif b.kind == 'c' or a.kind == 'c':
            raise Unsupported('complex division by inf')
        else:
            r = s_div(a, Sym(b.kind, b.re, b.im, b.nan, None, b.zero))
            return Sym(r.kind, ite(b.inf, z3.RealVal(0), r.re), None, bor(band(z3.Not(b.inf), r.nan) if r.nan is not None else None, b.nan, a.nan, band(b.inf, a.inf) if a.inf is not None else None), band(z3.Not(b.inf), r.inf) if r.inf is not None else None)
    nan = bor(a.nan, b.nan)
    inf = a.inf
    if b.kind != 'c':
        d = b.as_real()
        vd = zval(z3.simplify(d)) if is_num(z3.simplify(d)) else None
        if vd is None:
            isz = b.is_zero()
            ctx().dens[d.get_id()] = (d, isz)
            if ctx().quick_not(isz):
                isz = None
        else:
            isz = TRUE if vd == 0 else None
        if isz is not None:
            az = a.is_zero()
            if a.inf is not None:
                az = z3.And(az, z3.Not(a.inf))
            if k == 'c':
                nan = bor(nan, isz)     # complex / 0 -> nan (or inf): treated as non-finite "nan"
            else:
                nan = bor(nan, band(isz, az))
                inf = bor(inf, band(isz, z3.Not(az)))
        if k == 'f':
            re = rdiv(a.as_real(), d)
            if isz is not None:
                re = ite(isz, a.as_real(), re)
            return Sym('f', re, None, nan, inf, a.zero)
        return Sym('c', rdiv(a.as_real(), d), rdiv(a.as_imag(), d), nan, inf, a.is_zero())
    m2 = add(mul(b.re, b.re), mul(b.im, b.im))
    if not ctx().quick_not(b.is_zero()):
        nan = bor(nan, z3.simplify(b.is_zero()))
    ctx().dens[m2.get_id()] = (m2, b.is_zero())
    num = s_mul(a.to('c'), s_conj(b))
    return Sym('c', rdiv(num.re, m2), rdiv(num.im, m2), nan, inf, a.is_zero())


def s_floor(a):
    if a.kind in 'bi':
        return a.to('i').to('f')
    return Sym('f', z3.ToReal(z3.ToInt(a.re)), None, a.nan, a.inf)


def s_round(a):
    """to nearest integer, halves to even"""
    if a.kind in 'bi':
        return a
    if a.kind == 'c':
        raise Unsupported('complex round')
    k = z3.ToInt(a.re + z3.Q(1, 2))
    k = ite(z3.And(z3.ToReal(k) == a.re + z3.Q(1, 2), k % 2 == 1), k - 1, k)
    return Sym('f', z3.ToReal(k), None, a.nan, a.inf)


def s_fdiv(a, b):
    k = top(a, b)
    if k == 'c':
        raise TypeError('complex floordiv')
    if k in 'bi':
        x, y = a.as_int(), b.as_int()
        if not ctx().must(y != 0):
            if ctx().branch(y == 0):
                raise ZeroDivisionError
        v = zval(y)
        if (v is not None and v > 0) or ctx().must(y > 0):
            return SInt(x / y)
        return SInt(ite(y > 0, x / y, (-x) / (-y)))
    q = s_div(a, b)
    return s_floor(q)


def s_mod(a, b):
    k = top(a, b)
    if k in 'bi':
        q = s_fdiv(a, b)
        return SInt(a.as_int() - q.re * b.as_int())
    if k == 'c':
        raise TypeError
    return s_sub(a.to('f'), s_mul(b.to('f'), s_fdiv(a, b)))


def s_pow(a, b):
    v = zval(z3.simplify(b.re)) if b.kind in 'bif' and is_num(z3.simplify(b.re)) else None
    if v is None:
        raise Unsupported('symbolic exponent')
    if v == Fraction(1, 2):
        return s_sqrt(a)
    if v == int(v):
        n = int(v)
        if n == 0:
            return lift(1).to(a.kind if a.kind != 'b' else 'i')
        if abs(n) > 8:
            raise Unsupported('big power')
        r = a
        for _ in range(abs(n) - 1):
            r = s_mul(r, a)
        if b.kind == 'f' and r.kind in 'bi':
            r = r.to('f')
        return r if n > 0 else s_div(lift(1.0), r)
    raise Unsupported('power')


def s_conj(a):
    if a.kind != 'c':
        return a
    return Sym('c', a.re, z3.simplify(-a.im) if zval(a.im) is not None else -a.im, a.nan, a.inf, a.zero)


def s_and(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SBool(zb(band(a.re, b.re)))
    raise Unsupported('bitwise and on non-bool')


def s_or(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SBool(zb(bor(a.re, b.re)))
    raise Unsupported('bitwise or on non-bool')


def s_xor(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SBool(z3.Xor(a.re, b.re))
    raise Unsupported('xor on non-bool')


def s_invert(a):
    if a.kind == 'b':
        return SBool(bnot(a.re))
    if a.kind == 'i':
        return SInt(-a.re - 1)
    raise TypeError("ufunc 'invert' not supported for the input types")


def s_eq(a, b):
    k = top(a, b)
    if k == 'b':
        return SBool(a.re == b.re)
    if k == 'i':
        return SBool(a.as_int() == b.as_int())
    e = a.as_real() == b.as_real()
    if k == 'c':
        e = z3.And(e, a.as_imag() == b.as_imag())
    if a.inf is not None or b.inf is not None:
        e = z3.And(e, zb(a.inf) == zb(b.inf))
    n = bor(a.nan, b.nan)
    if n is not None:
        e = z3.And(z3.Not(n), e)
    return SBool(e)


def s_ne(a, b):
    return SBool(bnot(s_eq(a, b).re))


def _order(a, b, strict):
    k = top(a, b)
    if k == 'c':
        raise TypeError('complex ordering')
    if k in 'bi':
        x, y = a.as_int(), b.as_int()
        return SBool(x < y if strict else x <= y)
    x, y = a.as_real(), b.as_real()
    r = x < y if strict else x <= y
    if a.inf is not None or b.inf is not None:
        ai, bi = zb(a.inf), zb(b.inf)
        both = (z3.And(x < 0, y > 0) if strict else z3.Or(x < 0, y > 0))
        r = ite(ai, ite(bi, both, x < 0), ite(bi, y > 0, r))
    n = bor(a.nan, b.nan)
    if n is not None:
        r = z3.And(z3.Not(n), r)
    return SBool(r)


def s_lt(a, b): return _order(a, b, True)
def s_le(a, b): return _order(a, b, False)
def s_gt(a, b): return _order(b, a, True)
def s_ge(a, b): return _order(b, a, False)


# ---- transcendental functions: uninterpreted, with instantiated axioms
_COS = z3.Function('COS', R, R)
_SIN = z3.Function('SIN', R, R)
_EXP = z3.Function('EXP', R, R)
_SQRT = z3.Function('SQRT', R, R)
_LOG = z3.Function('LOG', R, R)
_ATAN2 = z3.Function('ATAN2', R, R, R)
_TAN = z3.Function('TAN', R, R)
_ASIN = z3.Function('ASIN', R, R)


def _canon(t):
    return z3.simplify(t, som=True, sort_sums=True)


def s_sqrt(a):
    if a.kind == 'c':
        raise Unsupported('complex sqrt')
    x = _canon(a.as_real())
    v = zval(x)
    if v is not None and v >= 0:
        n, d = math.isqrt(int(v.numerator) if isinstance(v, Fraction) else v), math.isqrt(int(v.denominator) if isinstance(v, Fraction) else 1)
        if n * n == (v.numerator if isinstance(v, Fraction) else v) and d * d == (v.denominator if isinstance(v, Fraction) else 1):
            return Sym('f', z3.Q(n, d))
    s = _SQRT(x)
    ctx().axiom(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), key=('sqrt', x.sexpr()))
    ctx().used_uf = True
    if _sumsq(a.as_real()):
        ctx().sqrt_of[s.get_id()] = (s, a.as_real())
        return Sym('f', s, None, a.nan, a.inf)
    neg = z3.simplify(x < 0)
    nan = bor(a.nan, None if ctx().quick_must(x >= 0) else neg)
    return Sym('f', s, None, nan, a.inf)


def s_abs(a):
    if a.kind == 'b':
        return a
    if a.kind == 'i':
        return SInt(ite(a.re >= 0, a.re, -a.re))
    if a.kind == 'f':
        return Sym('f', ite(a.re >= 0, a.re, -a.re), None, a.nan, a.inf)
    if zval(a.im) == 0 and zval(a.im) is not None:
        r = Sym('f', a.re if ctx().quick_not(a.re < 0) else ite(a.re >= 0, a.re, -a.re))
    else:
        r = s_sqrt(Sym('f', a.re * a.re + a.im * a.im))
    return Sym('f', r.re, None, a.nan, a.inf, a.is_zero())


def _trig(x):
    x = _canon(x)
    v = zval(x)
    if v is not None and v == 0:
        return z3.RealVal(1), z3.RealVal(0)
    # normalise sign: cos even, sin odd  (leading coefficient sign)
    y = _canon(-x)
    flip = len(y.sexpr()) < len(x.sexpr()) or (len(y.sexpr()) == len(x.sexpr()) and y.sexpr() < x.sexpr())
    t = y if flip else x
    c, s = _COS(t), _SIN(t)
    ctx().axiom(c * c + s * s == 1, key=('trig', t.sexpr()))
    ctx().used_uf = True
    ctx().trig_args.setdefault(t.sexpr(), t)
    return c, (-s if flip else s)


def s_cos(a):
    return Sym('f', _trig(a.as_real())[0], None, bor(a.nan, a.inf))


def s_sin(a):
    return Sym('f', _trig(a.as_real())[1], None, bor(a.nan, a.inf))


def s_exp(a):
    def rexp(t):
        t = _canon(t)
        v = zval(t)
        if v is not None and v == 0:
            return z3.RealVal(1)
        e = _EXP(t)
        ctx().axiom(e > 0, key=('exp', t.sexpr()))
        ctx().used_uf = True
        return e
    if a.inf is not None:
        raise Unsupported('exp(inf)')
    if a.kind != 'c':
        return Sym('f', rexp(a.as_real()), None, a.nan)
    c, s = _trig(a.im)
    m = rexp(a.re)
    return Sym('c', mul(m, c), mul(m, s), a.nan)


def s_angle(a):
    if a.kind != 'c':
        x, y = a.as_real(), z3.RealVal(0)
    else:
        x, y = a.re, a.im
    x, y = _canon(x), _canon(y)
    t = _ATAN2(y, x)
    r = s_sqrt(Sym('f', x * x + y * y)).re
    c, s = _trig(t)
    ctx().axiom(z3.And(r * c == x, r * s == y), key=('atan2', t.sexpr()))
    ctx().axiom(z3.Implies(z3.And(x == 0, y == 0), t == 0), key=('atan20', t.sexpr()))
    pi = _rv(math.pi)
    ctx().axiom(z3.And(t <= pi, t >= -pi), key=('atan2r', t.sexpr()))
    return Sym('f', t, None, bor(a.nan, a.inf))


def s_log(a):
    if a.kind == 'c':
        raise Unsupported('complex log')
    x = _canon(a.as_real())
    v = zval(x)
    if (v is not None and v == 1) or (v is None and ctx().must(x == 1)):
        return Sym('f', z3.RealVal(0), None, None if a.nan is None or ctx().must(z3.Not(a.nan)) else a.nan, None if a.inf is None or ctx().must(z3.Not(a.inf)) else a.inf)
    ctx().used_uf = True
    pos = ctx().must(x > 0)
    inf = None if a.inf is None or ctx().must(z3.Not(a.inf)) else a.inf
    return Sym('f', _LOG(x), None, a.nan if pos else bor(a.nan, x < 0), inf if pos else bor(inf, x == 0))


def s_isnan(a): return SBool(zb(a.nan))
def s_isinf(a): return SBool(zb(bor(a.inf)) if a.nan is None else z3.And(zb(a.inf), z3.Not(a.nan)))
def s_isfinite(a): return SBool(bnot(bor(a.nan, a.inf)))


def s_where(c, a, b):
    """elementwise select; kinds are unified by the caller if needed"""
    c = c.as_bool()
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    k = top(a, b)
    a, b = a.to(k), b.to(k)
    if a is b:
        return a
    def mark(p, q):
        if p is None and q is None:
            return None
        return ite(c, zb(p), zb(q))
    zero = None
    if k in 'fc':
        za, zb_ = _zero_under(c, a), _zero_under(z3.Not(c), b)
        if za is not None or zb_ is not None:
            zero = ite(c, za if za is not None else a.is_zero(), zb_ if zb_ is not None else b.is_zero())
        zero = None if zero is None else z3.simplify(zero)
    return Sym(k, ite(c, a.re, b.re), None if k != 'c' else ite(c, a.im, b.im), mark(a.nan, b.nan), mark(a.inf, b.inf), zero)


def _zero_under(c, a):
    """when is a zero, given c?  FALSE if the condition excludes it (as in where(x > 0, x, 1)); None: nothing special known"""
    if a.kind == 'f' and zval(a.re) is None and z3.is_false(z3.simplify(z3.substitute(c, (a.re, z3.RealVal(0))))):
        return FALSE
    return a.zero


def s_max(a, b):
    n = bor(a.nan, b.nan)
    r = s_where(s_lt(Sym(a.kind, a.re, None, None, a.inf), Sym(b.kind, b.re, None, None, b.inf)), b, a)
    return r if n is None else Sym(r.kind if r.kind == 'f' else 'f', r.as_real(), None, n, r.inf)


def s_min(a, b):
    n = bor(a.nan, b.nan)
    r = s_where(s_lt(Sym(b.kind, b.re, None, None, b.inf), Sym(a.kind, a.re, None, None, a.inf)), b, a)
    return r if n is None else Sym(r.kind if r.kind == 'f' else 'f', r.as_real(), None, n, r.inf)


def s_same(a, b):
    """identity of values (nan == nan), as a z3 Bool: the spec-level equality"""
    a, b = lift(a), lift(b)
    k = top(a, b)
    if k == 'b':
        return a.re == b.re
    if k == 'i':
        return a.as_int() == b.as_int()
    e = a.as_real() == b.as_real()
    if k == 'c':
        e = z3.And(e, a.as_imag() == b.as_imag())
    na, nb = zb(a.nan), zb(b.nan)
    ia, ib = zb(a.inf), zb(b.inf)
    if a.inf is not None or b.inf is not None:
        e = ite(z3.Or(ia, ib), z3.And(ia, ib) if k == 'c' else z3.And(ia, ib, (a.as_real() > 0) == (b.as_real() > 0)), e)
    if a.nan is not None or b.nan is not None:
        e = z3.And(na == nb, z3.Or(na, e))
    return e
