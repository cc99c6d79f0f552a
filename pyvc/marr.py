"""numpy.ma masked arrays over symbolic arrays (data + mask), with numpy's rules for the values kept under the mask."""
import numpy as np
from . import terms as T
from . import arr as A
from .arr import asarr, elementwise, broadcast_to, MaskSel
from .terms import z3, SymArrayBase, Unsupported, SBool, lift


def _or(a, b):
    return elementwise(T.s_or, a, b, dtype=bool)


def _keep(m, kept, r):
    """values: kept (converted) where masked, r elsewhere"""
    def f(mm, k, x):
        kd = x.kind
        if T.KORD[k.kind] > T.KORD[kd]:
            raise Unsupported('masked data of a wider kind')
        return T.s_where(mm, k.to(kd), x)
    return elementwise(f, m, kept, r, dtype=r.dtype)


def _iszero(x):
    return SBool(z3.And(x.re == 0, x.im == 0) if x.kind == 'c' else x.to('f').as_real() == 0)


def _safe(y):
    """denominator with zero replaced by one"""
    y = y if y.kind == 'c' else y.to('f')
    z = _iszero(y)
    r = T.s_where(z, lift(1.0).to(y.kind), y)
    return T.Sym(r.kind, r.re, r.im, r.nan, r.inf, zero=z3.BoolVal(False))


def _fin(x):
    return T.Sym(x.kind, x.re, x.im, None, None, x.zero)


def isma(x):
    return type(x) is MArr


def getdata(x): return x.data if isma(x) else asarr(x)


def getmask(x, shape=None):
    if isma(x):
        return x._mask
    return None


def both(a, b):
    ma, mb = getmask(a), getmask(b)
    if ma is None:
        return mb
    if mb is None:
        return ma
    return _or(ma, mb)


class MArr(SymArrayBase):
    __array_ufunc__ = None
    __array_priority__ = 2e9
    __hash__ = None

    def __init__(self, data, mask):
        self.data, self._mask = data, mask

    @property
    def __class__(self): return np.ma.MaskedArray
    @property
    def _shape(self): return self.data._shape
    @property
    def shape(self): return self.data.shape
    @property
    def ndim(self): return self.data.ndim
    @property
    def dtype(self): return self.data.dtype
    @property
    def kind(self): return self.data.kind
    @property
    def size(self): return self.data.size
    @property
    def mask(self): return self._mask
    @mask.setter
    def mask(self, v): self._mask[...] = v
    @property
    def real(self): return MArr(self.data.real, self._mask)
    @property
    def imag(self): return MArr(self.data.imag, self._mask)
    def symlen(self): return self.data.symlen()
    def copy(self, *a): return MArr(self.data.copy(), self._mask.copy())
    def __deepcopy__(self, memo): return self.copy()
    def __copy__(self): return self.copy()

    def __getitem__(self, k):
        k = k.data if isma(k) else k
        return MArr(self.data[k], self._mask[k])

    def __setitem__(self, k, v):
        k = k.data if isma(k) else k
        if isma(v):
            self.data[k] = v.data
            self._mask[k] = v._mask
        else:
            self.data[k] = v
            self._mask[k] = False

    def filled(self, v=None):
        if v is None:
            raise Unsupported('default fill value')
        z = lift(v)
        return elementwise(lambda m, x: T.s_where(m, z.to(x.kind), x), self._mask, self.data, dtype=self.dtype)

    # ---- reductions
    def sum(self, axis=None, keepdims=False, **k):
        d = A.reduce_sum(self.filled(0) if self.kind != 'b' else self.filled(False), axis, keepdims)
        if not isinstance(d, SymArrayBase):
            raise Unsupported('scalar masked sum')
        return MArr(d, A.reduce_all(self._mask, axis, keepdims))

    def count(self, axis=None, keepdims=False):
        return A.reduce_sum(~self._mask, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        s, n = self.sum(axis, keepdims), self.count(axis, keepdims)
        return (s * 1.0) / n

    def any(self, axis=None, keepdims=False, **k):
        if axis is not None:
            raise Unsupported('masked any over an axis')
        try:
            return A.reduce_any(elementwise(lambda m, x: SBool(z3.And(z3.Not(m.as_bool()), x.to('b').as_bool())), self._mask, self.data, dtype=bool))
        except Unsupported:
            # nothing is known about it: both outcomes are explored
            return SBool(z3.Bool(T.ctx().fresh_name('any')))

    def all(self, axis=None, keepdims=False, **k):
        if axis is not None:
            raise Unsupported('masked all over an axis')
        return A.reduce_all(elementwise(lambda m, x: SBool(z3.Or(m.as_bool(), x.to('b').as_bool())), self._mask, self.data, dtype=bool))

    # ---- operators
    def _b(self, o, f, swap=False, dtype=None):
        a, b = (o, self) if swap else (self, o)
        da, db = getdata(a), getdata(b)
        m = both(a, b)
        r = elementwise(f, da, db, dtype=dtype)
        if not isinstance(r, MaskSel):
            m = broadcast_to(m, r._shape)
        return MArr(_keep(m, da, r), m.copy())

    def _cmp(self, o, f):
        r = elementwise(f, self.data, getdata(o), dtype=bool)
        m = both(self, o)
        if not isinstance(r, MaskSel):
            m = broadcast_to(m, r._shape)
        return MArr(r, m.copy())

    def _eqne(self, o, f):
        r = self._cmp(o, f)
        om = getmask(o)
        if om is None:
            om = A.asarr(False)
        r.data = elementwise(lambda m, s, t, x: T.s_where(m, f(s, t), x), r._mask, self._mask, om, r.data, dtype=bool)
        return r

    def _ibop(self, o, f, div=False):
        """in-place operation: masked entries keep their value (on a selection, the caller writes the result back)"""
        od, om = getdata(o), getmask(o)
        m = self._mask
        if div:
            m = _or(m, elementwise(_iszero, od, dtype=bool))
        if om is not None:
            m = _or(m, om)

        def g(mm, x, y):
            return T.s_where(mm, x, f(x, _safe(y) if div else y))
        r = elementwise(g, m, self.data, od, dtype=self.data.dtype)
        if isinstance(self.data, MaskSel):
            return MArr(r, m)
        self.data[...] = r
        self._mask[...] = m
        return self

    def __imul__(self, o): return self._ibop(o, T.s_mul)
    def __itruediv__(self, o): return self._ibop(o, T.s_div, True)
    def __add__(self, o): return self._b(o, T.s_add)
    def __radd__(self, o): return self._b(o, T.s_add, True)
    def __sub__(self, o): return self._b(o, A.np_sub)
    def __rsub__(self, o): return self._b(o, A.np_sub, True)
    def __mul__(self, o): return self._b(o, T.s_mul)
    def __rmul__(self, o): return self._b(o, T.s_mul, True)
    def __truediv__(self, o):
        da, db = self.data, getdata(o)
        m = _or(both(self, o), elementwise(_iszero, db, dtype=bool))
        # (nan/inf operands are masked too; the quotient by zero is masked, so any nonzero stand-in serves)
        bad = elementwise(lambda x, y: SBool(z3.Not(z3.And(T.s_isfinite(x).as_bool(), T.s_isfinite(y).as_bool()))), da, db, dtype=bool)
        m = _or(m, bad)
        r = elementwise(lambda x, y: T.s_div(_fin(x), _fin(_safe(y))), da, db)
        return MArr(_keep(m, da, r), m)
    def __lt__(self, o): return self._cmp(o, T.s_lt)
    def __le__(self, o): return self._cmp(o, T.s_le)
    def __gt__(self, o): return self._cmp(o, T.s_gt)
    def __ge__(self, o): return self._cmp(o, T.s_ge)
    def __eq__(self, o): return self._eqne(o, T.s_eq)
    def __ne__(self, o): return self._eqne(o, T.s_ne)
    def __invert__(self): return MArr(~self.data, self._mask)
    def __neg__(self): return MArr(-self.data, self._mask)
    def __abs__(self): return MArr(abs(self.data), self._mask)
    def conj(self): return MArr(self.data.conj(), self._mask)
    def __iter__(self): raise Unsupported('iterating a masked array')
    def __len__(self): return len(self.data)
    def __bool__(self): raise Unsupported('truth of a masked array')
    def __array__(self, *a, **k): raise Unsupported('conversion of a symbolic masked array')


def masked_array(data=None, mask=False, dtype=None, copy=False, **kw):
    if kw:
        raise Unsupported('masked_array options')
    if isma(data):
        m = data._mask if mask is False else _or(data._mask, broadcast_to(asarr(mask), data._shape))
        return MArr(data.data.copy() if copy else data.data, m)
    d = asarr(data)
    d = d.astype(dtype) if dtype is not None else (d.copy() if copy else d)
    m = asarr(mask)
    m = m if m.ndim == d.ndim and m.kind == 'b' and mask is not False else broadcast_to(m.astype(bool), d._shape).copy()
    return MArr(d, m)


def diff(a, n=1, axis=-1):
    if n != 1:
        raise Unsupported('diff n')
    ax = axis % a.ndim
    s = lambda sl: a[tuple(sl if i == ax else slice(None) for i in range(a.ndim))]
    return s(slice(1, None)) - s(slice(None, -1))


FUNCS = {
    'sum': lambda a, axis=None, keepdims=False, **k: a.sum(axis, keepdims),
    'mean': lambda a, axis=None, keepdims=False, **k: a.mean(axis, keepdims),
    'any': lambda a, axis=None, **k: a.any(axis),
    'all': lambda a, axis=None, **k: a.all(axis),
    'diff': diff,
    'square': lambda a: MArr(elementwise(lambda x: T.s_mul(x, x), a.data), a._mask),
    'sqrt': lambda a: MArr(elementwise(T.s_sqrt, a.data), a._mask),
    'abs': lambda a: abs(a), 'absolute': lambda a: abs(a),
    'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim, 'iscomplexobj': lambda a: a.kind == 'c', 'isrealobj': lambda a: a.kind != 'c',
    'copy': lambda a: a.copy(),
}


class MaskedArrayType:
    """stand-in for the class np.ma.MaskedArray in the code under verification"""
    def __call__(self, data=None, *a, **k):
        from .npshim import _deep_sym
        if _deep_sym(data) or _deep_sym(a) or _deep_sym(k):
            return masked_array(data, *a, **k)
        return np.ma.MaskedArray(data, *a, **k)
    def __instancecheck__(self, x): return isinstance(x, np.ma.MaskedArray)
    def __getattr__(self, n): return getattr(np.ma.MaskedArray, n)
