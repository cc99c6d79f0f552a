"""A stand-in for the module-global `np` of the code under verification: calls whose arguments
contain symbolic values are interpreted on SymArray, everything else goes to real numpy."""
import builtins
import contextlib
import sys
import numpy as np
from . import terms as T
from . import arr as A
from .arr import SymArray, MaskSel, asarr, elementwise, has_sym, dim, zi, isint, scal, same_dim
from . import marr
from .marr import MArr
from .terms import z3, Sym, SymArrayBase, Unsupported, lift, is_sym, SInt, SBool, DT, kind_of_dtype


def _deep_sym(x, d=0):
    if is_sym(x) or isinstance(x, SymArrayBase):
        return True
    if d < 4:
        if isinstance(x, (list, tuple)):
            return any(_deep_sym(e, d + 1) for e in x)
        if type(x) is slice:
            return any(_deep_sym(e) for e in (x.start, x.stop, x.step))
        if isinstance(x, (dict,)) and d < 2:
            return any(_deep_sym(e, d + 1) for e in x.values())
        if type(x).__name__ in ('odict_values', 'dict_values', 'dict_keys', 'odict_keys'):
            return any(_deep_sym(e, d + 1) for e in x)
    return False


REG = {}


def reg(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def out_wrap(res, out, where=None):
    if out is None:
        return res
    if isinstance(out, tuple):
        out = out[0]
    out[...] = res
    return out


def _uf(name, f, dtype=None):
    def g(*args, out=None, where=True, dtype=None, **kw):
        r = elementwise(f, *[asarr(a) for a in args], dtype=DTY.get(name))
        if dtype is not None:
            r = r.astype(dtype)
        if where is not True:
            w = asarr(where)
            if out is None:
                out = _unk(A.broadcast_to(w, r._shape)._shape, r.dtype)   # uninitialised where not computed
            o = out[0] if isinstance(out, tuple) else out
            keep = o.copy()
            o[...] = elementwise(T.s_where, w, r, keep, dtype=o.dtype)
            return o
        r = out_wrap(r, out)
        if out is None and all(not isinstance(a, SymArrayBase) and not isinstance(a, (np.ndarray, list, tuple)) for a in args):
            return scal(r)
        return r
    g.__name__ = name
    REG[name] = g
    return g


def _sgn(a):
    if a.kind == 'c' or a.nan is not None:
        raise Unsupported('sign')
    one = lift(1.0) if a.kind == 'f' else lift(1)
    zero = T.s_sub(one, one)
    return T.s_where(T.s_gt(a, zero), one, T.s_where(T.s_lt(a, zero), T.s_neg(one), zero))


DTY = {}
for _n, _f in [('add', T.s_add), ('subtract', A.np_sub), ('multiply', T.s_mul), ('divide', T.s_div), ('true_divide', T.s_div),
               ('floor_divide', A.np_fdiv), ('mod', A.np_mod), ('remainder', A.np_mod), ('power', T.s_pow), ('negative', T.s_neg),
               ('conj', T.s_conj), ('conjugate', T.s_conj), ('abs', T.s_abs), ('absolute', T.s_abs), ('fabs', T.s_abs),
               ('exp', T.s_exp), ('sqrt', T.s_sqrt), ('sin', T.s_sin), ('cos', T.s_cos), ('log', T.s_log),
               ('floor', T.s_floor), ('maximum', T.s_max), ('minimum', T.s_min),
               ('square', lambda a: T.s_mul(a, a)), ('real_if_close', lambda a: a), ('sign', _sgn),
               ('reciprocal', lambda a: T.s_div(lift(1.0), a)), ('deg2rad', lambda a: T.s_mul(a, lift(np.pi / 180))),
               ('radians', lambda a: T.s_mul(a, lift(np.pi / 180)))]:
    _uf(_n, _f)
_uf('ceil', lambda a: T.s_neg(T.s_floor(T.s_neg(a.to('f')))))
for _n, _f in [('equal', T.s_eq), ('not_equal', T.s_ne), ('less', T.s_lt), ('less_equal', T.s_le), ('greater', T.s_gt),
               ('greater_equal', T.s_ge), ('isnan', T.s_isnan), ('isinf', T.s_isinf), ('isfinite', T.s_isfinite),
               ('logical_not', lambda a: SBool(T.bnot(a.as_bool()))),
               ('logical_and', lambda a, b: SBool(z3.And(a.as_bool(), b.as_bool()))),
               ('logical_or', lambda a, b: SBool(z3.Or(a.as_bool(), b.as_bool()))),
               ('logical_xor', lambda a, b: SBool(z3.Xor(a.as_bool(), b.as_bool())))]:
    DTY[_n] = bool
    _uf(_n, _f)
_uf('bitwise_and', T.s_and)
_uf('bitwise_or', T.s_or)
_uf('invert', T.s_invert)
_uf('bitwise_not', T.s_invert)


@reg('real')
def _real(a): return scal2(asarr(a).real, a)
@reg('imag')
def _imag(a): return scal2(asarr(a).imag, a)


def scal2(r, *orig):
    return scal(r) if all(not isinstance(o, SymArrayBase) and not isinstance(o, np.ndarray) for o in orig) else r


@reg('angle')
def _angle(a, deg=False):
    if deg:
        raise Unsupported('angle(deg)')
    return scal2(elementwise(T.s_angle, asarr(a)), a)


@reg('sum', 'add.reduce')
def _sum(a, axis=None, keepdims=False, dtype=None, out=None, where=None):
    a = asarr(a)
    if where is not None:
        w = A.broadcast_to(asarr(where), a._shape)
        z = lift(0).to(a.kind if a.kind != 'b' else 'i')
        a = elementwise(lambda m, x: T.s_where(m, x.to(z.kind), z), w, a)
    return out_wrap(A.reduce_sum(a, axis, keepdims), out)


@reg('nansum')
def _nansum(a, axis=None, keepdims=False, dtype=None, out=None):
    a = asarr(a)
    return out_wrap(A.reduce_sum(elementwise(_nan0, a, dtype=a.dtype), axis, keepdims), out)


def _nan0(x):
    if x.nan is None:
        return x
    z = lift(0).to(x.kind)
    return T.s_where(SBool(x.nan), z, Sym(x.kind, x.re, x.im, None, x.inf))


@reg('nanmean')
def _nanmean(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    s = A.reduce_sum(elementwise(_nan0, a, dtype=a.dtype), axis, keepdims)
    n = A.reduce_sum(elementwise(lambda x: SBool(T.bnot(x.nan)), a, dtype=bool), axis, keepdims)
    if isinstance(s, SymArrayBase):
        return elementwise(lambda x, y: T.s_div(x, y.to('f')), s, n)
    return T.s_div(s, n.to('f'))


@reg('mean')
def _mean(a, axis=None, keepdims=False, dtype=None, out=None): return A.reduce_mean(asarr(a), axis, keepdims)


@reg('average')
def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if weights is None:
        return A.reduce_mean(a, axis, keepdims)
    w = asarr(weights)
    if w.ndim != a.ndim:
        ax = axis % a.ndim
        w = w[tuple(slice(None) if i == ax else None for i in range(a.ndim))]
    s = A.reduce_sum(a * w, axis, keepdims)
    n = A.reduce_sum(A.broadcast_to(w, a._shape), axis, keepdims)
    # numpy raises ZeroDivisionError if any weight sum is zero
    if not isinstance(n, SymArrayBase):
        if T.ctx().branch(n.as_real() == 0):
            raise ZeroDivisionError('Weights sum to zero, can\'t be normalized')
        r = T.s_div(s, n)
    else:
        # (an arbitrary index stands for "some index": the other branch learns only that this one is not zero)
        idx = T.ctx().generic_index(n._shape)
        if idx is None:
            zero = bool(A.reduce_any(elementwise(lambda x: SBool(x.as_real() == 0), n, dtype=bool)))
        else:
            zero = T.ctx().branch(z3.And(T.ctx().generic_range(idx, n._shape), n.at(idx).as_real() == 0))
        if zero:
            raise ZeroDivisionError('Weights sum to zero')
        r = elementwise(T.s_div, s, n)
    return (r, n) if returned else r


@reg('any')
def _any(a, axis=None, keepdims=False, out=None, **kw): return out_wrap(A.reduce_any(asarr(a), axis, keepdims), out)
@reg('all')
def _all(a, axis=None, keepdims=False, out=None, **kw): return out_wrap(A.reduce_all(asarr(a), axis, keepdims), out)
@reg('max', 'amax')
def _max(a, axis=None, keepdims=False, **kw): return asarr(a).max(axis=axis, keepdims=keepdims)
@reg('min', 'amin')
def _min(a, axis=None, keepdims=False, **kw): return asarr(a).min(axis=axis, keepdims=keepdims)
@reg('prod')
def _prod(a, axis=None, keepdims=False, **kw): return asarr(a).prod(axis=axis, keepdims=keepdims)
@reg('count_nonzero')
def _cnz(a, axis=None, keepdims=False): return A.reduce_sum(asarr(a).astype(bool), axis, keepdims)


@reg('where')
def _where(c, *ab):
    if not ab:
        m = asarr(c)
        if m.ndim == 1 and all(isint(d) for d in m._shape):
            return (np.array([i for i in range(m._shape[0]) if bool(m.at((i,)))], dtype=int),)
        if all(isint(d) for d in m._shape) and int(np.prod(m._shape)) <= 64:
            return tuple(np.array([ii for ii in np.ndindex(*m._shape) if bool(m.at(ii))], dtype=int).reshape(-1, m.ndim).T)
        raise Unsupported('1-arg where on symbolic array')
    a, b = asarr(ab[0]), asarr(ab[1])
    k = max(a.kind, b.kind, key=T.KORD.get)
    return elementwise(lambda m, x, y: T.s_where(m, x.to(k), y.to(k)), asarr(c), a, b)


@reg('argwhere')
def _argwhere(c):
    m = asarr(c)
    if all(isint(d) for d in m._shape):
        return np.array([ii for ii in np.ndindex(*m._shape) if bool(m.at(ii))], dtype=int).reshape(-1, m.ndim)
    raise Unsupported('argwhere')


@reg('flatnonzero')
def _fnz(c): return _where(asarr(c).ravel())[0]
@reg('nonzero')
def _nz(c): return _where(c)


def _mk(shape, dtype, val):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dt = np.dtype(float if dtype is None else getattr(dtype, 'dtype', dtype))
    k = kind_of_dtype(dt)
    v = lift(val).to(k)
    return SymArray(tuple(shape), dt, lambda idx: v)


ALLOC = {}


def alloc(name):
    def deco(f):
        ALLOC[name] = f
        return f
    return deco


@alloc('zeros')
def _zeros(shape, dtype=float, **kw): return _mk(shape, dtype, 0)
@alloc('ones')
def _ones(shape, dtype=float, **kw): return _mk(shape, dtype, 1)
@alloc('empty')
def _empty(shape, dtype=float, **kw): return _unk(shape, dtype)


def _unk(shape, dtype):
    """uninitialised memory: arbitrary values"""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    c = T.ctx()
    return c._mk_input_array(c.fresh_name('empty'), tuple(shape), np.dtype(float if dtype is None else getattr(dtype, 'dtype', dtype)))


@alloc('full')
def _full(shape, fill_value, dtype=None, **kw):
    if isinstance(fill_value, SymArrayBase):
        fill_value = scal(fill_value)
    if dtype is None:
        dtype = DT[lift(fill_value).kind]
    return _mk(shape, dtype, fill_value)


@reg('zeros_like')
def _zl(a, dtype=None, shape=None, **kw): return _mk(asarr(a)._shape if shape is None else shape, dtype or asarr(a).dtype, 0)
@reg('ones_like')
def _ol(a, dtype=None, shape=None, **kw): return _mk(asarr(a)._shape if shape is None else shape, dtype or asarr(a).dtype, 1)
@reg('full_like')
def _fl(a, fill_value, dtype=None, **kw): return _full(asarr(a)._shape, fill_value, dtype or asarr(a).dtype)
@reg('empty_like')
def _el(a, dtype=None, **kw): return _unk(asarr(a)._shape, dtype or asarr(a).dtype)


@reg('array')
def _array(a, dtype=None, copy=True, **kw):
    r = asarr(_unview(a))
    r = r.copy() if copy or copy is None else r
    return r if dtype is None else r.astype(dtype)


def _unview(a):
    if not isinstance(a, (SymArrayBase, list, tuple)) and not is_sym(a) and hasattr(a, '__iter__'):
        return list(a)
    return a


@reg('asarray', 'ascontiguousarray', 'asanyarray')
def _asarray(a, dtype=None, **kw):
    r = asarr(_unview(a))
    return r if dtype is None or np.dtype(dtype) == r.dtype else r.astype(dtype)


@reg('atleast_1d')
def _a1(a):
    a = asarr(a)
    return a if a.ndim >= 1 else a[None]


@reg('atleast_2d')
def _a2(a):
    a = asarr(a)
    return a if a.ndim >= 2 else (a[None] if a.ndim == 1 else a[None, None])


@reg('copy')
def _copy(a, **kw): return asarr(a).copy()


@reg('shape')
def _shape(a): return asarr(a).shape
@reg('ndim')
def _ndim(a): return asarr(a).ndim
@reg('size')
def _size(a, axis=None): return asarr(a).size if axis is None else asarr(a)._shape[axis]
@reg('transpose')
def _tr(a, axes=None): return asarr(a).transpose(*(axes or ()))
@reg('swapaxes')
def _sw(a, x, y): return asarr(a).swapaxes(x, y)


@reg('moveaxis')
def _mv(a, s, d):
    a = asarr(a)
    ax = [i for i in range(a.ndim) if i != s % a.ndim]
    ax.insert(d % a.ndim, s % a.ndim)
    return a.transpose(ax)


@reg('squeeze')
def _sq(a, axis=None): return asarr(a).squeeze(axis)
@reg('expand_dims')
def _ed(a, axis):
    a = asarr(a)
    nd = a.ndim + 1
    ax = axis % nd
    return a[tuple([slice(None)] * ax + [None])]
@reg('reshape')
def _rs(a, shape, **kw): return asarr(a).reshape(shape)
@reg('ravel')
def _rv(a, **kw): return asarr(a).ravel()
@reg('broadcast_to')
def _bt(a, shape): return A.broadcast_to(asarr(a), shape if isinstance(shape, (tuple, list)) else (shape,))
@reg('broadcast_arrays')
def _ba(*a):
    a = [asarr(x) for x in a]
    sh = A.bshape(*[x._shape for x in a])
    return [A.broadcast_to(x, sh) for x in a]


@reg('concatenate', 'append_')
def _concat(arrs, axis=0, **kw):
    arrs = [asarr(a) for a in arrs]
    if any(isinstance(a, MaskSel) for a in arrs):
        raise Unsupported('concatenate selections')
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
        nd = 1
    ax = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for i in range(nd):
            if i != ax and not same_dim(a._shape[i], arrs[0]._shape[i]):
                if T.ctx().branch(zi(a._shape[i]) != zi(arrs[0]._shape[i])):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    k = max((a.kind for a in arrs), key=T.KORD.get)
    tot = 0
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = A.add_i(tot, a._shape[ax])
    fs = [a.frozen() for a in arrs]
    shape = list(arrs[0]._shape)
    shape[ax] = tot
    def fn(idx):
        i = idx[ax]
        res = None
        for a, o, f in reversed(list(zip(arrs, offs, fs))):
            loc = A.add_i(i, dim(SInt(-zi(o)))) if not (isint(i) and isint(o)) else i - o
            if isint(loc) and isint(a._shape[ax]):
                if 0 <= loc < a._shape[ax]:
                    return f(idx[:ax] + (loc,) + idx[ax + 1:]).to(k)
                continue
            v = f(idx[:ax] + (loc,) + idx[ax + 1:]).to(k)
            res = v if res is None else T.s_where(SBool(z3.And(zi(loc) >= 0, zi(loc) < zi(a._shape[ax]))), v, res)
        if res is None:
            raise IndexError
        return res
    return SymArray(shape, DT[k] if k in 'fc' else arrs[0].dtype, fn)


@reg('pad')
def _pad(a, pad_width, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    if mode != 'constant' or kw:
        raise Unsupported('pad mode')
    pw = list(pad_width) if isinstance(pad_width, (tuple, list)) else [pad_width, pad_width]
    if all(not isinstance(x, (tuple, list)) for x in pw):
        pw = [tuple(pw) if len(pw) == 2 else (pw[0], pw[0])] * a.ndim
    elif len(pw) == 1:
        pw = pw * a.ndim
    if isinstance(constant_values, (tuple, list)):
        raise Unsupported('pad values')
    for ax, (lo, hi) in enumerate(pw):
        parts = []
        for n, where in ((lo, 0), (hi, 1)):
            sh = list(a._shape)
            sh[ax] = n
            parts.append(None if isinstance(n, (int, np.integer)) and n == 0 else _full(tuple(sh), constant_values, a.dtype))
        ps = [x for x in (parts[0], a, parts[1]) if x is not None]
        if len(ps) > 1:
            a = _concat(ps, axis=ax)
    return a


@reg('append')
def _append(a, v, axis=None):
    return _concat([asarr(a), asarr(v)] if axis is not None else [asarr(a).ravel(), asarr(v).reshape(-1) if asarr(v).ndim else asarr(v)[None]], axis=axis or 0)


@reg('stack')
def _stack(arrs, axis=0, **kw):
    arrs = [asarr(a) for a in arrs]
    return _concat([_ed(a, axis) for a in arrs], axis=axis)


@reg('vstack')
def _vstack(arrs): return _concat([_a2(a) for a in arrs], axis=0)
@reg('hstack')
def _hstack(arrs): return _concat([_a1(a) for a in arrs], axis=0 if asarr(arrs[0]).ndim <= 1 else 1)


@reg('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = lift(rtol), lift(atol)
    def f(x, y):
        if x.inf is not None or y.inf is not None:
            raise Unsupported('isclose(inf)')
        d = T.s_abs(T.s_sub(x.to('f') if x.kind in 'bi' else x, y))
        return T.s_le(d, T.s_add(at, T.s_mul(rt, T.s_abs(y.to('f') if y.kind in 'bi' else y))))
    return scal2(elementwise(f, asarr(a), asarr(b), dtype=bool), a, b)


@reg('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return A.reduce_all(asarr(_isclose(asarr(a), asarr(b), rtol, atol)))


@reg('array_equal')
def _ae(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not same_dim(x, y) and T.ctx().branch(zi(x) != zi(y)):
            return False
    return A.reduce_all(elementwise(T.s_eq, a, b, dtype=bool))


@reg('nan_to_num')
def _n2n(a, nan=0.0, **kw):
    a = asarr(a)
    def f(x):
        if x.inf is not None and not T.ctx().must(z3.Not(x.inf)):
            raise Unsupported('nan_to_num(inf)')
        return T.s_where(SBool(T.zb(x.nan)), lift(nan).to(x.kind), Sym(x.kind, x.re, x.im))
    return elementwise(f, a, dtype=a.dtype)


@reg('clip')
def _clip(a, lo, hi, **kw): return asarr(a).clip(lo, hi)


@reg('iscomplexobj')
def _ico(a): return asarr(a).kind == 'c'
@reg('isrealobj')
def _iro(a): return asarr(a).kind != 'c'
@reg('isscalar')
def _isc(a): return is_sym(a)


@reg('ediff1d')
def _ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported('ediff1d')
    return REG['diff'](asarr(a).ravel())


@reg('diff')
def _diff(a, n=1, axis=-1):
    a = asarr(a)
    ax = axis % a.ndim
    k = [slice(None)] * a.ndim
    hi, lo = list(k), list(k)
    hi[ax], lo[ax] = slice(1, None), slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)] if a.kind != 'b' else elementwise(T.s_xor, a[tuple(hi)], a[tuple(lo)])


@alloc('arange')
def _arange(*a, **kw):
    dt = kw.get('dtype')
    if not _deep_sym(a):
        return np.arange(*a, **{k: getattr(v, 'dtype', v) for k, v in kw.items()})
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    s, e, st = lift(start), lift(stop), lift(step)
    if T.top(s, e, st) != 'i':
        raise Unsupported('float arange')
    if not (is_sym(step) is False and step == 1):
        raise Unsupported('arange step')
    n = dim(SInt(z3.simplify(z3.If(e.as_int() >= s.as_int(), e.as_int() - s.as_int(), 0))))
    if T.ctx().must(e.as_int() >= s.as_int()):
        n = dim(SInt(z3.simplify(e.as_int() - s.as_int())))
    return SymArray((n,), int, lambda idx: SInt(s.as_int() + zi(idx[0])))


@reg('dot')
def _dot(a, b, **kw): return A.matmul(asarr(a), asarr(b)) if asarr(b).ndim > 0 else asarr(a) * b
@reg('matmul')
def _mm(a, b, **kw): return A.matmul(asarr(a), asarr(b))


@reg('outer')
def _outer(a, b): return asarr(a).ravel()[:, None] * asarr(b).ravel()[None, :]


@reg('argsort')
def _argsort(a, *x, **kw): return A.argsort(asarr(a))


@reg('sort')
def _sort(a, *x, **kw):
    a = asarr(a)
    return a[A.argsort(a)]


@reg('argmin')
def _argmin(a, axis=None): return _argx(a, axis, T.s_lt)
@reg('argmax')
def _argmax(a, axis=None): return _argx(a, axis, T.s_gt)


def _argx(a, axis, better):
    a = asarr(a)
    if a.ndim != 1 or not isint(a._shape[0]):
        raise Unsupported('argmin/argmax of symbolic-size array')
    best = 0
    for i in range(1, a._shape[0]):
        if bool(better(a.at((i,)), a.at((best,)))):
            best = i
    return best


@reg('unique')
def _unique(a, **kw):
    a = asarr(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    if not isint(a._shape[0]) or kw:
        raise Unsupported('unique')
    srt = a[A.argsort(a)] if a._shape[0] else a
    vals = []
    for i in range(a._shape[0]):
        v = srt.at((i,))
        if not vals or bool(T.s_ne(v, vals[-1])):
            vals.append(v)
    return asarr(vals) if vals else np.zeros(0)


@reg('searchsorted')
def _ss(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None:
        raise Unsupported('searchsorted sorter')
    if not isint(a._shape[0]):
        raise Unsupported('searchsorted on symbolic-size array')
    n = a._shape[0]
    op = T.s_lt if side == 'left' else T.s_le
    def one(x):
        # for sorted a: number of elements < x (<= x); binary search result on unsorted input is unspecified
        r = z3.Sum(*[z3.If(op(a.at((i,)), x).re, 1, 0) for i in range(n)]) if n else z3.IntVal(0)
        return SInt(r)
    for i in range(n - 1):
        if not T.ctx().must(T.s_le(a.at((i,)), a.at((i + 1,))).re):
            raise Unsupported('searchsorted on possibly unsorted array')
    if isinstance(v, SymArrayBase) or isinstance(v, (np.ndarray, list, tuple)):
        return elementwise(one, asarr(v), dtype=int)
    return one(lift(v))


@reg('digitize')
def _dig(x, bins, right=False):
    return _ss(bins, x, side='left' if right else 'right')


@reg('repeat')
def _repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    n = dim(n)
    f = a.frozen()
    ax = axis % a.ndim
    sh = list(a._shape)
    sh[ax] = A.mul_i(sh[ax], n)
    return SymArray(sh, a.dtype, lambda idx: f(idx[:ax] + ((idx[ax] // n) if isint(idx[ax]) and isint(n) else dim(SInt(zi(idx[ax]) / zi(n))),) + idx[ax + 1:]))


@reg('tile')
def _tile(a, reps):
    a = asarr(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    nd = max(a.ndim, len(reps))
    while a.ndim < nd:
        a = a[None]
    reps = (1,) * (nd - len(reps)) + reps
    f = a.frozen()
    sh = [A.mul_i(d, dim(r)) for d, r in zip(a._shape, reps)]
    def fn(idx):
        out = []
        for i, d, r in zip(idx, a._shape, reps):
            if isint(r) and r == 1:
                out.append(i)
            elif isint(i) and isint(d):
                out.append(i % d)
            else:
                out.append(dim(SInt(zi(i) % zi(d))))
        return f(tuple(out))
    return SymArray(sh, a.dtype, fn)


@reg('einsum')
def _einsum(spec, *ops, **kw):
    if not isinstance(spec, str) or set(kw) - {'optimize'}:
        raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    if '->' not in spec:
        raise Unsupported('implicit einsum output')
    ins, outs = spec.split('->')
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    if any('...' in s for s in ins):
        # name the broadcast axes explicitly (aligned to the right, as numpy does)
        extra = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
        m = max(extra)
        names = [chr(ord('A') + q) for q in range(m)]
        if any(n in spec for n in names):
            raise Unsupported('einsum names')
        ins = [s.replace('...', ''.join(names[m - e:])) for s, e in zip(ins, extra)]
        outs = outs.replace('...', ''.join(names))
    if any(len(set(s)) != len(s) for s in ins):
        raise Unsupported('einsum diagonal')
    dims = {}
    one = {}
    for q, (s, o) in enumerate(zip(ins, ops)):
        if len(s) != o.ndim:
            raise ValueError('einsum subscripts')
        for ch, d in zip(s, o._shape):
            if ch in dims:
                if A.isint(d) and d == 1 and not (A.isint(dims[ch]) and dims[ch] == 1):
                    one[q, ch] = True
                elif A.isint(dims[ch]) and dims[ch] == 1 and not (A.isint(d) and d == 1):
                    for p in range(q):
                        one[p, ch] = True
                    dims[ch] = d
                elif not same_dim(dims[ch], d):
                    if T.ctx().branch(A.zi(dims[ch]) != A.zi(d)):
                        raise ValueError('einsum dims')
            else:
                dims[ch] = d
    fs = [o.frozen() for o in ops]
    red = [ch for ch in sorted(dims) if ch not in outs]
    k = max((o.kind for o in ops), key=T.KORD.get)
    def fn(idx):
        env = dict(zip(outs, idx))
        def elem(r):
            e = dict(env)
            e.update(zip(red, r))
            p = None
            for q, (s, f) in enumerate(zip(ins, fs)):
                v = f(tuple(0 if one.get((q, ch)) else e[ch] for ch in s))
                p = v if p is None else T.s_mul(p, v)
            return p
        return A._nest([dims[ch] for ch in red], elem, lambda n, g: T.ctx().mk_sum(n, g, k))
    return scal(SymArray([dims[ch] for ch in outs], DT[k], fn))


@reg('cross')
def _cross(a, b): raise Unsupported('cross')


@reg('flip')
def _flip(a, axis=None):
    a = asarr(a)
    return a[tuple(slice(None, None, -1) if axis is None or i == axis % a.ndim else slice(None) for i in range(a.ndim))]


@reg('roll')
def _roll(a, shift, axis=None):
    a = asarr(a)
    if a.ndim != 1 and axis is None:
        raise Unsupported('roll of a flattened array')
    ax = 0 if axis is None else axis % a.ndim
    n = a._shape[ax]
    f = a.frozen()
    s = zi(dim(shift))

    def fn(idx):
        j = (zi(idx[ax]) - s) % zi(n)
        j = z3.simplify(j)
        k = j.as_long() if z3.is_int_value(j) else dim(SInt(j))
        return f(idx[:ax] + (k,) + idx[ax + 1:])
    return SymArray(a._shape, a.dtype, fn)


@reg('cumsum')
def _cumsum(a, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not isint(a._shape[0]):
        raise Unsupported('cumsum')
    out, tot = [], lift(0)
    for i in range(a._shape[0]):
        tot = T.s_add(tot, a.at((i,)))
        out.append(tot)
    return asarr(out)


@reg('isin')
def _isin(a, b, **kw):
    a, b = asarr(a), asarr(b)
    fb = b.reshape(-1)
    f2 = fb.frozen()
    return elementwise(lambda x: T.ctx().mk_exists(fb._shape[0], lambda i: T.s_eq(x, f2((i,)))), a, dtype=bool)


@reg('round', 'around')
def _round(a, decimals=0, **kw):
    if decimals != 0:
        raise Unsupported('round to decimals')
    return scal2(elementwise(T.s_round, asarr(a)), a)
_uf('rint', T.s_round)


@reg('unwrap')
def _unwrap(a, **kw):
    a = asarr(a)
    if kw or a.ndim != 1 or not isint(a._shape[0]) or a.dtype.kind != 'f':
        raise Unsupported('unwrap')
    n = int(a._shape[0])
    vals = [a.at((q,)) for q in range(n)]
    out, cum = vals[:1], lift(0.0)
    for q in range(1, n):
        dd = T.s_sub(vals[q], vals[q - 1])
        m = T.s_sub(T.s_mod(T.s_add(dd, lift(np.pi)), lift(2 * np.pi)), lift(np.pi))
        m = T.s_where(T.s_and(T.s_eq(m, lift(-np.pi)), T.s_gt(dd, lift(0.0))), lift(np.pi), m)
        small = T.s_and(T.s_lt(dd, lift(np.pi)), T.s_gt(dd, lift(-np.pi)))
        cum = T.s_add(cum, T.s_where(small, lift(0.0), T.s_sub(m, dd)))
        out.append(T.s_add(vals[q], cum))
    return asarr(out)


@reg('median')
def _median(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    if a.ndim == 1 and isint(a._shape[0]) and a._shape[0] > 0:
        o = A.argsort(a)
        n = len(o)
        if n % 2:
            return a.at((int(o[n // 2]),))
        return T.s_div(T.s_add(a.at((int(o[n // 2 - 1]),)), a.at((int(o[n // 2]),))), lift(2.0))
    raise Unsupported('median')


class _UfuncShim:
    def __init__(self, shim, real, name):
        self._s, self._r, self._n = shim, real, name

    def __call__(self, *a, **k):
        return self._s(self._n, self._r, a, k)

    def __getattr__(self, n):
        return getattr(self._r, n)

    def reduce(self, a, axis=0, **kw):
        if not _deep_sym(a):
            return self._r.reduce(a, axis=axis, **kw)
        m = {'add': _sum, 'logical_or': _any, 'logical_and': _all, 'bitwise_or': _any, 'bitwise_and': _all, 'multiply': _prod}.get(self._n)
        if m is None:
            raise Unsupported(f'{self._n}.reduce')
        return m(a, axis=axis, **kw)


MA = {}


class _MaResult:
    def __init__(self, data, mask):
        self.data, self.mask = data, mask

    def filled(self, v):
        return elementwise(lambda d, m: T.s_where(m, lift(v), d), self.data, self.mask)


def _ma_average(a, axis=None, weights=None):
    a = asarr(a)
    if weights is None:
        return _MaResult(_mean(a, axis=axis), None)
    w = asarr(weights)
    num, den = _sum(a * w, axis=axis), _sum(w, axis=axis)
    m = elementwise(lambda d: SBool(T.zb(d.as_real() == 0)), asarr(den), dtype=bool)
    junk = _unk(m._shape, asarr(num).dtype)
    r = elementwise(lambda n, d, z, j: T.s_where(z, j, Sym(T.s_div(n, d).kind, T.s_div(n, d).re, T.s_div(n, d).im, T.bor(n.nan, d.nan))), asarr(num), asarr(den), m, junk)
    return _MaResult(r, m)


MA['average'] = _ma_average


class NpShim:
    """module-like object"""
    def __init__(self, real=np, prefix=''):
        self.__dict__['_real'] = real
        self.__dict__['_cache'] = {}
        self.__dict__['_prefix'] = prefix

    def _dispatch(self, name, real, a, k):
        if name in ALLOC and T.CTX is not None:
            dt = k.get('dtype', a[1] if len(a) > 1 and name not in ('full', 'arange') else None)
            if getattr(dt, 'dtype', dt) not in (object, str) and not (dt is not None and np.dtype(getattr(dt, 'dtype', dt)).kind not in 'biufc'):
                return ALLOC[name](*a, **k)
        if _deep_sym(a) or _deep_sym(k):
            if any(type(x) is MArr for x in a) or any(type(x) is MArr for x in k.values()):
                if name in marr.FUNCS and a and type(a[0]) is MArr:
                    return marr.FUNCS[name](*a, **k)
                raise Unsupported(f'np.{self._prefix}{name} on masked arrays')
            if self._prefix == 'ma.':
                if name in MA:
                    return MA[name](*a, **k)
                raise Unsupported(f'np.ma.{name} on symbolic values')
            if name in REG:
                return REG[name](*a, **k)
            raise Unsupported(f'np.{self._prefix}{name} on symbolic values')
        return real(*a, **k)

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        real = getattr(self._real, name)
        if isinstance(real, np.ufunc):
            r = _UfuncShim(self._dispatch, real, name)
        elif self._prefix == 'ma.' and name in ('MaskedArray', 'masked_array', 'array'):
            r = marr.MaskedArrayType()
        elif isinstance(real, type) or not callable(real):
            if name in ('linalg', 'fft', 'random', 'testing', 'ma') and not isinstance(real, type):
                r = NpShim(real, name + '.')
            else:
                r = real
        else:
            def r(*a, _n=name, _real=real, **k):
                return self._dispatch(_n, _real, a, k)
            r.__name__ = name
        c[name] = r
        return r




@reg('norm')
def _norm(a, axis=None, ord=None, **kw):  # noqa: A002
    if ord is not None:
        raise Unsupported('norm ord')
    a = asarr(a)
    s = A.reduce_sum(elementwise(lambda x: T.s_mul(x, x) if x.kind != 'c' else Sym('f', x.re * x.re + x.im * x.im), a.astype(float) if a.kind in 'bi' else a), axis)
    return elementwise(T.s_sqrt, s) if isinstance(s, SymArrayBase) else T.s_sqrt(s)


class TypeShim:
    def __init__(self, real):
        self.real_ = real
        self.dtype = np.dtype(real)
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymArrayBase):
                x = x.item()
            if is_sym(x):
                kd = {int: 'i', float: 'f', complex: 'c'}[self.real_]
                return x.to(kd)
        return self.real_(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self.real_)

    def __subclasscheck__(self, x):
        return issubclass(x, self.real_)

    def __eq__(self, o):
        return o is self or o is self.real_

    def __hash__(self):
        return hash(self.real_)

    def __getattr__(self, n):
        return getattr(self.real_, n)


def sym_len(x):
    if isinstance(x, SymArrayBase):
        return x.symlen()
    f = getattr(type(x), 'symlen', None)
    if f is not None:
        return f(x)
    return builtins.len(x)


def sym_range(*a):
    a = [dim(x) if is_sym(x) else x for x in a]
    if all(not is_sym(x) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return builtins.range(T.ctx().concretize_int(a[0].as_int()))
    return builtins.range(*[x if not is_sym(x) else T.ctx().concretize_int(x.as_int()) for x in a])


SHIM = NpShim()
INT, FLOAT, COMPLEX = TypeShim(int), TypeShim(float), TypeShim(complex)


@contextlib.contextmanager
def patched(extra=None, prefix='hera_cal'):
    """install the shims in every loaded module of the code under verification"""
    saved = []
    missing = object()

    def put(mod, name, val):
        saved.append((mod, name, mod.__dict__.get(name, missing)))
        mod.__dict__[name] = val
    for mn, mod in list(sys.modules.items()):
        if mod is None or not (mn == prefix or mn.startswith(prefix + '.')) or '.tests' in mn:
            continue
        if mod.__dict__.get('np') is np:
            put(mod, 'np', SHIM)
        for n, v in (('len', sym_len), ('range', sym_range), ('int', INT), ('float', FLOAT), ('complex', COMPLEX)):
            if n not in mod.__dict__:
                put(mod, n, v)
    for (mod, name, val) in (extra or ()):
        put(mod, name, val)
    try:
        yield
    finally:
        for mod, name, old in reversed(saved):
            if old is missing:
                mod.__dict__.pop(name, None)
            else:
                mod.__dict__[name] = old
