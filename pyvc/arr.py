"""Symbolic n-d arrays: shape entries are python ints or symbolic ints, elements are a
function of the index.  Views share a Store (so in-place writes are visible through every
view), exactly as numpy basic indexing does."""
import operator
import numpy as np
from . import terms as T
from .terms import z3, Sym, SymArrayBase, Unsupported, lift, is_sym, SInt, SBool, kind_of_dtype, DT, top


def dim(x):
    """normalise a dimension / index: python int when constant"""
    if is_sym(x):
        v = T.zval(x.re) if x.kind == 'i' else None
        if v is None:
            s = z3.simplify(x.as_int())
            v = T.zval(s)
            if v is None:
                return SInt(s)
        return int(v)
    return int(x)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) and not is_sym(x) else x.as_int()


def isint(x):
    return type(x) is int


def same_dim(a, b):
    if isint(a) and isint(b):
        return a == b
    if not isint(a) and not isint(b) and a.re.eq(b.re):
        return True
    return T.ctx().must(zi(a) == zi(b))


def bdim(a, b):
    """broadcast two dims"""
    if isint(a) and isint(b):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise ValueError('operands could not be broadcast together')
    if isint(a) and a == 1:
        return b
    if isint(b) and b == 1:
        return a
    if same_dim(a, b):
        return a if isint(a) else b
    c = T.ctx()
    if c.branch(zi(a) == zi(b)):
        return a if isint(a) else b
    if c.branch(zi(a) == 1):
        return b
    if c.branch(zi(b) == 1):
        return a
    raise ValueError('operands could not be broadcast together')


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                d = bdim(d, s[j])
        out.append(d)
    return tuple(out)


def norm_index(i, n):
    """python int / Sym index with numpy negative & bounds semantics"""
    i = dim(i)
    if isint(i) and isint(n):
        if not -n <= i < n:
            raise IndexError(f'index {i} is out of bounds for axis with size {n}')
        return i % n if n else i
    c = T.ctx()
    if not c.must(z3.And(zi(i) >= 0, zi(i) < zi(n))):
        if not c.branch(z3.And(zi(i) >= -zi(n), zi(i) < zi(n))):
            raise IndexError('index out of bounds')
        if c.branch(zi(i) < 0):
            return dim(SInt(zi(i) + zi(n)))
    return i


def norm_slice(s, n):
    """-> (start, step, length)"""
    step = 1 if s.step is None else dim(s.step)
    if not isint(step):
        step = T.ctx().concretize_int(step.as_int())
    if step == 0:
        raise ValueError('slice step cannot be zero')
    start = None if s.start is None else dim(s.start)
    stop = None if s.stop is None else dim(s.stop)
    if isint(n) and (start is None or isint(start)) and (stop is None or isint(stop)):
        a, b, st = slice(start, stop, step).indices(n)
        return a, st, len(range(a, b, st))
    c = T.ctx()

    def clip(v, lo, hi):
        t = zi(v)
        N = zi(n)
        if c.must(t < 0):
            t = t + N
        elif not c.must(t >= 0):
            t = z3.If(t < 0, t + N, t)
        if not c.must(t >= lo):
            t = z3.If(t < lo, lo, t)
        if not c.must(t <= hi):
            t = z3.If(t > hi, hi, t)
        return z3.simplify(t)
    N = zi(n)
    if step > 0:
        a = z3.IntVal(0) if start is None else clip(start, z3.IntVal(0), N)
        b = N if stop is None else clip(stop, z3.IntVal(0), N)
        ln = b - a if step == 1 else (b - a + (step - 1)) / step
        if not c.must(b >= a):
            ln = z3.If(b >= a, ln, 0)
    else:
        a = N - 1 if start is None else clip(start, z3.IntVal(-1), N - 1)
        b = z3.IntVal(-1) if stop is None else clip(stop, z3.IntVal(-1), N - 1)
        ln = (a - b + (-step - 1)) / (-step) if step != -1 else a - b
        if not c.must(a >= b):
            ln = z3.If(a >= b, ln, 0)
    return dim(SInt(z3.simplify(a))), step, dim(SInt(z3.simplify(ln)))


def unmask(k):
    """a masked array used as an index selects by its data"""
    return k.data if type(k).__name__ == 'MArr' else k


class Store:
    __slots__ = ('shape', 'dtype', 'kind', 'fn', 'memo', 'version', 'name')

    def __init__(self, shape, dtype, fn, name=None):
        self.shape = tuple(dim(d) for d in shape)
        self.dtype = np.dtype(dtype)
        self.kind = kind_of_dtype(self.dtype)
        self.fn = fn
        self.memo = {}
        self.version = 0
        self.name = name

    def get(self, idx):
        key = tuple(i if isint(i) else i.re.get_id() for i in idx)
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        v = lift(self.fn(idx)).to(self.kind)
        self.memo[key] = (v, idx)   # keep idx alive (ids)
        return v

    def update(self, fn):
        self.fn = fn
        self.memo = {}
        self.version += 1


def add_i(a, b):
    if isint(a) and isint(b):
        return a + b
    return dim(SInt(zi(a) + zi(b)))


def mul_i(a, b):
    if isint(a) and isint(b):
        return a * b
    return dim(SInt(zi(a) * zi(b)))


class SymArray(SymArrayBase):
    __array_ufunc__ = None
    __array_priority__ = 1e9
    __hash__ = None

    def __init__(self, shape, dtype, fn, store=None, vmap=None, readonly=False, name=None):
        self._shape = tuple(dim(d) for d in shape)
        if store is None:
            store = Store(self._shape, dtype, fn, name)
            vmap = [('ax', k, 0, 1) for k in range(len(self._shape))]
        self._store = store
        self._vmap = vmap
        self._ro = readonly

    @property
    def __class__(self):
        return np.ndarray

    def __repr__(self):
        return f'<SymArray {self._store.name} {self._shape} {self._store.dtype}>'

    # ---- basic attributes
    @property
    def shape(self): return tuple(d for d in self._shape)
    @shape.setter
    def shape(self, new):
        r = self.reshape(new)
        self._shape, self._store, self._vmap = r._shape, r._store, r._vmap
    @property
    def ndim(self): return len(self._shape)
    @property
    def dtype(self): return self._store.dtype
    @property
    def kind(self): return self._store.kind
    @property
    def size(self):
        n = 1
        for d in self._shape:
            n = mul_i(n, d)
        return n
    @property
    def flags(self): raise Unsupported('ndarray.flags')
    @property
    def T(self): return self.transpose()
    @property
    def real(self): return elementwise(lambda a: a.real, self, view_like=True) if self.kind == 'c' else self
    @real.setter
    def real(self, v):
        v = asarr(v)
        new = elementwise(lambda a, b: Sym('c', b.as_real(), a.im, T.bor(a.nan, b.nan), T.bor(a.inf, b.inf)), self.copy(), v, dtype=complex)
        self._assign_all(new)
    @property
    def imag(self): return elementwise(lambda a: a.imag, self)
    @imag.setter
    def imag(self, v):
        v = asarr(v)
        new = elementwise(lambda a, b: Sym('c', a.re, b.as_real(), T.bor(a.nan, b.nan), T.bor(a.inf, b.inf)), self.copy(), v, dtype=complex)
        self._assign_all(new)

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        d = self._shape[0]
        return d if isint(d) else T.ctx().concretize_int(d.re)

    def symlen(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        if not isint(d):
            d = T.ctx().concretize_int(d.re)
        for i in range(d):
            yield self[i]

    def __bool__(self):
        n = self.size
        if isint(n):
            if n == 1:
                return bool(self.at(tuple(0 for _ in self._shape)))
            if n == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        if T.ctx().must(zi(n) == 1):
            return bool(self.at(tuple(0 for _ in self._shape)))
        raise Unsupported('truth value of symbolic-size array')

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __complex__(self): raise Unsupported('complex()')
    def __array__(self, *a, **k):
        if self.kind == 'b' and all(isint(d) for d in self._shape) and int(np.prod(self._shape)) <= 16:
            # a small mask of known size: fork on every element
            return np.array([bool(self.at(ii)) for ii in np.ndindex(*self._shape)], dtype=bool).reshape(self._shape)
        raise Unsupported('implicit conversion of a symbolic array to numpy')

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self.at(tuple(0 for _ in self._shape))

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArrayBase) else x for x in self]

    # ---- element access
    def _base_idx(self, idx):
        out = []
        for m in self._vmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                _, k, start, step = m
                i = idx[k]
                if step != 1:
                    i = mul_i(i, step)
                out.append(add_i(i, start) if not (isint(start) and start == 0) else i)
        return tuple(out)

    def at(self, idx):
        """element at an in-range index tuple"""
        return self._store.get(self._base_idx(tuple(dim(i) for i in idx)))

    # ---- indexing
    def _expand_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # bool scalars unsupported
        n_used = 0
        ell = None
        for p, k in enumerate(key):
            if k is Ellipsis:
                ell = p
            elif k is None:
                pass
            elif isinstance(k, (SymArrayBase, np.ndarray)) and kind_of_dtype(k.dtype) == 'b' and not is_sym(k):
                n_used += k.ndim
            else:
                n_used += 1
        if n_used > self.ndim:
            raise IndexError('too many indices for array')
        fill = [slice(None)] * (self.ndim - n_used)
        if ell is None:
            key = key + fill
        else:
            key = key[:ell] + fill + key[ell + 1:]
        return key

    def _subview(self, key):
        """basic indexing -> SymArray view"""
        newshape = []
        axmap = {}   # old view axis -> ('fix', i) or ('ax', newaxis, start, step)
        a = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            n = self._shape[a]
            if isinstance(k, slice):
                st, step, ln = norm_slice(k, n)
                axmap[a] = ('ax', len(newshape), st, step)
                newshape.append(ln)
            else:
                axmap[a] = ('fix', norm_index(k, n))
            a += 1
        vmap = []
        for m in self._vmap:
            if m[0] == 'fix':
                vmap.append(m)
            else:
                _, ax, s0, st0 = m
                t = axmap[ax]
                if t[0] == 'fix':
                    vmap.append(('fix', add_i(mul_i(t[1], st0), s0)))
                else:
                    vmap.append(('ax', t[1], add_i(mul_i(t[2], st0), s0), t[3] * st0))
        return SymArray(newshape, None, None, store=self._store, vmap=vmap, readonly=self._ro)

    def _classify(self, key):
        key = self._expand_key(key)
        adv = []
        for p, k in enumerate(key):
            if isinstance(k, (list,)):
                k = key[p] = as_index(k)
            if isinstance(k, (SymArrayBase, np.ndarray)) and not is_sym(k):
                if k.ndim == 0:
                    key[p] = k.item()
                else:
                    adv.append(p)
            elif isinstance(k, range):
                key[p] = np.asarray(k)
                adv.append(p)
        return key, adv

    def __getitem__(self, key):
        key = unmask(key)
        if isinstance(key, MaskSel):
            raise Unsupported('index with masked selection')
        key, adv = self._classify(key)
        if not adv:
            v = self._subview(key)
            if v.ndim == 0 and not any(k is None for k in key) and Ellipsis not in [k for k in key if k is Ellipsis]:
                return v.at(())
            return v
        if len(adv) > 1:
            return self._multi_adv_get(key, adv)
        p = adv[0]
        k = key[p]
        # apply all basic parts first, keeping the axes consumed by k whole
        if kind_of_dtype(k.dtype) == 'b':
            m = asarr(k)
            key2 = key[:p] + [slice(None)] * m.ndim + key[p + 1:]
            v = self._subview(key2)
            ax = sum(1 for q in key[:p] if q is None or isinstance(q, slice))
            for j in range(m.ndim):
                if not same_dim(m._shape[j], v._shape[ax + j]):
                    if T.ctx().branch(zi(m._shape[j]) != zi(v._shape[ax + j])):
                        raise IndexError('boolean index did not match indexed array')
            if all(isint(d) for d in m._shape) and m_concrete(m):
                sel = np.argwhere(np.array([[bool(x)] for x in _flat_bools(m)]).reshape(m._shape))
                if m.ndim == 1:
                    return v._take(np.asarray(sel[:, 0]), ax)
            return MaskSel(v.copy(), m, ax)
        v = self._subview(key[:p] + [slice(None)] + key[p + 1:])
        ax = sum(1 for q in key[:p] if q is None or isinstance(q, slice))
        return v._take(k, ax)

    def _take(self, ind, ax):
        ind = asarr(ind)
        n = self._shape[ax]
        src = self.frozen()
        # bounds check for concrete-size index arrays; symbolic-size: generic element
        def norm(i):
            i = dim(i)
            if isint(i) and isint(n):
                if not -n <= i < n:
                    raise IndexError('index out of bounds')
                return i % n
            return i
        c = T.ctx()
        gi = c.generic_index(ind._shape)
        ok = None
        if gi is not None:
            e = ind.at(gi).as_int()
            inr = c.generic_range(gi, ind._shape)
            if not c.must(z3.Implies(inr, z3.And(e >= 0, e < zi(n)))):
                if c.must(z3.Implies(inr, z3.And(e >= -zi(n), e < zi(n)))):
                    ok = 'neg'
                else:
                    raise Unsupported('possibly out-of-bounds gather')
        def wrap(e):
            i = norm(e)
            if ok == 'neg' and not isint(i):
                return dim(SInt(z3.If(zi(i) < 0, zi(i) + zi(n), zi(i))))
            return i
        shape = self._shape[:ax] + ind._shape + self._shape[ax + 1:]
        k = ind.ndim
        if all(isint(d) for d in ind._shape):
            # concrete-size: check each element
            tbl = {}
            for ii in np.ndindex(*ind._shape):
                tbl[ii] = norm_index(ind.at(ii), n)
            def fn(idx):
                jj = idx[ax:ax + k]
                if all(isint(j) for j in jj):
                    return src(idx[:ax] + (tbl[tuple(jj)],) + idx[ax + k:])
                return chain_select(jj, ind._shape, lambda q: src(idx[:ax] + (tbl[q],) + idx[ax + k:]))
            return SymArray(shape, self.dtype, fn)
        ifz = ind.frozen()
        return SymArray(shape, self.dtype, lambda idx: src(idx[:ax] + (wrap(ifz(idx[ax:ax + k])),) + idx[ax + k:]))

    def _multi_adv_get(self, key, adv):
        arrs = [asarr(key[p]) for p in adv]
        if any(a.kind == 'b' for a in arrs):
            raise Unsupported('mixed boolean advanced indexing')
        if adv != list(range(adv[0], adv[0] + len(adv))):
            raise Unsupported('non-adjacent advanced indices')
        sh = bshape(*[a._shape for a in arrs])
        if not all(isint(d) for d in sh):
            raise Unsupported('symbolic multi advanced index')
        key2 = [slice(None) if i in adv else k for i, k in enumerate(key)]
        v = self._subview(key2)
        ax = sum(1 for q in key[:adv[0]] if q is None or isinstance(q, slice))
        nadv = len(adv)
        src = v.frozen()
        arrs = [broadcast_to(a, sh) for a in arrs]
        tbl = {ii: tuple(norm_index(a.at(ii), v._shape[ax + j]) for j, a in enumerate(arrs)) for ii in np.ndindex(*sh)}
        k = len(sh)
        def fn(idx):
            jj = idx[ax:ax + k]
            if all(isint(j) for j in jj):
                return src(idx[:ax] + tbl[tuple(jj)] + idx[ax + k:])
            return chain_select(jj, sh, lambda q: src(idx[:ax] + tbl[q] + idx[ax + k:]))
        return SymArray(v._shape[:ax] + sh + v._shape[ax + nadv:], self.dtype, fn)

    def frozen(self):
        """current element function (immune to later writes)"""
        st, memo = self._store, None
        snap = Store(st.shape, st.dtype, st.fn)
        snap.memo = st.memo
        vm = SymArray(self._shape, None, None, store=snap, vmap=self._vmap)
        return vm.at

    def __setitem__(self, key, value):
        key = unmask(key)
        if self._ro:
            raise ValueError('assignment destination is read-only')
        key, adv = self._classify(key)
        if not adv:
            v = self._subview(key)
            v._assign_all(asarr(value))
            return
        if len(adv) > 1:
            arrs = [asarr(key[p]) for p in adv]
            if any(a.kind == 'b' for a in arrs) or any(not isinstance(k, slice) or k != slice(None) for i, k in enumerate(key) if i not in adv):
                raise Unsupported('complex advanced assignment')
            sh = bshape(*[a._shape for a in arrs])
            if not all(isint(d) for d in sh):
                raise Unsupported('symbolic advanced assignment')
            arrs = [broadcast_to(a, sh) for a in arrs]
            value = asarr(value)
            if adv != list(range(adv[0], adv[0] + len(adv))):
                raise Unsupported('non-adjacent advanced assignment')
            ax = adv[0]
            tshape = self._shape[:ax] + sh + self._shape[ax + len(adv):]
            vv = broadcast_to(value, tshape)
            for ii in np.ndindex(*sh):
                k2 = list(key)
                for j, p in enumerate(adv):
                    k2[p] = arrs[j].at(ii)
                self[tuple(k2)] = vv[(slice(None),) * ax + tuple(ii)]
            return
        p = adv[0]
        k = key[p]
        if kind_of_dtype(k.dtype) == 'b':
            m = asarr(k)
            key2 = key[:p] + [slice(None)] * m.ndim + key[p + 1:]
            v = self._subview(key2)
            ax = sum(1 for q in key[:p] if q is None or isinstance(q, slice))
            for j in range(m.ndim):
                if not same_dim(m._shape[j], v._shape[ax + j]):
                    if T.ctx().branch(zi(m._shape[j]) != zi(v._shape[ax + j])):
                        raise IndexError('boolean index did not match indexed array')
            mf = m.frozen()
            nd = m.ndim
            if isinstance(value, MaskSel):
                if not value.same_mask(m, ax):
                    raise Unsupported('assignment of a selection through a different mask')
                full = value.full
            else:
                value = asarr(value)
                if value.ndim == v.ndim - nd + 1 and ax == 0 and value.ndim >= 1 and not (isint(value._shape[0]) and value._shape[0] == 1) and value.ndim > 0:
                    raise Unsupported('mask assignment of an array')
                if ax == 0 and nd >= 1:
                    # value broadcasts against (k,)+rest; leading axis (if any) must be 1
                    if value.ndim == v.ndim - nd + 1:
                        value = value[0]
                    full = broadcast_to(value, v._shape[nd:])
                    full = SymArray(v._shape, value.dtype, (lambda f: lambda idx: f(idx[nd:]))(full.frozen()))
                else:
                    if value.ndim > 0 and value.ndim > v.ndim - ax - nd:
                        # aligned with the compressed axis
                        if value.ndim == v.ndim - nd + 1 or True:
                            lead = value._shape[-(v.ndim - ax - nd) - 1]
                            if not (isint(lead) and lead == 1):
                                raise Unsupported('mask assignment of an array')
                    full = broadcast_to(value, v._shape)
            cond = lambda idx: mf(idx[ax:ax + nd]).as_bool()
            v._assign_all(full, cond)
            return
        ind = asarr(k)
        if not all(isint(d) for d in ind._shape):
            return self._scatter_symbolic(key, p, ind, value)
        if ind.ndim != 1:
            raise Unsupported('n-d integer assignment')
        value = asarr(value)
        ax = sum(1 for q in key[:p] if q is None or isinstance(q, slice))
        v = self._subview(key[:p] + [slice(None)] + key[p + 1:])
        tshape = v._shape[:ax] + ind._shape + v._shape[ax + 1:]
        vv = broadcast_to(value, tshape)
        vfro = SymArray(vv._shape, vv.dtype, vv.frozen())
        for j in range(ind._shape[0]):
            i = norm_index(ind.at((j,)), v._shape[ax])
            sub = v._subview([slice(None)] * ax + [i] + [slice(None)] * (v.ndim - ax - 1))
            sub._assign_all(vfro[(slice(None),) * ax + (j,)] if vfro.ndim > 1 else asarr(vfro[j]))

    def _scatter_symbolic(self, key, p, ind, value):
        raise Unsupported('scatter with symbolic index array')

    def _assign_all(self, value, cond=None):
        """self[...] = value (where cond(view idx))"""
        if self._ro:
            raise ValueError('assignment destination is read-only')
        st = self._store
        if value.kind == 'c' and st.kind != 'c':
            if value.ndim == 0:
                raise TypeError("can't convert complex to float")
        val = broadcast_to(value, self._shape, assign=True)
        vf = val.frozen()
        old = st.fn
        oldstore = Store(st.shape, st.dtype, st.fn)
        oldstore.memo = st.memo
        vmap, shape, kind = list(self._vmap), self._shape, st.kind
        full = cond is None and all(
            m[0] == 'ax' and isint(m[2]) and m[2] == 0 and m[3] == 1 and same_dim(shape[m[1]], st.shape[b])
            for b, m in enumerate(vmap))

        def fn(bidx):
            conds = []
            vidx = [0] * len(shape)
            for b, m in enumerate(vmap):
                x = bidx[b]
                if m[0] == 'fix':
                    if isint(x) and isint(m[1]):
                        if x != m[1]:
                            return oldstore.get(bidx)
                    else:
                        t = z3.simplify(zi(x) == zi(m[1]))
                        if z3.is_false(t):
                            return oldstore.get(bidx)
                        if not z3.is_true(t):
                            conds.append(t)
                    continue
                _, ax, start, step = m
                n = shape[ax]
                if full:
                    vidx[ax] = x
                    continue
                if isint(x) and isint(start) and isint(n):
                    d = x - start
                    if d % step != 0 or not 0 <= d // step < n:
                        return oldstore.get(bidx)
                    vidx[ax] = d // step
                else:
                    d = z3.simplify(zi(x) - zi(start))
                    if step == 1:
                        q = d
                    elif step == -1:
                        q = z3.simplify(-d)
                    else:
                        if step < 0:
                            d, sp = z3.simplify(-d), -step
                        else:
                            sp = step
                        q = d / sp
                        conds.append(d % sp == 0)
                    t = z3.simplify(z3.And(q >= 0, q < zi(n)))
                    if z3.is_false(t):
                        return oldstore.get(bidx)
                    if not z3.is_true(t):
                        conds.append(t)
                    vidx[ax] = dim(SInt(q))
            vidx = tuple(vidx)
            if cond is not None:
                cc = cond(vidx)
                if z3.is_false(cc):
                    return oldstore.get(bidx)
                if not z3.is_true(cc):
                    conds.append(cc)
            v = vf(vidx).to(kind)
            if not conds:
                return v
            return T.s_where(SBool(z3.And(*conds) if len(conds) > 1 else conds[0]), v, oldstore.get(bidx))
        st.update(fn)

    # ---- copies & shape ops
    def copy(self, order=None):
        return SymArray(self._shape, self.dtype, self.frozen())
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, dt, copy=True, **kw):
        k = kind_of_dtype(dt)
        f = self.frozen()
        if not copy and np.dtype(dt) == self.dtype:
            return self
        return SymArray(self._shape, dt, lambda idx: f(idx).to(k))

    def view(self, *a):
        if a:
            raise Unsupported('view(dtype)')
        return self._subview([slice(None)] * self.ndim)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        inv = {old: new for new, old in enumerate(axes)}
        vmap = [m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in self._vmap]
        return SymArray([self._shape[a] for a in axes], None, None, store=self._store, vmap=vmap, readonly=self._ro)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a % self.ndim], ax[b % self.ndim] = ax[b % self.ndim], ax[a % self.ndim]
        return self.transpose(ax)

    def squeeze(self, axis=None):
        if axis is None:
            axis = [i for i, d in enumerate(self._shape) if isint(d) and d == 1]
            if any(not isint(d) for d in self._shape) and not all(isint(d) or T.ctx().must(zi(d) != 1) for d in self._shape):
                axis = axis + [i for i, d in enumerate(self._shape) if not isint(d) and T.ctx().branch(zi(d) == 1)]
        elif not isinstance(axis, (tuple, list)):
            axis = [axis]
        axis = [a % self.ndim for a in axis]
        for a in axis:
            if not same_dim(self._shape[a], 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return self._subview([0 if i in axis else slice(None) for i in range(self.ndim)])

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        shape = [dim(s) for s in shape]
        if len(shape) == self.ndim and all(isint(s) and s == -1 or same_dim(s, d) for s, d in zip(shape, self._shape)):
            return self.view()
        if not all(isint(d) for d in self._shape):
            return self._reshape_sym(shape)
        tot = self.size
        if -1 in shape:
            k = shape.index(-1)
            rest = 1
            for i, s in enumerate(shape):
                if i != k:
                    rest *= s
            shape[k] = tot // rest if rest else 0
        if int(np.prod(shape)) != tot:
            raise ValueError('cannot reshape')
        f, old = self.frozen(), self._shape
        def fn(idx):
            if all(isint(i) for i in idx):
                flat = int(np.ravel_multi_index(idx, tuple(shape))) if shape else 0
                return f(tuple(int(x) for x in np.unravel_index(flat, old)) if old else ())
            return chain_select(idx, tuple(shape), lambda q: fn(q))
        return SymArray(shape, self.dtype, fn, readonly=False)

    def _reshape_sym(self, shape):
        # (n, ...) -> (-1,) : row-major flattening of symbolic dims
        f, old = self.frozen(), self._shape
        if len(shape) == 1:
            tot = self.size
            if not (isint(shape[0]) and shape[0] == -1) and not same_dim(shape[0], tot):
                raise Unsupported('symbolic reshape')
            if len(old) == 1:
                return self.view()
            def fn(idx):
                i = zi(idx[0])
                out = []
                for d in reversed(old[1:]):
                    out.append(dim(SInt(i % zi(d))))
                    i = i / zi(d)
                out.append(dim(SInt(i)))
                return f(tuple(reversed(out)))
            return SymArray((tot,), self.dtype, fn)
        # insertion/removal of size-1 axes
        s1 = [d for d in old if not (isint(d) and d == 1)]
        s2 = [d for d in shape if not (isint(d) and d == 1)]
        if len(s1) == len(s2) and all((isint(b) and b == -1) or same_dim(a, b) for a, b in zip(s1, s2)):
            key = [0 if isint(d) and d == 1 else slice(None) for d in old]
            v = self._subview(key)
            key = [None if isint(d) and d == 1 else slice(None) for d in shape]
            return v._subview(key)
        raise Unsupported('symbolic reshape')

    def flatten(self, order='C'): return self.reshape(-1).copy()
    def ravel(self, order='C'): return self.reshape(-1)

    def fill(self, v): self[...] = v

    # ---- reductions
    def sum(self, axis=None, keepdims=False, dtype=None, **kw): return reduce_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **kw): return reduce_mean(self, axis, keepdims)
    def any(self, axis=None, keepdims=False, **kw): return reduce_any(self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **kw): return reduce_all(self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **kw): return reduce_fold(self, axis, keepdims, T.s_min, 'min')
    def max(self, axis=None, keepdims=False, **kw): return reduce_fold(self, axis, keepdims, T.s_max, 'max')
    def prod(self, axis=None, keepdims=False, **kw): return reduce_fold(self, axis, keepdims, T.s_mul, 'prod')
    def conj(self): return elementwise(T.s_conj, self, dtype=self.dtype)
    conjugate = conj
    def clip(self, lo=None, hi=None, **kw):
        r = self
        if lo is not None:
            r = elementwise(T.s_max, r, asarr(lo))
        if hi is not None:
            r = elementwise(T.s_min, r, asarr(hi))
        return r
    def nonzero(self): raise Unsupported('nonzero')
    def argsort(self, *a, **k): return argsort(self)
    def take(self, ind, axis=None):
        return self._take(ind, axis % self.ndim)
    def repeat(self, n, axis=None):
        from . import npshim
        return npshim._repeat(self, n, axis)

    def dot(self, o): return self @ o

    # ---- operators
    def _b(self, o, f, swap=False, dtype=None):
        try:
            o = o if isinstance(o, SymArrayBase) else asarr(o)
        except TypeError:
            return NotImplemented
        if isinstance(o, MaskSel) or type(o).__name__ == 'MArr':
            return NotImplemented
        return elementwise(f, o, self, dtype=dtype) if swap else elementwise(f, self, o, dtype=dtype)

    def _ib(self, o, f):
        o = o if isinstance(o, SymArrayBase) else asarr(o)
        r = elementwise(f, self.copy(), o)
        if T.KORD[r.kind] > T.KORD[self.kind]:
            raise TypeError(f'Cannot cast ufunc output from {r.dtype} to {self.dtype} with casting rule same_kind')
        sh = bshape(self._shape, r._shape)
        if len(sh) != self.ndim or not all(same_dim(a, b) for a, b in zip(sh, self._shape)):
            raise ValueError('non-broadcastable output operand')
        self._assign_all(r)
        return self

    def __add__(self, o): return self._b(o, T.s_add)
    def __radd__(self, o): return self._b(o, T.s_add, True)
    def __sub__(self, o): return self._b(o, np_sub)
    def __rsub__(self, o): return self._b(o, np_sub, True)
    def __mul__(self, o): return self._b(o, T.s_mul)
    def __rmul__(self, o): return self._b(o, T.s_mul, True)
    def __truediv__(self, o): return self._b(o, T.s_div)
    def __rtruediv__(self, o): return self._b(o, T.s_div, True)
    def __floordiv__(self, o): return self._b(o, np_fdiv)
    def __rfloordiv__(self, o): return self._b(o, np_fdiv, True)
    def __mod__(self, o): return self._b(o, np_mod)
    def __rmod__(self, o): return self._b(o, np_mod, True)
    def __pow__(self, o): return self._b(o, T.s_pow)
    def __and__(self, o): return self._b(o, T.s_and)
    def __rand__(self, o): return self._b(o, T.s_and, True)
    def __or__(self, o): return self._b(o, T.s_or)
    def __ror__(self, o): return self._b(o, T.s_or, True)
    def __xor__(self, o): return self._b(o, T.s_xor)
    def __iadd__(self, o): return self._ib(o, T.s_add)
    def __isub__(self, o): return self._ib(o, np_sub)
    def __imul__(self, o): return self._ib(o, T.s_mul)
    def __itruediv__(self, o):
        if self.kind in 'bi':
            raise TypeError('Cannot cast ufunc divide output to int')
        return self._ib(o, T.s_div)
    def __imod__(self, o): return self._ib(o, np_mod)
    def __iand__(self, o): return self._ib(o, T.s_and)
    def __ior__(self, o): return self._ib(o, T.s_or)
    def __ixor__(self, o): return self._ib(o, T.s_xor)
    def __eq__(self, o): return self._c(o, T.s_eq)
    def __ne__(self, o): return self._c(o, T.s_ne)
    def __lt__(self, o): return self._b(o, T.s_lt, dtype=bool)
    def __le__(self, o): return self._b(o, T.s_le, dtype=bool)
    def __gt__(self, o): return self._b(o, T.s_gt, dtype=bool)
    def __ge__(self, o): return self._b(o, T.s_ge, dtype=bool)
    def _c(self, o, f):
        if o is None:
            return elementwise(lambda a: SBool(z3.BoolVal(f is T.s_ne)), self, dtype=bool)
        return self._b(o, f, dtype=bool)
    def __neg__(self): return elementwise(T.s_neg, self, dtype=self.dtype)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(T.s_abs, self)
    def __invert__(self):
        if self.kind in 'fc':
            raise TypeError("ufunc 'invert' not supported for the input types")
        return elementwise(T.s_invert, self, dtype=self.dtype)

    def __matmul__(self, o): return matmul(self, asarr(o))
    def __rmatmul__(self, o): return matmul(asarr(o), self)


def np_sub(a, b):
    if a.kind == 'b' and b.kind == 'b':
        raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
    return T.s_sub(a, b)


def np_fdiv(a, b):
    if T.top(a, b) in 'bi' and not T.ctx().must(b.as_int() != 0):
        raise Unsupported('integer array floor-division by possibly zero')
    return T.s_fdiv(a, b)


def np_mod(a, b):
    if T.top(a, b) in 'bi' and not T.ctx().must(b.as_int() != 0):
        raise Unsupported('integer array modulo by possibly zero')
    return T.s_mod(a, b)


def _flat_bools(m):
    for ii in np.ndindex(*m._shape):
        yield z3.is_true(z3.simplify(m.at(ii).as_bool()))


def m_concrete(m):
    for ii in np.ndindex(*m._shape):
        s = z3.simplify(m.at(ii).as_bool())
        if not (z3.is_true(s) or z3.is_false(s)):
            return False
    return True


def chain_select(idx, shape, f):
    """value of a table indexed by a symbolic index (small concrete shape)"""
    n = int(np.prod(shape))
    if n > 64:
        raise Unsupported('symbolic index into a large concrete table')
    res = None
    for q in np.ndindex(*shape):
        conds = [zi(i) == zi(j) for i, j in zip(idx, q)]
        conds = [z3.simplify(c) for c in conds]
        if any(z3.is_false(c) for c in conds):
            continue
        v = f(tuple(int(x) for x in q))
        if res is None:
            res = lift(v)
        else:
            res = T.s_where(SBool(z3.And(*conds)), lift(v), res)
    if res is None:
        raise IndexError('empty table')
    return res


def as_index(lst):
    if any(is_sym(x) or isinstance(x, SymArrayBase) for x in lst):
        return asarr(lst)
    a = np.asarray(lst)
    return a.astype(int) if a.size == 0 else a


def from_np(a):
    if a.dtype.kind not in 'biufc':
        raise Unsupported(f'numpy array of dtype {a.dtype} in symbolic computation')
    a = a.copy()
    def fn(idx):
        if all(isint(i) for i in idx):
            return lift(a[tuple(idx)])
        return chain_select(idx, a.shape, lambda q: lift(a[q]))
    dt = a.dtype
    return SymArray(a.shape, dt, fn)


def asarr(x):
    if isinstance(x, SymArrayBase):
        return x
    if is_sym(x):
        return SymArray((), DT[x.kind], lambda idx: x)
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, (bool, int, float, complex, np.bool_, np.number)):
        v = lift(x)
        return SymArray((), DT[v.kind], lambda idx: v)
    if isinstance(x, (list, tuple)):
        if not has_sym(x):
            return from_np(np.asarray(x))
        items = [asarr(e) for e in x]
        if any(isinstance(e, MaskSel) for e in items):
            raise Unsupported('array of selections')
        sh = items[0]._shape
        for e in items[1:]:
            if len(e._shape) != len(sh) or not all(same_dim(p, q) for p, q in zip(e._shape, sh)):
                raise ValueError('inhomogeneous array')
        k = max((e.kind for e in items), key=T.KORD.get)
        fs = [e.frozen() for e in items]
        n = len(items)
        def fn(idx):
            if isint(idx[0]):
                return fs[idx[0]](idx[1:])
            return chain_select(idx[:1], (n,), lambda q: fs[q[0]](idx[1:]).to(k))
        return SymArray((n,) + tuple(sh), DT[k], fn)
    if hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
        return asarr(list(x))
    raise TypeError(f'cannot convert {type(x)} to symbolic array')


def has_sym(x, depth=0):
    if is_sym(x) or isinstance(x, SymArrayBase):
        return True
    if depth < 5 and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    return False


def broadcast_to(a, shape, assign=False):
    shape = tuple(dim(d) for d in shape)
    if len(a._shape) == len(shape) and all((isint(p) and isint(q) and p == q) or (not isint(p) and not isint(q) and p.re.eq(q.re)) for p, q in zip(a._shape, shape)):
        return a
    off = len(shape) - len(a._shape)
    extra = []
    if off < 0:
        if not assign:
            raise ValueError('cannot broadcast to fewer dims')
        # numpy allows leading 1s on assignment
        for d in a._shape[:-off]:
            if not same_dim(d, 1):
                raise ValueError('could not broadcast input array')
        a = a._subview([0] * (-off) + [slice(None)] * len(shape))
        off = 0
    ones = []
    for i, d in enumerate(a._shape):
        t = shape[i + off]
        if isint(d) and d == 1:
            ones.append(not (isint(t) and t == 1))
        elif same_dim(d, t):
            ones.append(False)
        else:
            c = T.ctx()
            if c.branch(zi(d) == zi(t)):
                ones.append(False)
            elif c.branch(zi(d) == 1):
                ones.append(True)
            else:
                raise ValueError('could not broadcast input array')
    f = a.frozen()
    return SymArray(shape, a.dtype, lambda idx: f(tuple(0 if o else idx[i + off] for i, o in enumerate(ones))), readonly=True)


def result_dtype(f, arrs, probe_kinds):
    pass


def elementwise(f, *arrs, dtype=None, view_like=False):
    arrs = [asarr(a) for a in arrs]
    ms = [a for a in arrs if isinstance(a, MaskSel)]
    if ms:
        return MaskSel.lift_op(f, arrs, dtype)
    shape = bshape(*[a._shape for a in arrs])
    offs = []
    for a in arrs:
        off = len(shape) - len(a._shape)
        ones = tuple((isint(d) and d == 1 and not (isint(shape[i + off]) and shape[i + off] == 1)) or
                     (not isint(d) and not (not isint(shape[i + off]) and d.re.eq(shape[i + off].re)) and not T.ctx().must(zi(d) == zi(shape[i + off])))
                     for i, d in enumerate(a._shape))
        offs.append((off, ones))
    fr = [a.frozen() for a in arrs]

    def fn(idx):
        vals = []
        for (off, ones), g in zip(offs, fr):
            vals.append(g(tuple(0 if o else idx[i + off] for i, o in enumerate(ones))))
        return f(*vals)
    if dtype is None:
        # probe the result kind with dummy scalars
        dm = [dummy(a.kind) for a in arrs]
        try:
            k = f(*dm).kind
        except TypeError:
            raise
        same = [a.dtype for a in arrs if a.kind == k]
        dtype = np.result_type(*same) if same else DT[k]
        if kind_of_dtype(dtype) != k:
            dtype = DT[k]
    r = SymArray(shape, dtype, fn)
    if r.ndim == 0 and False:
        return r.at(())
    return r


_D = {}


def dummy(k):
    if k not in _D:
        _D[k] = {'b': lambda: SBool(z3.Bool('_db')), 'i': lambda: SInt(z3.IntVal(1)),
                 'f': lambda: Sym('f', z3.RealVal(1)), 'c': lambda: Sym('c', z3.RealVal(1), z3.RealVal(0))}[k]()
    return _D[k]


def scal(x):
    """0-d results decay to scalars as numpy reductions do"""
    if isinstance(x, SymArrayBase) and not isinstance(x, MaskSel) and x.ndim == 0:
        return x.at(())
    return x


def norm_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if not isinstance(axis, (tuple, list)):
        axis = [axis]
    for x in axis:
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(x, a.ndim)
    return sorted(x % a.ndim for x in axis)


def _reduce(a, axis, keepdims, combine, dtype):
    """combine(list_of_dims, elemfn(idx list) -> Sym) -> Sym"""
    axes = norm_axes(a, axis)
    f = a.frozen()
    rest = [i for i in range(a.ndim) if i not in axes]
    shape = [a._shape[i] for i in rest] if not keepdims else [1 if i in axes else a._shape[i] for i in range(a.ndim)]
    dims = [a._shape[i] for i in axes]

    def fn(idx):
        if keepdims:
            base = {i: idx[i] for i in rest}
        else:
            base = {i: idx[j] for j, i in enumerate(rest)}
        def elem(red):
            full = []
            for i in range(a.ndim):
                full.append(red[axes.index(i)] if i in axes else base[i])
            return f(tuple(full))
        return combine(dims, elem)
    r = SymArray(shape, dtype, fn)
    return scal(r)


def _nest(dims, elem, comb1):
    """nest single-dim combinators, first axis outermost"""
    def go(k, pre):
        if k == len(dims):
            return elem(pre)
        return comb1(dims[k], lambda i: go(k + 1, pre + [i]))
    return go(0, [])


def reduce_sum(a, axis=None, keepdims=False, where=None):
    if isinstance(a, MaskSel):
        return a.reduce('sum', axis, keepdims)
    k = a.kind if a.kind in 'fc' else 'i'
    return _reduce(a, axis, keepdims, lambda d, e: _nest(d, lambda r: e(r).to(k), lambda n, g: T.ctx().mk_sum(n, g, k)), a.dtype if a.kind in 'fc' else int)


def count(a, axes):
    n = 1
    for i in axes:
        n = mul_i(n, a._shape[i])
    return n


def reduce_mean(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.reduce('mean', axis, keepdims)
    s = reduce_sum(a, axis, keepdims)
    n = count(a, norm_axes(a, axis))
    n = lift(n).to('f')
    if isinstance(s, SymArrayBase):
        return elementwise(lambda x: T.s_div(x, n), s)
    return T.s_div(s, n)


def reduce_any(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.reduce('any', axis, keepdims)
    return _reduce(a, axis, keepdims, lambda d, e: _nest(d, lambda r: SBool(e(r).as_bool()), lambda n, g: T.ctx().mk_exists(n, g)), bool)


def reduce_all(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.reduce('all', axis, keepdims)
    return _reduce(a, axis, keepdims, lambda d, e: _nest(d, lambda r: SBool(e(r).as_bool()), lambda n, g: T.ctx().mk_forall(n, g)), bool)


def reduce_fold(a, axis, keepdims, op, name):
    if isinstance(a, MaskSel):
        return a.reduce(name, axis, keepdims)
    def comb1(n, g):
        if not isint(n):
            if name in ('min', 'max'):
                return T.ctx().mk_extremum(n, g, name)
            raise Unsupported(f'{name} over symbolic dimension')
        if n == 0:
            if name == 'prod':
                return lift(1)
            raise ValueError('zero-size array to reduction operation')
        r = g(0)
        for i in range(1, n):
            r = op(r, g(i))
        return r
    kind = a.kind
    if name in ('min', 'max') and kind == 'c':
        raise Unsupported('complex min/max')
    if name in ('min', 'max') and kind == 'b':
        return reduce_any(a, axis, keepdims) if name == 'max' else reduce_all(a, axis, keepdims)
    return _reduce(a, axis, keepdims, lambda d, e: _nest(d, e, comb1), a.dtype)


def matmul(a, b):
    if a.ndim == 2 and b.ndim == 2:
        fa, fb = a.frozen(), b.frozen()
        if not same_dim(a._shape[1], b._shape[0]):
            raise ValueError('matmul shape mismatch')
        k = max(a.kind, b.kind, key=T.KORD.get)
        return SymArray((a._shape[0], b._shape[1]), DT[k], lambda idx: T.ctx().mk_sum(a._shape[1], lambda i: T.s_mul(fa((idx[0], i)), fb((i, idx[1]))), k))
    if b.ndim == 1:
        fa, fb = a.frozen(), b.frozen()
        k = max(a.kind, b.kind, key=T.KORD.get)
        r = SymArray(a._shape[:-1], DT[k], lambda idx: T.ctx().mk_sum(b._shape[0], lambda i: T.s_mul(fa(tuple(idx) + (i,)), fb((i,))), k))
        return scal(r)
    if a.ndim == 1 and b.ndim == 2:
        return matmul(b.T, a)
    if a.ndim == 3 and b.ndim == 2:
        fa, fb = a.frozen(), b.frozen()
        k = max(a.kind, b.kind, key=T.KORD.get)
        return SymArray((a._shape[0], a._shape[1], b._shape[1]), DT[k], lambda idx: T.ctx().mk_sum(b._shape[0], lambda i: T.s_mul(fa((idx[0], idx[1], i)), fb((i, idx[2]))), k))
    if a.ndim == 3 and b.ndim == 3:
        fa, fb = a.frozen(), b.frozen()
        k = max(a.kind, b.kind, key=T.KORD.get)
        d0 = bdim(a._shape[0], b._shape[0])
        ia = lambda i: 0 if isint(a._shape[0]) and a._shape[0] == 1 else i
        ib = lambda i: 0 if isint(b._shape[0]) and b._shape[0] == 1 else i
        return SymArray((d0, a._shape[1], b._shape[2]), DT[k], lambda idx: T.ctx().mk_sum(b._shape[1], lambda i: T.s_mul(fa((ia(idx[0]), idx[1], i)), fb((ib(idx[0]), i, idx[2]))), k))
    raise Unsupported('matmul ndim')


def argsort(a):
    if a.ndim != 1 or not isint(a._shape[0]):
        raise Unsupported('argsort of symbolic-size array')
    n = a._shape[0]
    order = []
    for i in range(n):
        p = len(order)
        while p > 0 and bool(T.s_lt(a.at((i,)), a.at((order[p - 1],)))):
            p -= 1
        order.insert(p, i)
    return np.array(order, dtype=int)


class MaskSel(SymArrayBase):
    """a[mask] : selection kept in uncompressed form (full array + mask over axes ax..ax+nd)"""
    __array_ufunc__ = None
    __array_priority__ = 1e9
    __hash__ = None

    def __init__(self, full, mask, ax):
        self.full, self.mask, self.ax = full, mask, ax
        self.nd = mask.ndim
        self.mf = mask.frozen()
        self.mver = mask._store.version
        self._k = None

    @property
    def __class__(self): return np.ndarray
    @property
    def dtype(self): return self.full.dtype
    @property
    def kind(self): return self.full.kind
    @property
    def ndim(self): return self.full.ndim - self.nd + 1
    @property
    def count(self):
        if self._k is None:
            self._k = dim(_nest(list(self.mask._shape), lambda r: SInt(self.mf(tuple(r)).as_int()), lambda n, g: T.ctx().mk_sum(n, g, 'i')))
        return self._k
    @property
    def _shape(self):
        s = self.full._shape
        return s[:self.ax] + (self.count,) + s[self.ax + self.nd:]
    @property
    def shape(self): return self._shape
    @property
    def size(self):
        n = 1
        for d in self._shape:
            n = mul_i(n, d)
        return n
    def symlen(self): return self._shape[0]
    def __len__(self):
        d = self.symlen()
        return d if isint(d) else T.ctx().concretize_int(d.re)
    def copy(self): return MaskSel(self.full.copy(), self.mask, self.ax)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()

    def same_mask(self, m, ax):
        if ax != self.ax or m.ndim != self.nd:
            return False
        if m._store is self.mask._store and m._store.version == self.mver:
            return True
        idx = tuple(SInt(T.ctx().fresh_int('m')) for _ in range(self.nd))
        rng = z3.And(*[z3.And(zi(i) >= 0, zi(i) < zi(d)) for i, d in zip(idx, m._shape)])
        return T.ctx().must(z3.Implies(rng, m.at(idx).as_bool() == self.mf(idx).as_bool()))

    @staticmethod
    def lift_op(f, arrs, dtype):
        ms = [a for a in arrs if isinstance(a, MaskSel)]
        m0 = ms[0]
        fulls = []
        for a in arrs:
            if isinstance(a, MaskSel):
                if a is not m0 and not a.same_mask(m0.mask if m0.mask._store.version == m0.mver else SymArray(m0.mask._shape, bool, m0.mf), m0.ax):
                    raise Unsupported('operation between different selections')
                fulls.append(a.full)
            elif a.ndim == 0:
                fulls.append(a)
            elif m0.ndim - a.ndim > m0.ax:
                # broadcasts only over trailing axes
                fulls.append(a)
            else:
                raise Unsupported('selection op array')
        return MaskSel(elementwise(f, *fulls, dtype=dtype), SymArray(m0.mask._shape, bool, m0.mf), m0.ax)

    def reduce(self, name, axis, keepdims):
        axes = norm_axes(self, axis)
        if keepdims:
            raise Unsupported('keepdims on selection')
        if self.ax not in axes:
            raise Unsupported('reduction of selection along another axis')
        full_axes = [i if i < self.ax else i + self.nd - 1 for i in axes if i != self.ax] + list(range(self.ax, self.ax + self.nd))
        full_axes = tuple(sorted(full_axes))
        mf, ax, nd, ff = self.mf, self.ax, self.nd, self.full.frozen()
        sh = self.full._shape
        if name in ('sum', 'mean'):
            k = self.kind if self.kind in 'fc' else 'i'
            z = lift({'i': 0, 'f': 0.0, 'c': 0j}[k])
            m = SymArray(sh, DT[k], lambda idx: T.s_where(mf(idx[ax:ax + nd]), ff(idx).to(k), z))
            s = reduce_sum(m, full_axes)
            if name == 'sum':
                return s
            n = lift(self.count).to('f')
            for i in axes:
                if i != self.ax:
                    n = T.s_mul(n, lift(self._shape[i]))
            return elementwise(lambda x: T.s_div(x, n), s) if isinstance(s, SymArrayBase) else T.s_div(s, n)
        if name == 'any':
            return reduce_any(SymArray(sh, bool, lambda idx: SBool(z3.And(mf(idx[ax:ax + nd]).as_bool(), ff(idx).as_bool()))), full_axes)
        if name == 'all':
            return reduce_all(SymArray(sh, bool, lambda idx: SBool(z3.Implies(mf(idx[ax:ax + nd]).as_bool(), ff(idx).as_bool()))), full_axes)
        raise Unsupported(f'{name} of selection')

    def sum(self, axis=None, **k): return self.reduce('sum', axis, False)
    def mean(self, axis=None, **k): return self.reduce('mean', axis, False)
    def any(self, axis=None, **k): return self.reduce('any', axis, False)
    def all(self, axis=None, **k): return self.reduce('all', axis, False)
    def astype(self, dt, **k): return MaskSel(self.full.astype(dt), self.mask, self.ax)
    def _op(self, o, f, swap=False, dtype=None):
        o = asarr(o)
        return MaskSel.lift_op(f, [o, self] if swap else [self, o], dtype)
    def __add__(self, o): return self._op(o, T.s_add)
    def __radd__(self, o): return self._op(o, T.s_add, True)
    def __sub__(self, o): return self._op(o, np_sub)
    def __rsub__(self, o): return self._op(o, np_sub, True)
    def __mul__(self, o): return self._op(o, T.s_mul)
    def __rmul__(self, o): return self._op(o, T.s_mul, True)
    def __truediv__(self, o): return self._op(o, T.s_div)
    def __rtruediv__(self, o): return self._op(o, T.s_div, True)
    def __and__(self, o): return self._op(o, T.s_and)
    def __or__(self, o): return self._op(o, T.s_or)
    def __eq__(self, o): return self._op(o, T.s_eq, dtype=bool)
    def __ne__(self, o): return self._op(o, T.s_ne, dtype=bool)
    def __lt__(self, o): return self._op(o, T.s_lt, dtype=bool)
    def __le__(self, o): return self._op(o, T.s_le, dtype=bool)
    def __gt__(self, o): return self._op(o, T.s_gt, dtype=bool)
    def __ge__(self, o): return self._op(o, T.s_ge, dtype=bool)
    def __neg__(self): return MaskSel(-self.full, self.mask, self.ax)
    def __invert__(self): return MaskSel(~self.full, self.mask, self.ax)
    def __abs__(self): return MaskSel(abs(self.full), self.mask, self.ax)
    def conj(self): return MaskSel(self.full.conj(), self.mask, self.ax)
    def __getitem__(self, k): raise Unsupported('indexing a masked selection')
    def __iter__(self): raise Unsupported('iterating a masked selection')
    def __array__(self, *a, **k): raise Unsupported('conversion of symbolic selection')
    def __bool__(self): raise Unsupported('truth of selection')
