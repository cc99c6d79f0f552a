"""C03: DataContainer arithmetic and selection."""
from pyvc.engine import contract
from contracts.lib import rev, raises
from hera_cal.datacontainer import DataContainer
import numpy as np
import operator
import copy

LEVEL = 'proof'
DC = 'datacontainer.DataContainer.'
OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv}
ASSUMPTIONS = ['C03: arithmetic contracts use containers of 2-3 baselines (each baseline is handled by the same loop body); array shapes, contents and orientations are arbitrary']
POLS = ['ee', 'en']


def build(c, nm, keys, shape, dt, **kw):
    vals = {k: c.array(f'{nm}{q}', shape, dt, **kw) for q, k in enumerate(keys)}
    dc = DataContainer({k: v for k, v in vals.items()})
    return dc, vals, {k: c.snapshot(v) for k, v in vals.items()}


def val(c, snap, key, idx):
    """value of the container given by snapshots at key (either orientation), or None"""
    if key in snap:
        return c.at(snap[key], idx)
    if rev(key) in snap:
        v = c.at(snap[rev(key)], idx)
        return c.conj(v) if c.is_kind(snap[rev(key)], 'c') else v
    return None


def frame(c, nm, vals, snaps):
    for k in vals:
        c.check_same(nm, vals[k], snaps[k])


def keysets(c):
    p = c.choice('pol', POLS)
    ka = [(0, 1, p), (0, 2, p), (1, 3, p)]
    kb = [(0, 1, p) if c.choice('flip0', [False, True]) is False else rev((0, 1, p)),
          (0, 2, p) if c.choice('flip1', [False, True]) is False else rev((0, 2, p)), (7, 8, p)]
    if c.choice('order', [False, True]):
        kb = kb[::-1]
    return ka, kb


@contract('C03', 'binary', [DC + f'__{o}__' for o in OPS], trials=200, timeout=120)
def binary(c):
    o = c.choice('op', list(OPS))
    shape = (c.dim('nt'), c.dim('nf'))
    ka, kb = keysets(c)
    dta, dtb = c.choice('dts', [(complex, complex), (complex, float), (float, complex)] + ([] if c.symbolic else [(float, float)]))
    A, va, sa = build(c, 'a', ka, shape, dta)
    B, vb, sb = build(c, 'b', kb, shape, dtb, nonzero=o == 'truediv')
    c.reachable('pre')
    R = OPS[o](A, B)
    c.check('type', isinstance(R, DataContainer))
    c.check('keys', set(R.keys()) == set(ka))
    for k in ka:
        def spec(idx):
            x, y = val(c, sa, k, idx), val(c, sb, k, idx)
            return x if y is None else OPS[o](x, y)
        c.check_array('value', R[k], shape, spec)
        if dta is complex:
            c.check_array('value-reversed', R[rev(k)], shape, lambda idx: c.conj(spec(idx)))
    frame(c, 'left-unchanged', va, sa)
    frame(c, 'right-unchanged', vb, sb)
    for k in ka:
        c.check_same('left-container', A[k], sa[k])
    for k in kb:
        c.check_same('right-container', B[k], sb[k])
    c.check('operand-keys', set(A.keys()) == set(ka) and set(B.keys()) == set(kb))


@contract('C03', 'scalar', [DC + f'__{o}__' for o in OPS], trials=150, timeout=90)
def scalar(c):
    o = c.choice('op', list(OPS))
    shape = (c.dim('nt'), c.dim('nf'))
    ka = [(0, 1, 'ee'), (2, 1, 'en')]
    A, va, sa = build(c, 'a', ka, shape, complex)
    D = c.choice('kind', ['real', 'cplx', 'array'])
    if D == 'real':
        D = c.real('d', nonzero=True)
    elif D == 'cplx':
        D = c.cplx('d', nonzero=True)
    else:
        D = c.array('d', shape, complex, nonzero=True)
    at = (lambda idx: c.at(D, idx)) if hasattr(D, 'shape') and getattr(D, 'ndim', 0) == 2 else (lambda idx: D)
    R = OPS[o](A, D)
    c.check('keys', set(R.keys()) == set(ka))
    for k in ka:
        c.check_array('value', R[k], shape, lambda idx: OPS[o](c.at(sa[k], idx), at(idx)))
    frame(c, 'unchanged', va, sa)
    for k in ka:
        c.check_same('container-unchanged', A[k], sa[k])


def trunc(c, x):
    if c.symbolic:
        from pyvc import terms as T
        f = T.s_floor
        return T.s_where(T.s_ge(x, T.lift(0)), f(x), T.s_neg(f(T.s_neg(x))))
    return float(int(x))


@contract('C03', 'floordiv', [DC + '__floordiv__'], mode='concrete', bound='random containers of 3 baselines, shapes up to 6 x 6', trials=200, timeout=40)
def floordiv(c):
    shape = (c.dim('nt'), c.dim('nf'))
    ka, kb = keysets(c)
    dta, dtb = c.choice('dts', [(complex, complex), (float, float), (int, int), (complex, float), (float, complex)])
    A, va, sa = build(c, 'a', ka, shape, dta)
    B, vb, sb = build(c, 'b', kb, shape, dtb, nonzero=True)
    scal = c.choice('scalar', [False, True])
    if scal:
        B = c.real('d', nonzero=True)
    R = A // B
    c.check('type', isinstance(R, DataContainer))
    c.check('keys', set(R.keys()) == set(ka))
    for k in ka:
        def spec(idx):
            x, y = val(c, sa, k, idx), (B if scal else val(c, sb, k, idx))
            if y is None:
                return x
            if isinstance(x, (complex, np.complexfloating)) or isinstance(y, (complex, np.complexfloating)):
                q = complex(np.complex128(x) / y)
                return complex(int(q.real), int(q.imag))
            return x // y
        if scal or k in kb:
            c.check_array('value', R[k], shape, spec)
        elif rev(k) in kb and dta is complex and dtb is complex:
            # computed in the other operand's orientation: conjugation commutes with truncation
            c.check_array('value', R[k], shape, spec)
    frame(c, 'left-unchanged', va, sa)
    if not scal:
        frame(c, 'right-unchanged', vb, sb)


@contract('C03', 'unary', [DC + x for x in ('__neg__', '__invert__', '__transpose__', 'T')], trials=100, timeout=60)
def unary(c):
    o = c.choice('op', ['neg', 'invert', 'T'])
    dt = bool if o == 'invert' else c.choice('dt', [complex, float])
    shape = (c.dim('nt'), c.dim('nf'))
    ka = [(0, 1, 'ee'), (2, 1, 'en')]
    A, va, sa = build(c, 'a', ka, shape, dt)
    if o == 'neg':
        R, f, sh = -A, (lambda k, idx: -c.at(sa[k], idx)), shape
    elif o == 'invert':
        R, f, sh = ~A, (lambda k, idx: c.not_(c.at(sa[k], idx))), shape
    else:
        R, f, sh = A.T, (lambda k, idx: c.at(sa[k], idx[::-1])), shape[::-1]
    c.check('type', isinstance(R, DataContainer))
    c.check('keys', set(R.keys()) == set(ka))
    for k in ka:
        c.check_array('value', R[k], sh, lambda idx: f(k, idx))
        c.check_same('container-unchanged', A[k], sa[k])
    frame(c, 'unchanged', va, sa)


# ---- selection
def grid(c, nm, n, start):
    """n distinct axis values; any order"""
    v = np.array([start + 1.25 * q for q in range(n)])
    if not c.symbolic and n > 1 and c.choice(nm + '.shuffled', [False, True]):
        perm = list(range(n))
        c.rng.shuffle(perm)
        perm = c.record.setdefault(nm + '.perm', perm) if not c._given(nm + '.perm') else c._rec(nm + '.perm', c.values[nm + '.perm'])
        v = v[perm]
    elif c.symbolic and n > 1 and c.choice(nm + '.shuffled', [False, True]):
        v = v[::-1].copy()
    return v


def pick(c, nm, n, conc_max=7, ms=(1, 2)):
    m = c.bdim(nm + '.m', list(ms), conc=range(1, conc_max))
    if c.symbolic:
        return [c.choice(f'{nm}.{q}', range(n)) for q in range(m)]
    return [c.int(f'{nm}.{q}', 0, 1000) % n for q in range(m)]


def meta(c, dc, nt, nf, bybl):
    dc.times, dc.lsts, dc.freqs = grid(c, 't', nt, 2459000.1), None, grid(c, 'f', nf, 1e8) if nf is not None else None
    dc.lsts = (dc.times * 1.7) % 6.28
    if bybl:
        dc.times_by_bl = {k[:2]: dc.times.copy() for k in dc}
        dc.lsts_by_bl = {k[:2]: dc.lsts.copy() for k in dc}


@contract('C03', 'select_times', [DC + 'select_or_expand_times'], mode='bounded', bound='symbolic: 3 integrations, up to 2 selected, twice; contents and number of channels arbitrary; run-time: up to 6 integrations', trials=300, timeout=150, paths=20000)
def select_times(c):
    nt = c.bdim('nt', [3], conc=range(1, 7))
    nf = c.dim('nf')
    ka = [(0, 1, 'ee'), (2, 1, 'en')]
    A, va, sa = build(c, 'a', ka, (nt, nf), c.choice('dt', [complex, bool]) if not c.symbolic else complex)
    meta(c, A, nt, None, c.choice('bybl', [False, True]))
    t0, l0 = A.times.copy(), A.lsts.copy()
    sel = list(range(nt))
    cur, rounds = A, c.bdim('rounds', [1, 2], conc=[1, 2, 3])
    for r in range(rounds):
        ix = pick(c, f'sel{r}', len(sel), ms=(1, 2) if r == 0 else (1,))
        want = [sel[q] for q in ix]
        inpl = c.choice(f'inplace{r}', [True, False]) if r == 0 or not c.symbolic else False
        mode = c.choice(f'mode{r}', ['times', 'indices']) if r == 0 or not c.symbolic else 'times'
        kw = dict(new_times=[cur.times[q] for q in ix]) if mode == 'times' else dict(indices=np.array(ix))
        if mode == 'times' and (c.choice(f'as-array{r}', [False, True]) if r == 0 or not c.symbolic else False):
            kw['new_times'] = np.array(kw['new_times'])
        before = {k: c.snapshot(cur[k]) for k in ka}
        tb = np.array(cur.times)
        out = cur.select_or_expand_times(in_place=inpl, skip_bda_check=c.choice(f'skip{r}', [False, True]) if not c.symbolic else False, **kw)
        if inpl:
            out = cur if out is None else out
        else:
            for k in ka:
                c.check_same('original-unchanged', cur[k], before[k])
            c.check('original-times', bool(np.array_equal(tb, np.array(cur.times))))
        if mode == 'times':
            # equal time values are interchangeable, but the samples must be of that time
            pass
        sel, cur = want, out
        c.check('times', bool(np.array_equal(np.array(cur.times), t0[sel])))
        c.check('lsts', bool(np.array_equal(np.array(cur.lsts), l0[sel])))
        c.check('keys', set(cur.keys()) == set(ka))
        for k in ka:
            c.check_array('samples', cur[k], (len(sel), nf), lambda idx: c.at(sa[k], (sel[idx[0]] if not c.symbolic else _sel(c, sel, idx[0]), idx[1])))
            if cur.times_by_bl is not None:
                c.check('times_by_bl', bool(np.array_equal(cur.times_by_bl[k[:2]], t0[sel])) and bool(np.array_equal(cur.lsts_by_bl[k[:2]], l0[sel])))


def _sel(c, sel, i):
    r = sel[-1]
    for q in range(len(sel) - 2, -1, -1):
        r = c.ite(c.eq(i, q), sel[q], r)
    return r


@contract('C03', 'select_freqs', [DC + 'select_freqs'], mode='bounded', bound='symbolic: 3 channels, up to 2 selected, contents arbitrary, 3 or 2 integrations; run-time: up to 6 channels', trials=300, timeout=100, paths=20000)
def select_freqs(c):
    nf = c.bdim('nf', [3], conc=range(1, 7))
    nt = c.bdim('nt', [2, 3], conc=range(1, 7))
    ka = [(0, 1, 'ee'), (2, 1, 'en')]
    A, va, sa = build(c, 'a', ka, (nt, nf), complex)
    meta(c, A, nt, nf, False)
    f0, t0 = A.freqs.copy(), A.times.copy()
    sel, cur = list(range(nf)), A
    for r in range(c.bdim('rounds', [1], conc=[1, 2])):
        mode = c.choice(f'mode{r}', ['freqs', 'channels', 'slice', 'none'])
        inpl = c.choice(f'inplace{r}', [True, False])
        before = {k: c.snapshot(cur[k]) for k in ka}
        fb = np.array(cur.freqs)
        if mode == 'none':
            ix, kw = list(range(len(sel))), {}
        elif mode == 'slice':
            a = c.choice(f'start{r}', range(3)) if c.symbolic else c.int(f'start{r}', 0, 5) % len(sel)
            st = c.choice(f'step{r}', [1, 2])
            ix, kw = list(range(len(sel)))[a::st], dict(channels=slice(a, None, st))
        else:
            ix = pick(c, f'sel{r}', len(sel))
            kw = dict(freqs=cur.freqs[ix]) if mode == 'freqs' else dict(channels=np.array(ix))
        # a repeated frequency value may be taken from either copy: the samples are identical copies
        out = cur.select_freqs(in_place=inpl, **kw)
        c.check('returned', (out is cur) if inpl else (out is not cur))
        if not inpl:
            for k in ka:
                c.check_same('original-unchanged', cur[k], before[k])
            c.check('original-freqs', bool(np.array_equal(fb, np.array(cur.freqs))))
        sel, cur = [sel[q] for q in ix], out
        c.check('freqs', bool(np.array_equal(np.array(cur.freqs), f0[sel])))
        c.check('times-kept', bool(np.array_equal(np.array(cur.times), t0)))
        for k in ka:
            c.check_array('samples', cur[k], (nt, len(sel)), lambda idx: c.at(sa[k], (idx[0], sel[idx[1]] if not c.symbolic else _sel(c, sel, idx[1]))))


@contract('C03', 'deinterleave', [DC + 'deinterleave'], mode='bounded', bound='symbolic: 2 to 5 integrations, contents and channels arbitrary; run-time: up to 12', trials=150, timeout=60)
def deinterleave(c):
    nt = c.bdim('nt', [2, 3, 4, 5], conc=range(1, 13))
    ni = c.bdim('ni', [1, 2, 3], conc=range(1, 6))
    nf = c.dim('nf')
    ka = [(0, 1, 'ee'), (2, 1, 'en')]
    A, va, sa = build(c, 'a', ka, (nt, nf), complex)
    meta(c, A, nt, None, False)
    ts = c.choice('tslice', [slice(None), slice(1, None), slice(0, -1), slice(None, None, 2)])
    rows = list(range(nt))[ts]
    out = A.deinterleave(ni, tslice=ts)
    c.check('count', len(out) == ni)
    per = len(rows) // ni
    for q, d in enumerate(out):
        want = [rows[q + ni * s] for s in range(per)]
        c.check('times', bool(np.array_equal(d.times, A.times[want])) and bool(np.array_equal(d.lsts, A.lsts[want])))
        c.check('keys', set(d.keys()) == set(ka))
        for k in ka:
            if not want:
                c.shape_is('empty', d[k], (0, nf))
            else:
                c.check_array('samples', d[k], (per, nf), lambda idx: c.at(sa[k], (want[idx[0]] if not c.symbolic else _sel(c, want, idx[0]), idx[1])))
    frame(c, 'unchanged', va, sa)


@contract('C03', 'concatenate', [DC + 'concatenate'], trials=200, timeout=120)
def concatenate(c):
    axis = c.choice('axis', [0, 1])
    nA, nB, nC, m = c.dim('nA'), c.dim('nB'), c.dim('nC'), c.dim('m')
    sh = lambda n: (n, m) if axis == 0 else (m, n)
    ka, kb = keysets(c)
    A, va, sa = build(c, 'a', ka, sh(nA), complex)
    B, vb, sb = build(c, 'b', kb, sh(nB), complex)
    two = c.choice('two', [False, True])
    parts = [(nA, sa), (nB, sb)]
    D = B
    if two:
        kc = ka if c.choice('cflip', [False, True]) else [rev(k) for k in ka]
        kc = kc[:2]
        C, vc, sc = build(c, 'c', kc, sh(nC), complex)
        parts.append((nC, sc))
        D = [B, C]
    R = A.concatenate(D, axis=axis)
    shared = ka[:2]
    tot = nA + nB + (nC if two else 0)
    c.check('each-once', len(R) == len(shared))
    c.check('keys', all(k in R for k in shared) and not any(k in R for k in [ka[2], (7, 8, ka[0][2])]))
    for k in shared:
        def spec(idx):
            i = idx[axis]
            def loc(j):
                return (j, idx[1]) if axis == 0 else (idx[0], j)
            if not c.symbolic:
                for n, s in parts:
                    if i < n:
                        return val(c, s, k, loc(i))
                    i -= n
            r = None
            off = 0
            pieces = []
            for n, s in parts:
                pieces.append((off, n, s))
                off = off + n
            r = val(c, pieces[-1][2], k, loc(i - pieces[-1][0]))
            for o, n, s in reversed(pieces[:-1]):
                r = c.ite(i < o + n, val(c, s, k, loc(i - o)), r)
            return r
        c.check_array('samples', R[k], sh(tot), spec)
    frame(c, 'left-unchanged', va, sa)
    frame(c, 'right-unchanged', vb, sb)
