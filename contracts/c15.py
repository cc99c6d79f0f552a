"""C15: noise prediction and gain merging follow the radiometer and product rules."""
import warnings
from pyvc.engine import contract, Skip
from pyvc.terms import Unsupported
from contracts.lib import raises, rev
from hera_cal import noise, abscal
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
ASSUMPTIONS = []
TOL = 1e-9


def close(c, a, b, scale=1.0):
    if c.symbolic:
        return c.eq(a, b)
    if not np.isfinite(a) or not np.isfinite(b):
        return False
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def container(c, D, freqs=None, times=None):
    o = DataContainer(dict(D))
    if freqs is not None:
        o.freqs = freqs
    if times is not None:
        o.times_by_bl = times
    return o


def med(c, xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    if n == 2:
        return (xs[0] + xs[1]) / 2
    u, v, w = xs
    return c.ite(c.or_(c.and_(u <= v, v <= w), c.and_(w <= v, v <= u)), v, c.ite(c.or_(c.and_(v <= u, u <= w), c.and_(w <= u, u <= v)), u, w))


CASES = [((0, 1, 'nn'), ('nn', 'nn')), ((0, 1, 'ne'), ('nn', 'ee')), ((0, 1, 'en'), ('ee', 'nn')), ((2, 1, 'xx'), ('xx', 'xx')), ((3, 3, 'ne'), ('nn', 'ee')), ((1, 1, 'yy'), ('yy', 'yy'))]


@contract('C15', 'variance', ['noise.predict_noise_variance_from_autos'], mode='proof', trials=80, timeout=90)
def variance(c):
    """|V_ii V_jj| / (dt df nsamples) with each antenna's own feed, the same for the reversed baseline"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    bl, ap = c.choice('bl', CASES)
    sub = c.choice('auto-ant', [None, 5])
    ants = (bl[0], bl[1]) if sub is None else (5, 5)
    k1, k2 = (ants[0], ants[0], ap[0]), (ants[1], ants[1], ap[1])
    D = {}
    for q, k in enumerate([k1, k2, (7, 7, ap[0]), (9, 9, ap[1])]):
        if k not in D:
            D[k] = c.array(f'a{q}', (nt, nf), complex)
    if sub is not None:   # the antennas' own autos are there but must not be used
        for q, k in enumerate([(bl[0], bl[0], ap[0]), (bl[1], bl[1], ap[1])]):
            if k not in D:
                D[k] = c.array(f'own{q}', (nt, nf), complex)
    dt, df = c.real('dt', lo=1e-3, hi=1e4), c.real('df', lo=1, hi=1e7)
    ns = None
    if c.choice('nsamples', [True, False]):
        ns = {k: c.array(f'n{q}', (nt, nf), float, lo=.01, hi=1e4) for q, k in enumerate({bl, (0, 7, 'nn')})}
    d0 = {k: c.snapshot(v) for k, v in D.items()}
    n0 = None if ns is None else c.snapshot(ns[bl])
    dc = container(c, D)
    kw = dict(dt=dt, df=df)
    if sub is not None:
        kw['auto_ant'] = sub
    nsc = None if ns is None else DataContainer(dict(ns))
    o = noise.predict_noise_variance_from_autos(bl, dc, nsamples=nsc, **kw)
    c.shape_is('shape', o, (nt, nf))
    c.check('real', c.is_kind(o, 'f'))
    p = noise.predict_noise_variance_from_autos(rev(bl), dc, nsamples=nsc, **kw)
    c.shape_is('reversed-shape', p, (nt, nf))
    for i in c.indices(nt, nf):
        s = c.absv(c.at(d0[k1], i)) * c.absv(c.at(d0[k2], i)) / dt / df
        if ns is not None:
            s = s / c.at(n0, i)
        if c.symbolic:
            # both are non-negative: equal squares
            s2 = c.abs2(c.at(d0[k1], i)) * c.abs2(c.at(d0[k2], i))
            den = dt * df * (1 if ns is None else c.at(n0, i))
            for nm, v in (('', c.at(o, i)), ('reversed', c.at(p, i))):
                c.check(nm + 'square', c.eq(v * v * den * den, s2))
                c.check(nm + 'positive', v >= 0)
        else:
            c.check('value', close(c, c.at(o, i), s))
            c.check('reversed', close(c, c.at(p, i), s))
    for k in D:
        c.check_same('frame', D[k], d0[k])
    if ns is not None:
        c.check_same('frame.nsamples', ns[bl], n0)


@contract('C15', 'variance_inferred', ['noise.predict_noise_variance_from_autos', 'noise.infer_dt'], mode='bounded', bound='2 or 3 times and channels (4 at run time); any times, frequencies and autocorrelations', trials=80, timeout=120)
def variance_inferred(c):
    """without dt / df: the typical step of the baseline's times (days to seconds) and of the frequencies"""
    ns = [2, 3] if c.symbolic else [2, 3, 4]
    nt, nf = c.choice('nt', ns), c.choice('nf', ns)
    bl = (0, 1, 'ne')
    D = {(0, 0, 'nn'): c.array('a', (nt, nf), complex), (1, 1, 'ee'): c.array('b', (nt, nf), complex)}
    if c.symbolic:
        fr = c.array('freqs', (nf,), float)
        tm, tm2 = c.array('times', (nt,), float), c.array('times2', (nt + 1,), float)
    else:
        rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
        fr = 1e8 + np.cumsum(rng.uniform(1e4, 2e5, nf))
        tm, tm2 = 2459000 + np.cumsum(rng.uniform(1e-4, 2e-4, nt)), 2459000 + np.cumsum(rng.uniform(1e-4, 2e-4, nt + 1))
    for x, n in ((fr, nf), (tm, nt), (tm2, nt + 1)):
        for q in range(n - 1):
            c.assume(c.at(x, (q + 1,)) > c.at(x, (q,)))
    times = {(0, 2): tm2, (0, 1): tm, (0, 0): tm2, (1, 1): tm2}
    which = c.choice('given', ['none', 'dt', 'df'])
    kw = {} if which == 'none' else {which: c.real(which, lo=.5, hi=10)}
    o = noise.predict_noise_variance_from_autos(bl, container(c, D, fr, times), **kw)
    dt = kw.get('dt', med(c, [c.at(tm, (q + 1,)) - c.at(tm, (q,)) for q in range(nt - 1)]) * 86400)
    df = kw.get('df', med(c, [c.at(fr, (q + 1,)) - c.at(fr, (q,)) for q in range(nf - 1)]))
    c.shape_is('shape', o, (nt, nf))
    for i in [(0, 0), (nt - 1, nf - 1), (0, nf - 1)]:
        v, a, b = c.at(o, i), c.at(D[0, 0, 'nn'], i), c.at(D[1, 1, 'ee'], i)
        if c.symbolic:
            c.check('square', c.eq(v * v * (dt * df) * (dt * df), c.abs2(a) * c.abs2(b)))
            c.check('positive', v >= 0)
        else:
            c.check('value', close(c, v, abs(a * b) / dt / df))
    c.check('one-channel', raises(AssertionError, lambda: noise.predict_noise_variance_from_autos(bl, container(c, D, np.array([1e8]), times), dt=1.0)))


@contract('C15', 'antenna_std', ['noise.per_antenna_noise_std', 'noise.predict_noise_variance_from_autos'], mode='proof', trials=60, timeout=90)
def antenna_std(c):
    """per antenna and feed: the root of the predicted variance of its autocorrelation; other keys do not appear"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    keys = [(0, 0, 'nn'), (0, 0, 'ee'), (4, 4, 'nn')]
    other = c.choice('others', [[], [(0, 0, 'ne'), (0, 4, 'nn')]])
    D = {k: c.array(f'a{q}', (nt, nf), complex) for q, k in enumerate(keys + other)}
    d0 = {k: c.snapshot(v) for k, v in D.items()}
    dt, df = c.real('dt', lo=1e-3, hi=1e4), c.real('df', lo=1, hi=1e7)
    o = noise.per_antenna_noise_std(container(c, D), dt=dt, df=df)
    c.check('keys', set(o.keys()) == set(keys))
    c.check('container', isinstance(o, DataContainer))
    for k in keys:
        c.shape_is('shape', o[k], (nt, nf))
        for i in c.indices(nt, nf):
            v = c.at(o[k], i)
            if c.symbolic:
                c.check('square', c.eq(v * v * v * v * dt * df * dt * df, c.abs2(c.at(d0[k], i)) * c.abs2(c.at(d0[k], i))))
                c.check('positive', v >= 0)
            else:
                c.check('value', close(c, v, abs(d0[k][i]) / np.sqrt(dt * df)))
        c.check_same('frame', D[k], d0[k])


@contract('C15', 'infer_dt', ['noise.infer_dt'], mode='bounded', bound='baselines with 0 to 4 times (any values), up to 3 baselines', trials=80, timeout=60)
def infer_dt(c):
    """the baseline's typical step; for one integration the whole span of a longer baseline; else the default or an error"""
    n, others = c.choice('n', [0, 1, 2, 3, 4]), c.choice('others', [[], [1], [0, 3], [3, 1], [2, 4]])
    T = {(8 + q, 9): c.array(f'o{q}', (m,), float) for q, m in enumerate(others)}
    first = c.choice('first', [True, False])
    me = {(0, 1): c.array('t', (n,), float)}
    tb = {**me, **T} if first else {**T, **me}
    bl = c.choice('key', [(0, 1), (0, 1, 'ee')])
    dflt = c.choice('default', [None, 0.25])
    kw = {} if dflt is None else {'default_dt': dflt}
    step = lambda x, m: med(c, [c.at(x, (q + 1,)) - c.at(x, (q,)) for q in range(m - 1)])
    long = [q for q, m in enumerate(others) if m > 1]
    eq = c.eq if c.symbolic else (lambda a, b: abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)))
    if n > 1:
        c.check('own', eq(noise.infer_dt(tb, bl, **kw), step(tb[0, 1], n)))
    elif n == 1 and long:
        c.check('other', eq(noise.infer_dt(tb, bl, **kw), step(T[8 + long[0], 9], others[long[0]]) * others[long[0]]))
    elif dflt is not None:
        c.check('default', noise.infer_dt(tb, bl, **kw) == dflt)
    else:
        c.check('error', raises(ValueError, lambda: noise.infer_dt(tb, bl)))


@contract('C15', 'interleaved', ['noise.interleaved_noise_variance_estimate'], mode='concrete', bound='random waterfalls up to 9 x 9, kernels up to 3 x 3', trials=100, timeout=60)
def interleaved(c):
    """|sum of kernel times wrapped neighbours|^2 over the kernel's sum of squares"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nt, nf = c.int('nt', 3, 9), c.int('nf', 3, 9)
    v = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    v0 = v.copy()
    K = c.choice('kernel', [None, [[1, -2, 1]], [[1], [-2], [1]], [[1, 0, -1], [2, -4, 2], [1, 0, -1]]])
    o = noise.interleaved_noise_variance_estimate(v, **({} if K is None else {'kernel': K}))
    k = np.array([[1, -2, 1], [-2, 4, -2], [1, -2, 1]] if K is None else K)
    a, b = k.shape[0] // 2, k.shape[1] // 2
    s = sum(k[p, q] * np.roll(np.roll(v0, p - a, 0), q - b, 1) for p in range(k.shape[0]) for q in range(k.shape[1]))
    c.check('value', np.allclose(o, np.abs(s) ** 2 / np.sum(k ** 2.), rtol=1e-9, atol=1e-12))
    c.check('frame', np.array_equal(v, v0))
    c.check('sum', raises(AssertionError, lambda: noise.interleaved_noise_variance_estimate(v, kernel=[[1, 1]])))
    c.check('2d', raises(AssertionError, lambda: noise.interleaved_noise_variance_estimate(v, kernel=[1, -1])))


ANTS = [(0, 'Jee'), (1, 'Jee'), (1, 'Jnn'), (2, 'Jnn')]


@contract('C15', 'merge', ['abscal.merge_gains'], mode='proof', trials=100, timeout=120)
def merge(c):
    """products of gains (ORs of flags) antenna by antenna, over the shared antennas or over all of them"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    kind = c.choice('kind', ['gains', 'flags'])
    if c.symbolic:
        sets = c.choice('sets', [(0b1111,), (0b0011, 0b0110), (0b0110, 0b0011), (0b0011, 0b1100), (0b1111, 0b0101, 0b0111), (0b0001, 0b0010, 0b0001)])
    else:
        sets = tuple(c.int(f's{q}', 1, 15) for q in range(c.int('nsets', 1, 4)))
    G = [{a: c.array(f'g{q}.{r}', (nt, nf), complex if kind == 'gains' else bool) for r, a in enumerate(ANTS) if m >> r & 1} for q, m in enumerate(sets)]
    g0 = [{a: c.snapshot(v) for a, v in g.items()} for g in G]
    shared = c.choice('shared', [True, False, None])
    arg = c.choice('seq', [list, tuple])(G)
    o = abscal.merge_gains(arg, **({} if shared is None else {'merge_shared': shared}))
    keep = [a for r, a in enumerate(ANTS) if (all if shared in (True, None) else any)(m >> r & 1 for m in sets)]
    c.check('keys', sorted(o.keys()) == keep)
    for a in keep:
        c.shape_is('shape', o[a], (nt, nf))
        if kind == 'gains':
            for i in c.indices(nt, nf):
                p = 1.0
                for g in g0:
                    if a in g:
                        p = p * c.at(g[a], i)
                v = c.at(o[a], i)
                c.check('product', c.eq(v, p) if c.symbolic else abs(v - p) <= 1e-9 * max(abs(p), 1e-300))
        else:
            missing = any(a not in g for g in g0)
            c.check_array('union', o[a], (nt, nf), lambda i: c.or_(c.eq(0, 0 if missing else 1), *[c.at(g[a], i) for g in g0 if a in g]))
            c.check('bool', c.is_kind(o[a], 'b'))
    for g, h in zip(G, g0):
        c.check('frame.keys', set(g) == set(h))
        for a in h:
            c.check_same('frame', g[a], h[a])
