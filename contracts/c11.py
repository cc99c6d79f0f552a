"""C11: redundant averaging is the weighted mean over each redundant group."""
from pyvc.engine import contract, Skip
from pyvc.terms import Unsupported
from contracts.lib import rev, raises, feeds
from hera_cal import utils, apply_cal
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
ASSUMPTIONS = ['C11: visibilities, gains and weights are finite; a weight or sample count is either zero or at least 1e-3, and gains are nonzero (the code treats weights below 1e-8 as zero)',
               'C11: the symbolic contracts use two redundant groups of up to three baselines (members in either orientation) and up to two polarizations; array shapes and all contents are arbitrary']


def vis(c, nm, keys, shape):
    v = {k: c.array(f'{nm}{q}', shape, complex) for q, k in enumerate(keys)}
    return v, {k: c.snapshot(a) for k, a in v.items()}


def flg(c, nm, keys, shape):
    v = {k: c.array(f'{nm}{q}', shape, bool) for q, k in enumerate(keys)}
    return v, {k: c.snapshot(a) for k, a in v.items()}


def wts(c, nm, keys, shape, lo=1e-3):
    """arrays whose elements are 0 or at least lo"""
    v = {}
    for q, k in enumerate(keys):
        v[k] = c.array(f'{nm}{q}', shape, float, lo=lo, hi=100.) * c.array(f'{nm}{q}.z', shape, bool)
    return v, {k: c.snapshot(a) for k, a in v.items()}


def get(c, snap, key, idx):
    if key in snap:
        return c.at(snap[key], idx)
    v = c.at(snap[rev(key)], idx)
    return c.conj(v) if c.is_kind(snap[rev(key)], 'c') else v


def total(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


P1, P2, P4 = ['ee'], ['ee', 'nn'], ['ee', 'en', 'ne', 'nn']
# pols, reversed storage of the first two baselines, groups, red_bl_keys, flags given, nsamples given, in place
CASES = [(P1, (0, 0), 'all', 0, 1, 1, 0), (P1, (1, 0), 'all', 0, 1, 1, 1), (P1, (0, 1), 'first', 0, 1, 1, 0), (P1, (1, 1), 'extra', 0, 1, 1, 0),
         (P1, (1, 0), 'extra', 1, 1, 1, 0), (P1, (0, 1), 'all', 1, 1, 1, 1), (P2, (1, 0), 'first', 1, 0, 1, 0), (P2, (0, 0), 'all', 0, 1, 0, 0),
         (P1, (0, 1), 'all', 0, 0, 0, 0), (P4, (1, 0), 'first', 0, 1, 1, 0)]


def config(c):
    return (c.choice('pols', [P1, P2, P4]), (c.choice('flip0', [0, 1]), c.choice('flip1', [0, 1])), c.choice('groups', ['all', 'first', 'extra']),
            c.choice('red_bl_keys', [0, 1]), c.choice('flags', [1, 0]), c.choice('nsamples', [1, 0]), c.choice('inplace', [0, 1]))


def average(c, mode):
    """mode: default (weights from counts and flags), wgts (manual weights), prop (manual weights, flags propagated)"""
    shape = (c.dim('nt', lo=1), c.dim('nf', lo=1))
    pols, flips, sub, rk, hf, hn, inplace = c.choice('case', CASES) if c.choice('listed', [True] if c.symbolic else [True, False]) else config(c)
    ants = [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)]
    store = [(b[::-1] if q < 2 and flips[q] else b) for q, b in enumerate(ants)]
    reds = [[(0, 1), (1, 2), (2, 3)], [(0, 2), (1, 3)]]
    if sub == 'first':
        reds = reds[:1]
    elif sub == 'extra':   # baselines without data in the group, and a whole group without data
        reds = [[(8, 9)], [(5, 6)] + reds[0], reds[1][::-1]]
    named = [g[-1] for g in reds] if rk else None
    if inplace and not (hf and hn):
        raise Skip
    keys = [b + (p,) for b in store for p in pols]
    d, d0 = vis(c, 'd', keys, shape)
    f, f0 = flg(c, 'f', keys, shape)
    n, n0 = wts(c, 'n', keys, shape)
    w = w0 = None
    if mode != 'default':
        w, w0 = wts(c, 'w', keys, shape)
    D, F, N = DataContainer(dict(d)), DataContainer(dict(f)), DataContainer(dict(n))
    W = DataContainer(dict(w)) if w else None
    c.reachable('pre')
    kw = dict(reds=[list(g) for g in reds], inplace=bool(inplace), flags=F if hf else None, nsamples=N if hn else None, wgts=W,
              red_bl_keys=named, propagate_flags=(mode == 'prop'))
    r = utils.red_average(D, **kw)
    rd, rf, rn = (D, F, N) if inplace else r
    pairs = set(b for b in store) | set(b[::-1] for b in store)
    groups = [(([b for b in g if b in pairs]), (named[q] if rk else None)) for q, g in enumerate(reds)]
    groups = [(g, k if k is not None else g[0]) for g, k in groups if g]
    want = {k + (p,) for _, k in groups for p in pols}
    norm = lambda ks: {min(k, rev(k)) for k in ks}
    for nm, x in (('data', rd), ('flags', rf), ('nsamples', rn)):
        c.check(f'{nm}-keys', norm(x.keys()) == norm(want))
        c.check(f'{nm}-once', len(list(x.keys())) == len(want))
    fl = lambda k, i: get(c, f0, k, i) if hf else c.eq(0, 1)
    ns = lambda k, i: get(c, n0, k, i) if hn else 1.0
    zero = lambda x: c.eq(x, 0)

    def wt(k, i):
        return c.ite(fl(k, i), 0.0, ns(k, i)) if w0 is None else get(c, w0, k, i)
    for g, k in groups:
        for p in pols:
            ms = [b + (p,) for b in g]
            key = k + (p,)

            def flagged(i):
                return c.and_(*[c.or_(zero(wt(m, i)), fl(m, i)) if mode == 'prop' else zero(wt(m, i)) for m in ms])

            def mean(i):
                W_ = total(wt(m, i) for m in ms)
                return c.ite(c.eq(W_, 0), 0.0, total(wt(m, i) * get(c, d0, m, i) for m in ms) / c.ite(c.eq(W_, 0), 1.0, W_))
            for i in c.indices(*shape):
                c.check('mean', c.or_(flagged(i), c.eq(c.at(rd[key], i), mean(i))))
            c.shape_is('shape', rd[key], shape)
            c.check_array('flag', rf[key], shape, flagged)
            c.check_array('count', rn[key], shape, lambda i: total(c.ite(zero(wt(m, i)), 0.0, ns(m, i)) for m in ms))
            c.check_array('reversed', rd[rev(key)], shape, lambda i: c.conj(c.at(rd[key], i)))
    if not inplace:
        c.check('input-keys', set(D.keys()) == set(keys) and set(F.keys()) == set(keys) and set(N.keys()) == set(keys))
        for x, o, s in ((D, d, d0), (F, f, f0), (N, n, n0)) + (((W, w, w0),) if w else ()):
            for k in keys:
                c.check_same('input-unchanged', x[k], s[k])
                c.check_same('input-array-unchanged', o[k], s[k])
    elif w:
        for k in keys:
            c.check_same('weights-unchanged', W[k], w0[k])


@contract('C11', 'average_default', ['utils.red_average'], trials=200, timeout=150)
def average_default(c):
    average(c, 'default')


@contract('C11', 'average_wgts', ['utils.red_average'], trials=200, timeout=150)
def average_wgts(c):
    average(c, 'wgts')


@contract('C11', 'average_prop', ['utils.red_average'], trials=200, timeout=150)
def average_prop(c):
    average(c, 'prop')


# ---------------------------------------------------------------- calibrate_and_red_avg
# data keys, gains missing, excluded antennas, ant_flags, data_flags, effective nsamples
CRA = [(0, (), (), 1, 0, 1), (1, (), (), 0, 1, 1), (0, (), (2,), 1, 0, 0), (1, (2,), (), 0, 1, 0), (0, (), (0, 2), 0, 0, 1)]


def case(c, cases):
    """the listed cases symbolically; every combination of options at run time"""
    if c.choice('listed', [True] if c.symbolic else [True, False]):
        return c.choice('case', cases)
    return (c.choice('flip', [0, 1]), c.choice('nogain', [(), (), (2,), (0,)]), c.choice('ex', [(), (2,), (1,), (0, 2)]),
            c.choice('haf', [0, 1]), c.choice('hdf', [0, 1]), c.choice('eff', [0, 1]))


def gt(x, y):
    return x > y


def somewhere(c, shape, f):
    return c.exists(shape[0], lambda t: c.exists(shape[1], lambda q: f((t, q))))


def cra(c, pol, opts, chisq, nan, ants=(0, 1, 2), nauto_='skip'):
    """calibrate_and_red_avg on antennas 0-2 with one polarization"""
    flip, nogain, ex, haf, hdf, eff = opts
    shape = (c.dim('nt', lo=1), c.dim('nf', lo=1))
    dt, df = c.real('dt', lo=0.1, hi=100.), c.real('df', lo=1.0, hi=1e4)
    ap = 'J' + pol
    autos = [(a, a, pol) for a in ants]
    cross = [] if nauto_ == 'only' else [(0, 1, pol), (1, 2, pol)]
    reds = [list(autos)] + ([list(cross)] if cross else [])
    d = {k: c.array(f'auto{k[0]}', shape, float, lo=0.0, hi=100.) * (1 + 0j) for k in autos}
    for q, k in enumerate(cross):
        d[rev(k) if (flip and q == 1) else k] = c.array(f'd{q}', shape, complex)
    d0 = {k: c.snapshot(v) for k, v in d.items()}
    gains = {(a, ap): c.array(f'g{a}', shape, complex, nonzero=True, nan=nan) for a in ants if a not in nogain}
    g0 = {k: c.snapshot(v) for k, v in gains.items()}
    af = {(a, ap): c.array(f'af{a}', shape, bool) for a in ants[:2]} if haf else None   # antenna 2 has no antenna flags
    af0 = {k: c.snapshot(v) for k, v in af.items()} if haf else {}
    dfl = {k: c.array(f'df{q}', shape, bool) for q, k in enumerate(d)} if hdf else None
    dfl0 = {k: c.snapshot(v) for k, v in dfl.items()} if hdf else {}
    D = DataContainer(dict(d))
    DF = DataContainer(dict(dfl)) if hdf else None
    exants = {(a, ap) for a in ex}
    c.reachable('pre')
    fin = lambda a, i: c.finite(c.at(g0[a, ap], i))
    G = lambda a, i: c.ite(fin(a, i), c.at(g0[a, ap], i), 1.0 + 0j)
    gflag = lambda a, i: c.or_(c.not_(fin(a, i)), c.at(af0[a, ap], i) if (a, ap) in af0 else c.eq(0, 1))
    raw = lambda k, i: get(c, d0, k, i)
    A = lambda a, i: raw((a, a, pol), i).real / c.abs2(G(a, i))
    # the callees are used by contract (calibrate_in_place: C06; predict_noise_variance_from_autos: C15): arbitrary results,
    # with what they are given checked here
    CAL, S2, calls = {}, {}, []
    if c.symbolic:
        for k in autos:
            CAL[k] = c.array(f'cal{k[0]}', shape, float, lo=0.0) * (1 + 0j)
        for q, k in enumerate(cross):
            CAL[k], S2[k] = c.array(f'calx{q}', shape, complex), c.array(f's2{q}', shape, float, lo=0.0)

    def stub_cal(data, g, *a, **kw):
        if a or kw:
            raise Unsupported('calibrate_in_place called with further options')
        for k in list(data.keys()):
            r = k if k in CAL else rev(k)
            calls.append(('cal', r))
            c.check_array('calibrates-raw-data', data[r], shape, lambda i: raw(r, i))
            for x in feeds(r):
                c.check('gain-given', x in g)
                c.check_array('calibrates-with-gains', g[x], shape, lambda i: G(x[0], i))
            data[r] = CAL[r]

    def stub_noise(bl, data, dt=None, df=None, nsamples=None, auto_ant=None):
        if nsamples is not None or auto_ant is not None or bl not in S2:
            raise Unsupported('noise prediction called with further options')
        calls.append(('noise', bl))
        c.check('noise-cadence', c.and_(c.eq(dt, dt_), c.eq(df, df_)))
        for a in bl[:2]:
            c.check_array('noise-autos', data[a, a, pol], shape, lambda i: A(a, i))
        return S2[bl]
    dt_, df_ = dt, df
    keep = apply_cal.calibrate_in_place, apply_cal.noise.predict_noise_variance_from_autos
    try:
        if c.symbolic:
            apply_cal.calibrate_in_place, apply_cal.noise.predict_noise_variance_from_autos = stub_cal, stub_noise
        rd, rf, rn, meta = apply_cal.calibrate_and_red_avg(D, gains, reds, ant_flags=af, ex_ants=exants, data_flags=DF, dt=dt, df=df,
                                                           compute_chisq=chisq, effective_nsamples=bool(eff))
    finally:
        apply_cal.calibrate_in_place, apply_cal.noise.predict_noise_variance_from_autos = keep
    def cal(k, i):
        if c.symbolic:
            if ('cal', k) not in calls:
                raise Unsupported('calibrate_in_place not used')
            return c.at(CAL[k], i)
        return raw(k, i) / (G(k[0], i) * c.conj(G(k[1], i)))

    def s2(k, i):
        if c.symbolic:
            if ('noise', k) not in calls:
                raise Unsupported('noise prediction not used')
            return c.at(S2[k], i)
        return A(k[0], i) * A(k[1], i) / dt / df
    flag = lambda k, i: c.or_(gflag(k[0], i), gflag(k[1], i), get(c, dfl0, k, i) if hdf else c.eq(0, 1))
    has = lambda a: a not in nogain

    def wgt(k, i):
        v = s2(k, i)
        ok = gt(v, 0)
        return c.ite(c.or_(flag(k, i), c.not_(ok)), 0.0, 1 / c.ite(ok, v, 1.0))
    good = lambda k: all(has(a) and a not in ex for a in k[:2])
    use_a = [k for k in autos if good(k)]
    use_c = [k for k in cross if good(k)]
    one = lambda k, i: c.ite(flag(k, i), 0.0, 1.0)
    safe = lambda x: c.ite(gt(x, 0), x, 1.0)
    navg = lambda i: total(one(k, i) for k in use_a)
    abar = lambda i: c.ite(gt(navg(i), 0), total(one(k, i) * cal(k, i).real for k in use_a) / safe(navg(i)), 0.0)
    # autocorrelations
    for q, k in enumerate(autos):
        if not use_a:
            c.check('auto-absent', k not in rd)
            continue
        if q:
            for x in (rd, rf, rn):
                c.check_same('auto-group-shared', x[k], x[autos[0]])
            continue
        c.check_array('auto-mean', rd[k], shape, abar)
        c.check_array('auto-flag', rf[k], shape, lambda i: c.not_(gt(navg(i), 0)))

        def nauto(i):
            if not eff:
                return navg(i)
            ps = total(one(q, i) * A(q[0], i) * A(q[0], i) for q in use_a)
            return c.ite(gt(ps, 0), navg(i) * navg(i) * abar(i) * abar(i) / safe(ps), 0.0)
        if not (c.symbolic and nauto_ == 'skip' and eff):
            c.check_array('auto-nsamples', rn[k], shape, nauto)
    if nauto_ == 'only':
        return
    present = [k for k in use_c if bool(somewhere(c, shape, lambda i: gt(wgt(k, i), 0)))]
    wsum = lambda i: total(wgt(k, i) for k in use_c)
    mean = lambda i: c.ite(gt(wsum(i), 0), total(wgt(k, i) * cal(k, i) for k in present) / safe(wsum(i)), 0.0)
    for k in cross:
        if not present:
            c.check('group-absent', k not in rd)
            continue
        c.check('group-present', k in rd and k in rf and k in rn)
        c.check_array('mean', rd[k], shape, mean)
        c.check_array('mean-reversed', rd[rev(k)], shape, lambda i: c.conj(mean(i)))
        c.check_array('flag', rf[k], shape, lambda i: c.not_(gt(wsum(i), 0)))
        if eff:
            c.check_array('nsamples', rn[k], shape, lambda i: abar(i) * abar(i) * wsum(i) / (dt * df))
        else:
            c.check_array('nsamples', rn[k], shape, lambda i: total(c.ite(gt(wgt(m, i), 0), 1.0, 0.0) for m in use_c))
    c.check('number-of-groups', len(list(rd.keys())) == (1 if use_a else 0) + (1 if present else 0))
    if chisq:
        z2 = lambda k, i: c.ite(gt(wgt(k, i), 0), wgt(k, i) * c.absv(cal(k, i) - mean(i))**2, 0.0)
        dof = lambda k, i: c.ite(gt(wgt(k, i), 0), 1 - wgt(k, i) / safe(wsum(i)), 0.0)
        num, den = {}, {}
        for k in present:
            for a in k[:2]:
                num.setdefault(a, []).append((k, z2)), den.setdefault(a, []).append((k, dof))
        if present:
            zx = lambda k, i: c.ite(gt(wsum(i), 0), z2(k, i), 0.0)
            dx = lambda k, i: c.ite(c.and_(gt(wgt(k, i), 0), gt(wsum(i), 0)), 1 + wgt(k, i) / safe(wsum(i)), 0.0)
            for k in cross:
                bad = [a for a in k[:2] if a in ex]
                if len(bad) == 1 and all(has(a) for a in k[:2]) and bool(somewhere(c, shape, lambda i: gt(wgt(k, i), 0))):
                    num.setdefault(bad[0], []).append((k, zx)), den.setdefault(bad[0], []).append((k, dx))
        c.check('chisq-antennas', set(meta['chisq_per_ant']) == {(a, ap) for a in num})
        for a in num:
            n_ = lambda i: total(f(k, i) for k, f in num[a])
            d_ = lambda i: total(f(k, i) for k, f in den[a])
            for i in c.indices(*shape):
                got = c.at(meta['chisq_per_ant'][a, ap], i)
                c.check('chisq', c.or_(c.and_(gt(d_(i), 0), c.eq(got, n_(i) / safe(d_(i)))), c.and_(c.not_(gt(d_(i), 0)), c.not_(c.finite(got)))))
        if present:
            n_ = lambda i: total(z2(k, i) for k in present)
            d_ = lambda i: total(dof(k, i) for k in present)
            for i in c.indices(*shape):
                got = c.at(meta['total_chisq'][ap], i)
                c.check('total-chisq', c.or_(c.and_(gt(d_(i), 0), c.eq(got, n_(i) / safe(d_(i)))), c.and_(c.not_(gt(d_(i), 0)), c.not_(c.finite(got)))))
    c.check('meta', chisq == (meta != {}) or not chisq)
    for k in d:
        c.check_same('data-unchanged', d[k], d0[k])
        c.check_same('data-container-unchanged', D[k], d0[k])
    for k in gains:
        c.check_same('gains-unchanged', gains[k], g0[k])
    for x, s in ((af or {}, af0), (dfl or {}, dfl0)):
        for k in x:
            c.check_same('flags-unchanged', x[k], s[k])


CRF = ['apply_cal.calibrate_and_red_avg', 'apply_cal.calibrate_in_place', 'noise.predict_noise_variance_from_autos']


@contract('C11', 'calibrate_red_avg', CRF, trials=120, timeout=150)
def calibrate_red_avg(c):
    cra(c, 'ee', case(c, CRA), False, nan=False)


@contract('C11', 'red_avg_auto_nsamples', CRF, trials=60, timeout=150)
def red_avg_auto_nsamples(c):
    cra(c, 'ee', case(c, [(0, (), (), 1, 0, 1), (0, (), (0,), 0, 1, 1)]), False, False, ants=(0, 1) if c.symbolic else (0, 1, 2), nauto_='only')


@contract('C11', 'red_avg_nonfinite_gains', CRF, trials=80, timeout=150)
def red_avg_nonfinite_gains(c):
    cra(c, 'nn', case(c, [(1, (), (), 1, 0, 0), (0, (2,), (), 0, 1, 1)]), False, nan=True)


@contract('C11', 'red_avg_chisq', CRF, trials=100, timeout=280)
def red_avg_chisq(c):
    cra(c, 'ee', case(c, [(0, (), (), 0, 1, 0)]), True, nan=False)


@contract('C11', 'red_avg_chisq_excluded', CRF, trials=100, timeout=280)
def red_avg_chisq_excluded(c):
    cra(c, 'ee', case(c, [(0, (), (2,), 1, 1, 0)]), True, nan=False)


_HD = {}


def _uvdata():
    """one small observation from the repository's data directory (only its layout is used: contents are random)"""
    if not _HD:
        import os
        import warnings
        import hera_cal
        from hera_cal import io
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            hd = io.HERAData(os.path.join(os.path.dirname(hera_cal.__file__), 'data', 'zen.2458043.40141.xx.HH.XRAA.uvh5'))
            hd.read(times=list(hd.times)[:3], frequencies=list(hd.freqs)[:4])
        _HD['hd'] = hd
    return _HD['hd']


@contract('C11', 'average_uvdata', ['utils.red_average'], mode='concrete', bound='random contents on the layout of one 7-antenna observation, 3 times x 4 channels', trials=40, timeout=60)
def average_uvdata(c):
    import warnings
    import copy
    rng = np.random.default_rng(c.int('seed', 0, 10**6))
    hd = copy.deepcopy(_uvdata())
    pairs = sorted({tuple(sorted(p)) for p in hd.get_antpairs() if p[0] != p[1]})
    hd.data_array[:] = rng.normal(size=hd.data_array.shape) + 1j * rng.normal(size=hd.data_array.shape)
    hd.flag_array[:] = rng.random(hd.flag_array.shape) < c.choice('pf', [0.3, 0.8])
    hd.nsample_array[:] = rng.integers(0 if c.choice('zeros', [False, True]) else 1, 4, size=hd.nsample_array.shape)
    if c.choice('tint', [False, True]):
        hd.integration_time[:] = rng.integers(1, 4, size=hd.integration_time.shape)
    pairs = [pairs[q] for q in rng.permutation(len(pairs))]
    pairs = [p[::-1] if rng.random() < 0.5 else p for p in pairs]
    cut = sorted(rng.integers(1, len(pairs), size=2))
    reds = [g for g in (pairs[:cut[0]], pairs[cut[0]:cut[1]]) if g]
    rk = [g[-1] for g in reds] if c.choice('red_bl_keys', [False, True]) else None
    pol = hd.pols[0]
    get3 = lambda b: (hd.get_data(b + (pol,)).copy(), hd.get_flags(b + (pol,)).copy(), hd.get_nsamples(b + (pol,)).copy(),
                      hd.integration_time[hd.antpair2ind(b if b in hd.get_antpairs() else b[::-1])].copy()[:, None])
    orig = {b: get3(b) for g in reds for b in g}
    before = hd.data_array.copy(), hd.flag_array.copy(), hd.nsample_array.copy()
    inplace = c.choice('inplace', [False, True])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = utils.red_average(hd, reds=[list(g) for g in reds], inplace=inplace, red_bl_keys=rk)
    if inplace:
        out = hd
    else:
        c.check('input-unchanged', all(np.array_equal(x, y) for x, y in zip(before, (hd.data_array, hd.flag_array, hd.nsample_array))))
    keys = rk if rk else [g[0] for g in reds]
    c.check('baselines', {tuple(sorted(p)) for p in out.get_antpairs()} == {tuple(sorted(k)) for k in keys})
    for g, k in zip(reds, keys):
        w = [orig[b][2] * ~orig[b][1] * orig[b][3] for b in g]
        ws = sum(w)
        mean = sum(x * orig[b][0] for x, b in zip(w, g)) / np.where(ws > 0, ws, 1)
        fl = ws == 0
        c.check('mean', bool(np.allclose(np.where(fl, 0, out.get_data(k + (pol,))), np.where(fl, 0, mean), rtol=1e-5, atol=1e-5)))
        c.check('flag', bool(np.array_equal(out.get_flags(k + (pol,)), fl)))
        c.check('count', bool(np.allclose(out.get_nsamples(k + (pol,)), sum(orig[b][2] * ~orig[b][1] for b in g))))


@contract('C11', 'red_avg_crosspol', CRF, mode='concrete', bound='random arrays of 3-5 antennas, 4 polarizations, up to 3 x 4 samples', trials=60, timeout=40)
def red_avg_crosspol(c):
    """cross-polarized groups are averaged with each antenna's own feed's gain, noise and auto averages"""
    rng = np.random.default_rng(c.int('seed', 0, 10**6))
    N, shape = int(rng.integers(3, 6)), (int(rng.integers(1, 4)), int(rng.integers(1, 5)))
    pols = ['ee', 'en', 'ne', 'nn']
    cx = lambda: rng.normal(size=shape) + 1j * rng.normal(size=shape)
    data, fl = {}, {}
    for i in range(N):
        for j in range(i, N):
            for p in pols:
                if i == j and p == 'ne':
                    continue
                k = (i, j, p)
                if i != j and rng.random() < 0.4:
                    k = rev(k)
                data[k] = np.abs(cx()) * (1 + 0j) if i == j and p[0] == p[1] else cx()
                fl[k] = rng.random(shape) < 0.3
    gains = {(i, 'J' + f * 2): 1 + 0.3 * cx() for i in range(N) for f in 'en'}
    af = {a: rng.random(shape) < 0.2 for a in gains}
    ex = {a for a in gains if rng.random() < 0.15}
    seps = list(range(1, N))
    reds = [[(i, i, p) for i in range(N)] for p in ('ee', 'nn')] + ([[(i, i, 'en') for i in range(N)]] if c.choice('xauto', [True, False]) else [])
    reds += [[(i, i + s, p) for i in range(N - s)] for s in seps for p in pols]
    reds = [reds[q] for q in rng.permutation(len(reds))]
    dt, df, eff = 2.0, 3.0, c.choice('eff', [True, False])
    D, F = DataContainer(dict(data)), DataContainer(dict(fl))
    copies = {k: v.copy() for k, v in data.items()}
    rd, rf, rn, _ = apply_cal.calibrate_and_red_avg(D, gains, reds, ant_flags=af, ex_ants=ex, data_flags=F, dt=dt, df=df, compute_chisq=False, effective_nsamples=eff)
    ft = lambda k: feeds(k)
    auto = lambda a: np.abs(data[a[0], a[0], a[1][1:]]) / np.abs(gains[a])**2
    cal = lambda k: D[k] / gains[ft(k)[0]] / np.conj(gains[ft(k)[1]])
    flag = lambda k: F[k] | af[ft(k)[0]] | af[ft(k)[1]]
    ok = lambda k: ft(k)[0] not in ex and ft(k)[1] not in ex
    abar = {}
    for f in 'en':
        m = [(i, i, f * 2) for i in range(N) if ok((i, i, f * 2))]
        n = sum([(~flag(k)).astype(float) for k in m], np.zeros(shape))
        abar[f] = sum([np.where(flag(k), 0, cal(k).real) for k in m], np.zeros(shape)) / np.where(n > 0, n, 1)
    for red in reds:
        m = [k for k in red if ok(k)]
        p = red[0][2]
        isauto = red[0][0] == red[0][1]
        if isauto:
            w = {k: (~flag(k)).astype(float) for k in m}
        else:
            w = {k: np.where(flag(k), 0, dt * df / (auto(ft(k)[0]) * auto(ft(k)[1]))) for k in m}
            m = [k for k in m if np.any(w[k] > 0)]
        if not m:
            c.check('absent', all(k not in rd for k in red))
            continue
        ws = sum(w[k] for k in m)
        mean = sum(w[k] * cal(k) for k in m) / np.where(ws > 0, ws, 1)
        n = sum((w[k] > 0).astype(float) for k in m)
        if not eff:
            want = n
        elif isauto:
            ps = sum(w[k] * auto((k[0], 'J' + p[0] * 2)) * auto((k[0], 'J' + p[1] * 2)) for k in m)
            want = np.where(ps > 0, n**2 * abar[p[0]] * abar[p[1]] / np.where(ps > 0, ps, 1), 0)
        else:
            want = abar[p[0]] * abar[p[1]] * ws / (dt * df)
        for k in red:
            c.check('mean', bool(np.allclose(rd[k], mean, rtol=1e-8)))
            c.check('flag', bool(np.array_equal(rf[k], ws == 0)))
            c.check('nsamples', bool(np.allclose(rn[k], want, rtol=1e-8)))
    c.check('inputs', all(np.array_equal(D[k], v) for k, v in copies.items()))
