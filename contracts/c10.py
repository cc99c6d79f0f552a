"""C10: LST-bin averages use only good samples, weighted by their sample counts."""
from types import SimpleNamespace
import warnings
from pyvc.engine import contract, Skip
from hera_cal.lst_stack import averaging, binning, flagging
import numpy as np

LEVEL = 'proof'
FA = ['lst_stack.averaging.get_masked_data', 'lst_stack.averaging.lst_average', 'lst_stack.averaging.compute_std', 'lst_stack.averaging.reduce_lst_bins']
FB = ['lst_stack.binning.SingleBaselineStacker.average_over_nights']
ASSUMPTIONS = ['C10: sample counts are finite; masked arrays follow numpy.ma (values under a mask are kept from the first operand)']


def stack(c, shape, counts=True):
    d = c.array('data', shape, complex, nan=True)
    f = c.array('flags', shape, bool)
    n = c.array('nsamples', shape, float)
    return d, f, n


def reduce_case(c, inpaint, get_std):
    """for every stack shape and contents: mean, flags, counts and days of reduce_lst_bins"""
    nt, nb, nf, npol = c.dim('nt', lo=1), c.dim('nb'), c.dim('nf'), c.dim('np')
    shape = (nt, nb, nf, npol)
    d, f, n = stack(c, shape)
    d0, f0, n0 = c.snapshot(d), c.snapshot(f), c.snapshot(n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = averaging.reduce_lst_bins(data=d, flags=f, nsamples=n, inpainted_mode=inpaint, get_std=get_std)
    out = (nb, nf, npol)
    bad = lambda t, b, q, p: c.or_(c.at(f0, (t, b, q, p)), c.not_(c.finite(c.at(d0, (t, b, q, p)))))
    orig = lambda t, b, q, p: c.or_(bad(t, b, q, p), c.at(n0, (t, b, q, p)) < 0)

    def w(t, b, q, p):
        if not inpaint:
            return c.at(n0, (t, b, q, p))
        s = c.sum(nf, lambda g: c.ite(orig(t, b, g, p), 0.0, c.at(n0, (t, b, g, p))))
        k = c.sum(nf, lambda g: c.ite(orig(t, b, g, p), 0, 1))
        none = c.or_(c.eq(k, 0), c.forall(nf, lambda g: orig(t, b, g, p)))
        if not c.symbolic:
            return 0.0 if none else s / k
        return c.ite(none, s, s / c.ite(none, 1, k))
    use = bad if inpaint else orig
    for nm in ('data', 'flags', 'nsamples', 'days_binned'):
        c.shape_is(nm + '.shape', o[nm], out)
    for (b, q, p) in c.indices(*out):
        flagged = c.forall(nt, lambda t: use(t, b, q, p))
        c.check('flags', c.iff(c.at(o['flags'], (b, q, p)), flagged))
        days = c.sum(nt, lambda t: c.ite(orig(t, b, q, p), 0, 1))
        c.check('days', c.eq(c.at(o['days_binned'], (b, q, p)), days))
        ns = c.sum(nt, lambda t: c.ite(orig(t, b, q, p), 0.0, w(t, b, q, p)))
        c.check('nsamples', c.eq(c.at(o['nsamples'], (b, q, p)), ns))
        num = c.sum(nt, lambda t: c.ite(use(t, b, q, p), 0j, c.at(d0, (t, b, q, p)) * w(t, b, q, p)))
        den = c.sum(nt, lambda t: c.ite(use(t, b, q, p), 0.0, w(t, b, q, p)))
        ok = c.and_(c.not_(flagged), den > 0)
        if c.symbolic:
            c.check('mean', c.implies(ok, c.eq(c.at(o['data'], (b, q, p)), num / c.ite(ok, den, 1.0))))
        elif ok:
            c.check('mean', c.eq(c.at(o['data'], (b, q, p)), num / den))
        if not c.symbolic and get_std and ns > 0:
            m = c.at(o['data'], (b, q, p))
            good = [t for t in range(nt) if not orig(t, b, q, p)]
            ww = np.array([w(t, b, q, p) for t in good])
            x = np.array([d0[t, b, q, p] for t in good]) - m
            want = np.sqrt((x.real ** 2 * ww).sum() / ww.sum()) + 1j * np.sqrt((x.imag ** 2 * ww).sum() / ww.sum())
            c.check('std', np.isclose(c.at(o['std'], (b, q, p)), want, rtol=1e-6, atol=1e-9))
    for nm, a, b in (('data', d, d0), ('flags', f, f0), ('nsamples', n, n0)):
        c.check_same('frame.' + nm, a, b)


for _inp in (False, True):
    for _std in (False, True):
        @contract('C10', f'reduce_{"inpainted" if _inp else "flagged"}_{"std" if _std else "nostd"}', FA, mode='proof', trials=60, timeout=120)
        def reduce_(c, _inp=_inp, _std=_std):
            reduce_case(c, _inp, _std)


@contract('C10', 'reduce_empty', FA, mode='proof', trials=10, timeout=30)
def reduce_empty(c):
    """no integrations in the bin: flagged, no samples, no days"""
    nb, nf, npol = c.dim('nb'), c.dim('nf'), c.dim('np')
    d = c.array('data', (0, nb, nf, npol), complex)
    o = averaging.reduce_lst_bins(data=d, flags=c.array('flags', (0, nb, nf, npol), bool), nsamples=c.array('nsamples', (0, nb, nf, npol), float),
                                  inpainted_mode=c.choice('inpainted', [True, False]))
    c.check_array('flags', o['flags'], (nb, nf, npol), lambda i: True)
    c.check_array('nsamples', o['nsamples'], (nb, nf, npol), lambda i: 0.0)
    c.check_array('days', o['days_binned'], (nb, nf, npol), lambda i: 0.0)


def where_nan(f, d):
    from pyvc import npshim
    return npshim.SHIM.where(f, np.nan, d)


def nights_case(c, sizes, wip):
    """average_over_nights of a stacker with the given number of LST bins"""
    nf = c.dim('nf', lo=1)
    npol = 2
    nts = [0 if s == 0 else c.dim(f'nt{q}', lo=1) for q, s in enumerate(sizes)]
    D, F, N, W = [], [], [], []
    for q, nt in enumerate(nts):
        sh = (nt, nf, npol)
        D.append(c.array(f'd{q}', sh, complex))
        F.append(c.array(f'f{q}', sh, bool))
        N.append(c.array(f'n{q}', sh, float, lo=0, nonzero=True))
        W.append(c.array(f'w{q}', sh, bool) if wip else None)
    if c.symbolic:
        for n, nt in zip(N, nts):
            if nt != 0:
                c.assume(c.forall(nt, lambda t: c.forall(nf, lambda q: c.and_(*[c.at(n, (t, q, p)) > 0 for p in range(npol)]))))
    if c.choice('nan-under-flags', [False, True]):
        for q in range(len(D)):
            D[q] = np.where(F[q], np.nan, D[q]) if not c.symbolic else where_nan(F[q], D[q])
    snaps = [[None if x is None else c.snapshot(x) for x in L] for L in (D, F, N, W)]
    D0, F0, N0, W0 = snaps
    hd = SimpleNamespace(freqs=c.array('freqs', (nf,), float), pols=['ee', 'nn'])
    s = binning.SingleBaselineStacker(bin_lst=c.array('bin_lst', (len(sizes),), float), data=D, flags=F, nsamples=N, where_inpainted=W,
                                      times_in_bins=[], lsts_in_bins=[], hd=hd)
    count = c.choice('inpainted_are_samples', [False, True])
    return s, nts, nf, npol, snaps, count


for _wip in (False, True):
    @contract('C10', f'nights_{"inpainted" if _wip else "plain"}', FB, mode='proof', trials=40, timeout=120,
              bound=None)
    def nights(c, _wip=_wip):
        """one bin with any number of nights and one without any, any number of channels"""
        s, nts, nf, npol, (D0, F0, N0, W0), count = nights_case(c, [1, 0], _wip)
        c.use_witness()
        try:
            d, f, n = s.average_over_nights(**({'inpainted_data_are_samples': True} if count else {}))
        except ZeroDivisionError:
            c.check('no-zero-weights', False)
            return
        for (q, p) in c.indices(nf, npol):
            i = (0, q, p)
            nt = nts[0]
            fl = c.forall(nt, lambda t: c.at(F0[0], (t, q, p)))
            c.check('flags', c.iff(c.at(f, i), fl))
            skip = lambda t: c.or_(c.at(F0[0], (t, q, p)), False if (not _wip or count) else c.at(W0[0], (t, q, p)))
            c.check('nsamples', c.eq(c.at(n, i), c.sum(nt, lambda t: c.ite(skip(t), 0.0, c.at(N0[0], (t, q, p))))))
            num = c.sum(nt, lambda t: c.ite(c.at(F0[0], (t, q, p)), 0j, c.at(D0[0], (t, q, p)) * c.at(N0[0], (t, q, p))))
            den = c.sum(nt, lambda t: c.ite(c.at(F0[0], (t, q, p)), 0.0, c.at(N0[0], (t, q, p))))
            if not bool(fl):
                c.check('mean', c.eq(c.at(d, i), num / den))
            c.check('empty-bin', c.and_(c.at(f, (1, q, p)), c.eq(c.at(n, (1, q, p)), 0), c.eq(c.at(d, (1, q, p)), 0)))
        for nm, L, L0 in (('data', s.data, D0), ('flags', s.flags, F0), ('nsamples', s.nsamples, N0), ('where_inpainted', s.where_inpainted, W0)):
            for a, b in zip(L, L0):
                if b is not None:
                    c.check_same('frame.' + nm, a, b)


@contract('C10', 'threshold', ['lst_stack.flagging.threshold_flags'], mode='proof', trials=60, timeout=60)
def threshold(c):
    """flags are added exactly where the flagged fraction over nights exceeds the threshold"""
    shape = (c.dim('nt', lo=1), c.dim('nb', lo=1), c.dim('nf', lo=1))
    f = c.array('flags', shape, bool)
    f0 = c.snapshot(f)
    th = c.real('thresh', 0, 1)
    inplace = c.choice('inplace', [False, True])
    o = flagging.threshold_flags(f, inplace=inplace, flag_thresh=th)
    nt = shape[0]
    c.check_array('flags', o, shape, lambda i: c.or_(c.at(f0, i), c.sum(nt, lambda t: c.ite(c.at(f0, (t,) + tuple(i[1:])), 1, 0)) / nt > th))
    if inplace:
        c.check_same('inplace', f, o)
    else:
        c.check_same('frame', f, f0)


@contract('C10', 'permute_nights', FA, mode='concrete', bound='random stacks up to 5 nights x 2 baselines x 4 channels x 2 polarizations', trials=60, timeout=60)
def permute_nights(c):
    """values under flags and the order of nights do not influence any output"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    sh = (int(rng.integers(1, 6)), int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.integers(1, 3)))
    d = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    f = rng.random(sh) < rng.choice([.2, .6])
    n = rng.integers(1, 5, size=sh) * np.where(rng.random(sh) < .3, -1., 1.)
    kw = dict(inpainted_mode=bool(rng.integers(2)), get_mad=bool(rng.integers(2)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = averaging.reduce_lst_bins(data=d.copy(), flags=f.copy(), nsamples=n.copy(), **kw)
        perm = rng.permutation(sh[0])
        junk = np.where(f, rng.choice([np.nan, np.inf, 1e30, -7.]) + 0j, d)
        jn = np.where(f, -3.0 if rng.integers(2) else 11.0, n)
        b = averaging.reduce_lst_bins(data=junk[perm], flags=f[perm], nsamples=jn[perm], **kw)
        e = averaging.reduce_lst_bins(data=d.copy(), flags=f.copy(), nsamples=n.copy(), get_std=False, **kw)
    good = ~a['flags']
    for k in ('flags', 'nsamples', 'days_binned'):
        c.check('same.' + k, np.allclose(a[k], b[k], rtol=1e-10))
        c.check('std-independent.' + k, np.allclose(a[k], e[k], rtol=1e-10))
    c.check('same.data', np.allclose(a['data'][good], b['data'][good], rtol=1e-9, equal_nan=True))
    c.check('std-independent.data', np.allclose(a['data'][good], e['data'][good], rtol=1e-9, equal_nan=True))
    has = good & (a['nsamples'] > 0)
    c.check('same.std', np.allclose(a['std'][has], b['std'][has], rtol=1e-9))
    if kw['get_mad']:
        use = f if kw['inpainted_mode'] else (f | (n < 0))
        for i in np.ndindex(*sh[1:]):
            x = d[(slice(None),) + i][~use[(slice(None),) + i]]
            if len(x):
                med = np.median(x.real) + 1j * np.median(x.imag)
                if len(x) % 2:
                    # (an even number of complex samples has no unique median)
                    srt = np.sort_complex(x)[len(x) // 2]
                    c.check('median', np.isclose(np.asarray(a['median'])[i], srt))
                med = np.asarray(a['median'])[i]
                mad = 1.482579 * (np.median(np.abs(x.real - med.real)) + 1j * np.median(np.abs(x.imag - med.imag)))
                c.check('mad', np.isclose(np.asarray(a['mad'])[i], mad))
                c.check('same.mad', np.isclose(np.asarray(b['mad'])[i], mad))


@contract('C10', 'sigma_clip', ['lst_stack.flagging.sigma_clip'], mode='concrete', bound='random arrays up to 8 x 3 x 5, all clip types, bands and scales', trials=120, timeout=60)
def sigma_clip(c):
    """a datum is clipped iff its (band-averaged) deviation from the median of the unmasked data, over the scale, exceeds the threshold"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    sh = (int(rng.integers(1, 9)), int(rng.integers(1, 4)), int(rng.integers(2, 6)))
    x = rng.normal(size=sh) * np.where(rng.random(sh) < .1, 10, 1)
    m = rng.random(sh) < rng.choice([0, .3])
    kind = ['direct', 'mean', 'median'][int(rng.integers(3))]
    th = float(rng.uniform(.5, 3))
    minN = int(rng.integers(1, 6))
    how = int(rng.integers(3))
    scale = [None, rng.uniform(.5, 2, size=sh[1:]), rng.uniform(.5, 2, size=sh)][how]
    bands = [None, [(0, 1), (1, sh[2])], [(1, 2)]][int(rng.integers(3))]
    masked = bool(rng.integers(2))
    arr = np.ma.MaskedArray(x.copy(), mask=m.copy()) if masked else np.where(m, np.nan, x)
    keep = arr.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = flagging.sigma_clip(arr, threshold=th, min_N=minN, median_axis=0, threshold_axis=2, clip_type=kind, flag_bands=bands, scale=scale)
    c.check('shape', o.shape == sh and o.dtype == bool)
    c.check('frame', np.array_equal(np.ma.getdata(arr), np.ma.getdata(keep), equal_nan=True) and np.array_equal(np.ma.getmaskarray(arr), np.ma.getmaskarray(keep)))
    if sh[0] < minN:
        c.check('too-few', not o.any())
        return
    z = np.full(sh, np.nan)
    for b in range(sh[1]):
        for q in range(sh[2]):
            good = ~m[:, b, q]
            if not good.any():
                continue
            med = np.median(x[good, b, q])
            s = scale[b, q] if how == 1 else scale[:, b, q] if how == 2 else 1.482579 * np.median(np.abs(x[good, b, q] - med))
            with np.errstate(all='ignore'):
                z[:, b, q] = np.where(good & (s > 0), np.abs(x[:, b, q] - med) / s, np.nan)
    inband = np.zeros(sh[2], bool)
    for lo, hi in (bands or [(0, sh[2])]):
        inband[lo:hi] = True
        for t in range(sh[0]):
            for b in range(sh[1]):
                v = z[t, b, lo:hi]
                if kind == 'direct':
                    for q in range(lo, hi):
                        if np.isfinite(z[t, b, q]):
                            c.check('clip', bool(o[t, b, q]) == bool(z[t, b, q] > th))
                elif np.isfinite(v).any():
                    want = bool((np.nanmean(v) if kind == 'mean' else np.nanmedian(v)) > th)
                    c.check('clip-band', np.all(o[t, b, lo:hi] == want))
    c.check('outside-bands', not o[:, :, ~inband].any())


@contract('C10', 'inpainted_mean', ['lst_stack.averaging._get_inpainted_mean'], mode='bounded', bound='up to 3 nights, any number of channels', trials=60, timeout=90)
def inpainted_mean(c):
    """per-night models replace flagged samples; entirely flagged nights and post-inpaint flags take no part"""
    nn = c.bdim('nights', [1, 2, 3])
    nf = c.dim('nf', lo=1)
    sh = (nn, nf)
    d, m = c.array('d', sh, complex), c.array('model', sh, complex)
    f, post = c.array('f', sh, bool), c.array('post', sh, bool)
    n = c.array('n', sh, float, lo=0)
    af = c.array('avg', (nf,), bool)
    use_post = c.choice('use_post', [True, False])
    if c.choice('junk', [False, True]):
        d = np.where(f, np.nan, d) if not c.symbolic else where_nan(f, d)
    snaps = [c.snapshot(x) for x in (d, n, f, m, af, post)]
    mean, tot = averaging._get_inpainted_mean(d, n, f, m, af, post if use_post else None)
    d0, n0, f0, m0, a0, p0 = snaps
    if bool(c.forall(nf, lambda q: c.at(a0, (q,)))):
        c.check_array('total', tot, (nf,), lambda i: 0.0)
    else:
        dead = [c.forall(nf, lambda q, t=t: c.at(f0, (t, q))) for t in range(nn)]
        w = lambda t, q: c.ite(c.or_(dead[t], c.at(p0, (t, q)) if use_post else False), 0.0, c.at(n0, (t, q)))
        for (q,) in c.indices(nf):
            den, num = 0.0, 0j
            for t in range(nn):
                den = den + w(t, q)
                num = num + w(t, q) * c.ite(c.at(f0, (t, q)), c.at(m0, (t, q)), c.at(d0, (t, q)))
            c.check('total', c.eq(c.at(tot, (q,)), den))
            if bool(den > 0):
                c.check('mean', c.eq(c.at(mean, (q,)), num / den))
    for nm, a, b in zip(('data', 'nsamples', 'flags', 'model', 'avg', 'post'), (d, n, f, m, af, post), snaps):
        c.check_same('frame.' + nm, a, b)
