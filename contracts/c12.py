"""C12: flag bookkeeping is monotone, thresholded as stated and exactly factorized."""
import warnings
import copy
from pyvc.engine import contract, Skip
from pyvc.terms import Unsupported
from contracts.lib import rev, raises, feeds
from hera_cal import flag_utils, smooth_cal
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
ASSUMPTIONS = ['C12: fewer than 90000 channels (numpy.isclose tells n-1 from n only below 1e5)',
               'C12: pyuvdata.utils.get_lst_for_time is an arbitrary function of the times (the real one at run time)']

LAYOUTS = [[(0, 1, 'ee')], [(0, 1, 'ee'), (0, 2, 'ee'), (1, 2, 'ee')], [(0, 0, 'ee'), (0, 1, 'ee')], [(0, 1, 'en'), (1, 0, 'ee'), (0, 0, 'nn')],
           [(0, 0, 'ee'), (1, 1, 'ee'), (0, 1, 'ee'), (2, 1, 'ee')], [(0, 0, 'en'), (0, 1, 'ne')]]


@contract('C12', 'synthesize', ['flag_utils.synthesize_ant_flags'], mode='bounded', bound='containers of up to 4 baselines (8 at run time), any number of times and channels, any threshold', trials=120, timeout=150)
def synthesize(c):
    """an antenna is flagged where the stated fraction of its baselines to other live antennas is; all-flagged antennas stay flagged"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    if c.symbolic or c.choice('listed', [True, False]):
        keys = c.choice('layout', LAYOUTS)
    else:
        rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
        keys = []
        while len(keys) < 8:
            k = (int(rng.integers(4)), int(rng.integers(4)), str(rng.choice(['ee', 'nn', 'en', 'ne'])))
            if k not in keys and rev(k) not in keys:
                keys.append(k)
    fl = {}
    for q, k in enumerate(keys):
        v = c.array(f'f{q}', (nt, nf), bool)
        if not c.symbolic and c.choice(f'dead{q}', [False, False, False, True]):
            v[:] = True
        fl[k] = v
    snap = {k: c.snapshot(v) for k, v in fl.items()}
    th = c.real('threshold', lo=0, hi=1)
    if not c.symbolic and c.choice('round', [True, False]):
        th = c.choice('threshold-frac', [0.0, 0.25, 0.3, 0.5, 1.0])
    out = flag_utils.synthesize_ant_flags(DataContainer(dict(fl)), threshold=th)
    ants = []
    for k in keys:
        for a in feeds(k):
            if a not in ants:
                ants.append(a)
    c.check('keys', set(out) == set(ants) and len(out) == len(ants))
    whole = lambda k: c.forall(nt, lambda t: c.forall(nf, lambda f: c.at(snap[k], (t, f))))
    dead = {a: bool(c.and_(*[whole(k) for k in keys if a in feeds(k)])) for a in ants}
    for a in ants:
        uses = [(k, feeds(k).count(a)) for k in keys if a in feeds(k) and not any(dead[b] for b in feeds(k))]
        n = sum(m for _, m in uses)

        def spec(idx):
            if dead[a]:
                return True
            if n == 0:
                return False
            tot = 0
            for k, m in uses:
                tot = tot + c.ite(c.at(snap[k], idx), m, 0)
            full = c.eq(tot, n)
            if c.symbolic:
                eps = 2e-5   # a threshold numerically indistinguishable from 1 means "all flagged"
                return c.or_(tot > th * n, c.and_(full, th >= 1 - 1e-6))
            return tot / n > th or (full and th >= 1 - 1e-6)
        c.check_array('flags', out[a], (nt, nf), spec)
    for k in keys:
        c.check_same('frame', fl[k], snap[k])


@contract('C12', 'synthesize_args', ['flag_utils.synthesize_ant_flags'], mode='concrete', bound='the documented argument errors', trials=5, timeout=30)
def synthesize_args(c):
    f = DataContainer({(0, 1, 'ee'): np.zeros((1, 2), bool)})
    c.check('threshold-high', raises(AssertionError, lambda: flag_utils.synthesize_ant_flags(f, threshold=1.1)))
    c.check('threshold-low', raises(AssertionError, lambda: flag_utils.synthesize_ant_flags(f, threshold=-.1)))
    c.check('type', raises(AssertionError, lambda: flag_utils.synthesize_ant_flags({(0, 1, 'ee'): np.zeros((1, 2), bool)})))


def table(c, name, a, W):
    """a small boolean array agrees with a table of conditions"""
    c.shape_is(name + '.shape', a, (len(W), len(W[0])))
    c.check(name, c.and_(*[c.iff(c.at(a, (t, f)), x) for t, r in enumerate(W) for f, x in enumerate(r)]))


def factor_spec(c, F, nt, nf, spws, th):
    """documented procedure on a table of booleans; forks when symbolic"""
    for s1, s2 in spws:
        live = [t for t in range(nt) if not bool(c.and_(*[F[t][f] for f in range(nf)]))]
        over = []
        for f in range(s1, min(s2, nf)):
            n = 0
            for t in live:
                n = n + c.ite(F[t][f], 1, 0)
            if live and bool(n > th * len(live)):
                over.append(f)
        left = [c.or_(*[F[t][f] for f in range(s1, min(s2, nf)) if f not in over]) if len(over) < min(s2, nf) - s1 else False for t in range(nt)]
        F = [[c.or_(F[t][f], left[t], f in over) for f in range(nf)] for t in range(nt)]
    return F


@contract('C12', 'factorize', ['flag_utils.factorize_flags'], mode='bounded', bound='waterfalls up to 2 x 3 / 3 x 2, up to two spectral windows, any threshold (up to 6 x 8 at run time)', trials=250, timeout=200, paths=20000)
def factorize(c):
    """channels flagged too often among not wholly flagged integrations are flagged at all times, integrations with leftover flags at all channels"""
    if c.symbolic:
        nt, nf, spws = c.choice('case', [(1, 2, None), (2, 2, None), (2, 3, [(0, 2)]), (2, 3, [(0, 1), (1, 3)]), (3, 2, None), (2, 3, None)])
    else:
        nt, nf = c.int('nt', 1, 6), c.int('nf', 1, 8)
        k = c.int('cut', 0, 8)
        spws = c.choice('spws', [None, [(0, nf)], [(min(k, nf - 1), nf)], [(0, max(1, min(k, nf)))], [(0, min(k, nf)), (min(k, nf), nf)]])
        if any(a >= b for a, b in (spws or [])):
            raise Skip()
    f = c.array('f', (nt, nf), bool)
    th = c.real('th', lo=0, hi=1)
    if not c.symbolic and c.choice('round', [True, False]):
        th = c.choice('thf', [0.0, 0.05, 0.25, 0.5, 0.3, 1.0])
    f0 = c.snapshot(f)
    how = c.choice('how', ['copy', 'inplace'])
    use = c.choice('type', ['array', 'container'])
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if use == 'array':
            o = flag_utils.factorize_flags(f, spw_ranges=spws, time_thresh=th, inplace=how == 'inplace')
        else:
            dc = DataContainer({(0, 1, 'ee'): f})
            od = flag_utils.factorize_flags(dc, spw_ranges=spws, time_thresh=th, inplace=how == 'inplace')
            c.check('container', isinstance(od, DataContainer) and list(od.keys()) == [(0, 1, 'ee')] and ((od is dc) == (how == 'inplace')))
            o = od[(0, 1, 'ee')]
    F = [[c.at(f0, (t, q)) for q in range(nf)] for t in range(nt)]
    W = factor_spec(c, F, nt, nf, spws or [(0, nf)], th)
    table(c, 'flags', o, W)
    if how == 'inplace':
        c.check('inplace', o is f)
    else:
        c.check_same('frame', f, f0)


@contract('C12', 'factorize_args', ['flag_utils.factorize_flags'], mode='concrete', bound='the documented argument errors', trials=3, timeout=30)
def factorize_args(c):
    c.check('spw', raises(ValueError, lambda: flag_utils.factorize_flags(np.zeros((2, 2), bool), spw_ranges=(0, 1))))
    c.check('type', raises(ValueError, lambda: flag_utils.factorize_flags({})))


@contract('C12', 'minimal_slices', ['flag_utils.get_minimal_slices'], mode='bounded', bound='waterfalls up to 2 x 3 with up to one cut (any mask); up to 6 x 8 with 3 cuts at run time', trials=250, timeout=120, paths=20000)
def minimal_slices(c):
    """per band: the smallest time and channel ranges that hold every unflagged pixel, None when there is none"""
    if c.symbolic:
        nt, nf, ncut = c.choice('case', [(1, 1, 0), (2, 3, 0), (2, 3, 1), (3, 2, 0)])
    else:
        nt, nf, ncut = c.int('nt', 1, 6), c.int('nf', 1, 8), c.int('ncut', 0, 3)
    f = c.array('f', (nt, nf), bool)
    if not c.symbolic and c.choice('sparse', [True, False]):
        rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
        f = rng.random((nt, nf)) < .8
    f0 = c.snapshot(f)
    freqs = np.linspace(100., 200., nf) if ncut or c.choice('with-freqs', [False, True]) else None
    cuts = [c.real(f'cut{q}', lo=90, hi=210) for q in range(ncut)]
    if c.symbolic and ncut:
        cuts = [c.choice('cut', [90., 120., 150., 170., 200., 205.])]
    elif ncut and c.choice('on-channel', [False, True]):
        cuts[0] = float(freqs[c.int('chan', 0, nf - 1)])
    ts, bs = flag_utils.get_minimal_slices(f, freqs=freqs, freq_cuts=cuts)
    edges = [-np.inf] + sorted(cuts) + [np.inf]
    c.check('lengths', len(ts) == ncut + 1 and len(bs) == ncut + 1)
    fr = np.arange(nf) if freqs is None else freqs
    good = [[not bool(c.at(f0, (t, q))) for q in range(nf)] for t in range(nt)]
    for b in range(ncut + 1):
        inb = [q for q in range(nf) if ncut == 0 or edges[b] < fr[q] < edges[b + 1]]
        ch = [q for q in inb if any(good[t][q] for t in range(nt))]
        if not ch:
            c.check('none', ts[b] is None and bs[b] is None)
            continue
        c.check('band', bs[b] is not None and bs[b].start == min(ch) and bs[b].stop == max(ch) + 1 and bs[b].step in (None, 1))
        tt = [t for t in range(nt) if any(good[t][q] for q in range(min(ch), max(ch) + 1))]
        c.check('time', ts[b] is not None and ts[b].start == min(tt) and ts[b].stop == max(tt) + 1 and ts[b].step in (None, 1))
    c.check_same('frame', f, f0)


def dist_case(c, a):
    a0 = a.copy()
    o = flag_utils.distance_to_nearest_nonzero(a)
    c.check('shape', o.shape == a0.shape)
    c.check('frame', np.array_equal(a, a0))
    ok = True
    for i in np.ndindex(*a0.shape):
        nz = [k for k in range(a0.shape[-1]) if a0[i[:-1] + (k,)] != 0]
        ok = ok and o[i] == (min(abs(k - i[-1]) for k in nz) if nz else np.inf)
    c.check('distance', bool(ok))


@contract('C12', 'distance', ['flag_utils.distance_to_nearest_nonzero'], mode='bounded', bound='every mask of up to 7 entries', trials=5, timeout=60)
def distance(c):
    L = c.choice('L', [1, 2, 3, 5, 7])
    dist_case(c, np.array([c.choice(f'b{q}', [False, True]) for q in range(L)], dtype=bool))


@contract('C12', 'distance_random', ['flag_utils.distance_to_nearest_nonzero'], mode='concrete', bound='random arrays of 1 to 3 dimensions, last axis up to 9, bool, integer or float', trials=300, timeout=60)
def distance_random(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nd = c.choice('ndim', [1, 2, 3])
    L = c.int('L', 1, 9)
    sh = tuple(int(x) for x in rng.integers(1, 4, nd - 1)) + (L,)
    a = (rng.random(sh) < c.choice('density', [0.0, .1, .3, .8])) * rng.choice([1.0, -2.0, .5])
    kind = c.choice('dtype', ['f', 'b', 'i'])
    dist_case(c, a if kind == 'f' else (a != 0) if kind == 'b' else (a * 2).astype(int))


def bc_spec(c, A, nt, nf, fth, tth):
    """documented iteration: channels first, then times, until nothing is added; forks when symbolic"""
    A = [list(map(bool, r)) for r in A]
    while True:
        n0 = sum(map(sum, A))
        if n0 == 0:
            return A
        live = [t for t in range(nt) if not all(A[t])]
        if live:
            over = [f for f in range(nf) if bool(sum(A[t][f] for t in live) > fth * len(live))] if c.symbolic else \
                   [f for f in range(nf) if sum(A[t][f] for t in live) / len(live) > fth]
            for f in over:
                for t in range(nt):
                    A[t][f] = True
        live = [f for f in range(nf) if not all(A[t][f] for t in range(nt))]
        if live:
            over = [t for t in range(nt) if bool(sum(A[t][f] for f in live) > tth * len(live))] if c.symbolic else \
                   [t for t in range(nt) if sum(A[t][f] for f in live) / len(live) > tth]
            for t in over:
                A[t] = [True] * nf
        if sum(map(sum, A)) == n0:
            return A


def bcast(c, nt, nf, nant, fl, fth, tth, ath):
    f0 = {a: c.snapshot(v) for a, v in fl.items()}
    arg = dict(fl)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = smooth_cal.flag_threshold_and_broadcast(arg, freq_threshold=fth, time_threshold=tth, ant_threshold=ath)
    c.check('returns', r is None and set(arg) == set(fl))
    A = [[c.and_(*[c.at(f0[a], (t, f)) for a in fl]) for f in range(nf)] for t in range(nt)]
    A = bc_spec(c, A, nt, nf, fth, tth)
    G = {a: [[c.or_(c.at(f0[a], (t, f)), A[t][f]) for f in range(nf)] for t in range(nt)] for a in fl}
    left = {}
    for a in fl:
        n = 0
        for t in range(nt):
            for f in range(nf):
                n = n + c.ite(G[a][t][f], 0, 1)
        left[a] = n
    for a in fl:
        # flagged when fewer than (1 - threshold) times the largest number of unflagged samples is left
        drop = c.or_(*[left[a] < (1 - ath) * left[b] for b in fl])
        table(c, 'flags', arg[a], [[c.or_(x, drop) for x in r] for r in G[a]])
        c.check('inplace', arg[a] is fl[a])


@contract('C12', 'broadcast', ['smooth_cal.flag_threshold_and_broadcast'], mode='bounded', bound='every flag pattern of one antenna up to 2 x 3 / 3 x 2 and of two antennas up to 2 x 2; any value of the varied thresholds (the others at 1)', trials=20, timeout=250, paths=40000)
def broadcast(c):
    na, nt, nf, free = c.choice('case', [(1, 2, 2, 'ft'), (1, 2, 3, 'f'), (1, 3, 2, 't'), (1, 2, 3, 't'), (1, 3, 2, 'f'), (2, 1, 2, 'a'), (2, 2, 1, 'fa'), (2, 2, 2, 'a')])
    fl = {(a, 'Jee'): np.array([[c.choice(f'f{a}.{t}.{f}', [False, True]) for f in range(nf)] for t in range(nt)], dtype=bool) for a in range(na)}
    def th(n):
        if n not in free:
            return 1.0
        t = c.real(n + 'th', lo=0, hi=1)
        for x in (1 / 3, 2 / 3):   # fractions that are not floating point numbers: equality is a matter of rounding
            c.assume(c.or_(t < x - 1e-9, t > x + 1e-9))
        return t
    bcast(c, nt, nf, na, fl, th('f'), th('t'), th('a'))


@contract('C12', 'broadcast_random', ['smooth_cal.flag_threshold_and_broadcast'], mode='concrete', bound='random flags of up to 4 antennas, up to 7 x 8, thresholds', trials=250, timeout=100)
def broadcast_random(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nt, nf, na = c.int('nt', 1, 7), c.int('nf', 1, 8), c.int('na', 1, 4)
    ft, ff = rng.random(nt) < .3, rng.random(nf) < .3
    com = (rng.random((nt, nf)) < c.choice('common', [0.0, .2, .4])) | (rng.random((nt, nf)) < .5) & (ft[:, None] | ff[None, :])
    fl = {(a, str(rng.choice(['Jee', 'Jnn']))): (com | (rng.random((nt, nf)) < rng.choice([0, .3, .9, 1.0]))) for a in range(na)}
    th = lambda: float(rng.choice([0.0, .21, .35, .5, .72, 1.0, rng.random()]))
    bcast(c, nt, nf, na, fl, th(), th(), th())


def blk_mask(c, x, pairs, lo_hi):
    return c.or_(False, *[c.and_(x >= a, x <= b) for a, b in pairs])


@contract('C12', 'freq_blacklist', ['smooth_cal.build_freq_blacklist'], mode='proof', trials=80, timeout=60)
def freq_blacklist(c):
    """exactly the frequencies / channels within (inclusive) bounds"""
    nf = c.dim('nf')
    fr = c.array('freqs', (nf,), float)
    npair, nch = c.choice('npairs', [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1)])
    fb = [(c.real(f'a{q}'), c.real(f'b{q}')) for q in range(npair)]
    cb = [(c.int(f'p{q}', lo=0, hi=30), c.int(f'q{q}', lo=0, hi=30)) for q in range(nch)]
    if npair and not c.symbolic and nf:
        fb = [(float(fr[c.int(f'ia{q}', 0, nf - 1)]), float(fr[c.int(f'ib{q}', 0, nf - 1)])) for q in range(npair)]
        if c.choice('sorted', [True, True, False]):
            fb, cb = [tuple(sorted(x)) for x in fb], [tuple(sorted(x)) for x in cb]
    bad = any(bool(a > b) for a, b in fb + cb)
    fr0 = c.snapshot(fr)
    if bad:
        c.check('order-error', raises(AssertionError, lambda: smooth_cal.build_freq_blacklist(fr, freq_blacklists=fb, chan_blacklists=cb)))
        return
    o = smooth_cal.build_freq_blacklist(fr, freq_blacklists=fb, chan_blacklists=cb)
    c.check_array('mask', o, (nf,), lambda i: c.or_(blk_mask(c, c.at(fr0, i), fb, None), blk_mask(c, i[0], cb, None)))
    c.check('bool', c.is_kind(o, 'b'))
    c.check_same('frame', fr, fr0)


@contract('C12', 'time_blacklist', ['smooth_cal.build_time_blacklist'], mode='proof', trials=80, timeout=90)
def time_blacklist(c):
    """exactly the times within (inclusive) bounds or whose LST lies within bounds (crossing 24h when the first is larger)"""
    nt = c.dim('nt', lo=1)
    ntb, nlb = c.choice('npairs', [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1)])
    if c.symbolic:
        times = c.array('times', (nt,), float)
    else:
        times = 2459000.0 + np.linspace(0, 1.5, nt) * c.choice('span', [.1, 1.0])
    tb = [(c.real(f'a{q}'), c.real(f'b{q}')) for q in range(ntb)]
    lb = [(c.real(f'p{q}', lo=0, hi=24), c.real(f'q{q}', lo=0, hi=24)) for q in range(nlb)]
    if not c.symbolic:
        tb = [tuple(sorted([float(times[c.int(f'ia{q}', 0, nt - 1)]), float(times[c.int(f'ib{q}', 0, nt - 1)])])) for q in range(ntb)]
    for a, b in tb:
        c.assume(a <= b)
    for a, b in lb:
        c.assume(c.not_(c.eq(a, b)))
    loc = c.choice('location', ['given', 'HERA'])
    kw = dict(lat_lon_alt_degrees=np.array([-30.7, 21.4, 1000.0])) if loc == 'given' else {}
    real = smooth_cal.pyuvdata.utils.get_lst_for_time
    seen = []
    if c.symbolic:
        lst = c.array('lst', (nt,), float, lo=0, hi=7)

        def stub(t, **k):
            seen.append((t, k))
            return lst
        smooth_cal.pyuvdata.utils.get_lst_for_time = stub
    else:
        lat, lon, alt = (-30.7, 21.4, 1000.0) if loc == 'given' else (-30.72152612068925, 21.42830382686301, 1051.6900000013411)
        lst = real(times, latitude=lat, longitude=lon, altitude=alt)
        if lb and loc == 'given' and c.choice('on-sample', [True, False]):   # bounds that are the LST of an integration
            h = lst * 12 / np.pi
            lb = [(a, float(h[c.int(f'il{q}', 0, nt - 1)])) if c.choice(f'side{q}', [True, False]) else (float(h[c.int(f'il{q}', 0, nt - 1)]), b) for q, (a, b) in enumerate(lb)]
    try:
        o = smooth_cal.build_time_blacklist(times, time_blacklists=tb, lst_blacklists=lb, **kw)
    finally:
        smooth_cal.pyuvdata.utils.get_lst_for_time = real
    if c.symbolic and nlb:
        if not seen:
            raise Unsupported('LSTs not obtained from get_lst_for_time')
        c.check('lst-of-times', all(s[0] is times for s in seen))

    def spec(i):
        r = blk_mask(c, c.at(times, i), tb, None)
        if nlb:
            h = c.at(lst, i) * 12 / np.pi
            for a, b in lb:
                r = c.or_(r, c.ite(a < b, c.and_(h >= a, h <= b), c.or_(h >= a, h <= b)))
        return r
    c.check_array('mask', o, (nt,), spec)


@contract('C12', 'blacklist_args', ['smooth_cal.build_time_blacklist', 'smooth_cal.build_freq_blacklist'], mode='concrete', bound='the documented argument errors', trials=3, timeout=30)
def blacklist_args(c):
    t = np.linspace(2459000, 2459001, 4)
    c.check('order', raises(AssertionError, lambda: smooth_cal.build_time_blacklist(t, time_blacklists=[(2, 1)])))
    c.check('pairs', raises(AssertionError, lambda: smooth_cal.build_time_blacklist(t, time_blacklists=[1, 2])))
    c.check('lst-pairs', raises(AssertionError, lambda: smooth_cal.build_time_blacklist(t, lst_blacklists=[1, 2])))
    c.check('telescope', raises(NotImplementedError, lambda: smooth_cal.build_time_blacklist(t, lst_blacklists=[(1, 2)], telescope_name='PAPER')))


@contract('C12', 'weights', ['smooth_cal._build_wgts_grid'], mode='proof', trials=80, timeout=60)
def weights(c):
    """0 where flagged, the blacklist weight where only blacklisted, 1 elsewhere"""
    nt, nf = c.dim('nt'), c.dim('nf')
    f = c.array('f', (nt, nf), bool)
    tb = c.array('tb', (nt,), bool) if c.choice('time', [True, False]) else None
    fb = c.array('fb', (nf,), bool) if c.choice('freq', [True, False]) else None
    wb = c.array('wb', (nt, nf), bool) if c.choice('waterfall', [True, False]) else None
    w = c.real('w')
    ins = [(x, c.snapshot(x)) for x in (f, tb, fb, wb) if x is not None]
    o = smooth_cal._build_wgts_grid(f, time_blacklist=tb, freq_blacklist=fb, waterfall_blacklist=wb, blacklist_wgt=w)

    def spec(i):
        b = c.or_(False, *([c.at(tb, (i[0],))] if tb is not None else []), *([c.at(fb, (i[1],))] if fb is not None else []), *([c.at(wb, i)] if wb is not None else []))
        return c.ite(c.at(f, i), 0.0, c.ite(b, w, 1.0))
    c.check_array('weights', o, (nt, nf), spec)
    for x, x0 in ins:
        c.check_same('frame', x, x0)


@contract('C12', 'to_antflags', ['smooth_cal._to_antflags', 'flag_utils.synthesize_ant_flags'], mode='proof', trials=60, timeout=60)
def to_antflags(c):
    """per-polarization flags go to every antenna of that polarization, per-antenna flags are kept, per-baseline flags are synthesized"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    sh = (nt, nf)
    ants = [(0, 'Jee'), (1, 'Jee'), (1, 'Jnn')]
    how = c.choice('how', ['pol', 'pol1', 'ant', 'bl'])
    a, b = c.array('a', sh, bool), c.array('b', sh, bool)
    if how in ('pol', 'pol1'):
        fl = {'Jee': a, 'Jnn': b} if how == 'pol' else {'Jee': a}
        o = smooth_cal._to_antflags(fl, ants, 0.0)
        c.check('keys', set(o) == {x for x in ants if x[1] in fl})
        for x in o:
            c.check_same('values', o[x], fl[x[1]])
        xs = list(o.values())
        c.check('separate', all(xs[p] is not xs[q] for p in range(len(xs)) for q in range(p)) and all(x is not a and x is not b for x in xs))
        snap = c.snapshot(xs[1])
        xs[0][...] = True
        c.check_same('separate-values', xs[1], snap)
    elif how == 'ant':
        fl = {(0, 'Jee'): a, (1, 'Jnn'): b}
        o = smooth_cal._to_antflags(fl, ants, 0.0)
        c.check('keys', set(o) == set(fl))
        c.check_same('values', o[(0, 'Jee')], a)
        c.check_same('values', o[(1, 'Jnn')], b)
    else:
        th = c.choice('th', [0.0, 0.5, 1.0])
        fl = DataContainer({(0, 1, 'ee'): a, (0, 2, 'ee'): b})
        o = smooth_cal._to_antflags(fl, ants, th)
        w = flag_utils.synthesize_ant_flags(DataContainer({(0, 1, 'ee'): a.copy(), (0, 2, 'ee'): b.copy()}), threshold=th)
        c.check('keys', set(o) == set(w))
        for x in w:
            c.check_same('values', o[x], w[x])


@contract('C12', 'finite_gains', ['smooth_cal._check_finite_gains'], mode='proof', trials=80, timeout=60)
def finite_gains(c):
    """unflagged non-finite gains are refused; flagged ones become 1, everything else is untouched"""
    nt, nf = c.dim('nt'), c.dim('nf')
    g = c.array('g', (nt, nf), complex, nan=True)
    f = c.array('f', (nt, nf), bool)
    if not c.symbolic and c.choice('cover', [True, False]):
        f = f | ~np.isfinite(g)
    g0, f0 = c.snapshot(g), c.snapshot(f)
    bad = bool(c.exists(nt, lambda t: c.exists(nf, lambda q: c.and_(c.not_(c.finite(c.at(g0, (t, q)))), c.not_(c.at(f0, (t, q)))))))
    if bad:
        c.check('refused', raises(ValueError, lambda: smooth_cal._check_finite_gains(g, f)))
        return
    smooth_cal._check_finite_gains(g, f)
    for i in c.indices(nt, nf):
        x = c.at(g0, i)
        fin = bool(c.finite(x))
        c.check('gain', c.eq(c.at(g, i), x) if fin else c.eq(c.at(g, i), 1.0))
    c.check_same('frame', f, f0)


@contract('C12', 'smoother_grid', ['smooth_cal.CalibrationSmoother.__init__', 'smooth_cal.CalibrationSmoother.check_consistency', 'smooth_cal.CalibrationSmoother.set_waterfall_blacklist'], mode='concrete',
          bound='random sets of up to 3 calibration files of up to 4 integrations, with gaps, jitter and flag files (file reads replaced by in-memory data)', trials=60, timeout=100)
def smoother_grid(c):
    """every integration's gains and flags land in its own time slot, other slots are flagged; external flags only add; thresholds go where they belong"""
    from types import SimpleNamespace
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    ignore = c.choice('ignore', [False, True])
    dt, t0 = 1e-4, 2459000.123
    nf = int(rng.integers(2, 6))
    freqs = np.linspace(1e8, 1.1e8, nf)
    ants = [(0, 'Jee'), (1, 'Jee'), (0, 'Jnn'), (5, 'Jnn')][:c.choice('nants', [1, 2, 4])]
    nfile = c.int('nfiles', 1, 3)
    files, slots, k = {}, {}, 0
    jit = c.choice('jitter', [0.0, .02])
    for q in range(nfile):
        n = int(rng.integers(3, 5))
        sl = np.arange(k, k + n)
        k += n + int(rng.choice([0, 0, 2]))
        tm = t0 + dt * (sl + jit * (rng.random(n) - .5) * (sl > 0))
        here = [a for a in ants if rng.random() < .85] or ants[:1]
        g = {a: rng.normal(size=(n, nf)) + 1j * rng.normal(size=(n, nf)) for a in here}
        f = {a: rng.random((n, nf)) < .3 for a in here}
        if rng.random() < .3 and not ignore:
            g[here[0]][0, 0], f[here[0]][0, 0] = np.nan, True
        files[f'c{q}'] = (g, f, tm)
        slots[f'c{q}'] = sl
    ffs, fdat = [], {}
    if c.choice('flag-files', [True, False]):
        for q in range(nfile):
            tm = files[f'c{q}'][2]
            fdat[f'f{q}'] = ({p: rng.random((len(tm), nf)) < .2 for p in ('Jee', 'Jnn')} if rng.random() < .5 else
                             {a: rng.random((len(tm), nf)) < .2 for a in ants}, {'freqs': freqs, 'times': tm + .1 * dt * (tm > t0 + dt / 2)})
            ffs.append(f'f{q}')
    order = list(files)
    if c.choice('shuffle', [False, True]):
        order = [order[x] for x in rng.permutation(nfile)]
    th = dict(freq_threshold=float(rng.choice([1.0, .41])), time_threshold=float(rng.choice([1.0, .61])), ant_threshold=float(rng.choice([1.0, .31])))
    bl = dict(time_blacklists=[(t0 + .5 * dt, t0 + 2.2 * dt)], chan_blacklists=[(0, 1)], freq_blacklists=[(1.04e8, 1.2e8)])
    wb = {ants[0]: None}

    class FakeCal:
        def __init__(self, name):
            self.g, self.f, self.times = (copy.deepcopy(x) for x in files[name])
            self.freqs, self.telescope = freqs, SimpleNamespace(name='HERA')

        def read(self):
            return self.g, self.f, {}, {}
    keep = smooth_cal.io
    smooth_cal.io = SimpleNamespace(HERACal=FakeCal, load_flags=lambda ff, filetype=None, return_meta=False: copy.deepcopy(fdat[ff]))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            cs = smooth_cal.CalibrationSmoother(order, flag_file_list=ffs, ignore_calflags=ignore, blacklist_wgt=.25, **th, **bl)
    finally:
        smooth_cal.io = keep
    N = max(int(s.max()) for s in slots.values()) + 1
    present = sorted({a for g, _, _ in files.values() for a in g})
    c.check('ants', sorted(cs.gain_grids) == present and sorted(cs.flag_grids) == present)
    c.check('ntimes', len(cs.time_grid) == N)
    G = {a: np.ones((N, nf), complex) for a in present}
    F = {a: np.ones((N, nf), bool) for a in present}
    for nm, (g, f, _) in files.items():
        for a in g:
            for r, t in enumerate(slots[nm]):
                G[a][t] = g[a][r]
                F[a][t] = False if ignore else f[a][r]
    for q, ff in enumerate(ffs):
        for a in present:
            d = fdat[ff][0].get(a, fdat[ff][0].get(a[1]))
            for r, t in enumerate(slots[f'c{q}']):
                F[a][t] |= d[r]
    bad = {a: ~np.isfinite(G[a]) for a in present}
    for a in present:
        G[a][bad[a]] = 1.0
    A = bc_spec(c, np.logical_and.reduce([F[a] for a in present]), N, nf, th['freq_threshold'], th['time_threshold'])
    left = {}
    for a in present:
        F[a] = F[a] | np.array(A)
        left[a] = int((~F[a]).sum())
    for a in present:
        if left[a] < (1 - th['ant_threshold']) * max(left.values()):
            F[a][:] = True
        c.check('gains', np.array_equal(cs.gain_grids[a], G[a]))
        c.check('flags', np.array_equal(cs.flag_grids[a], F[a]))
    tg = cs.time_grid
    c.check('time-blacklist', np.array_equal(cs.time_blacklist, (tg >= t0 + .5 * dt) & (tg <= t0 + 2.2 * dt)))
    c.check('freq-blacklist', np.array_equal(cs.freq_blacklist, (np.arange(nf) <= 1) | (freqs >= 1.04e8)))
    c.check('blacklist-weight', cs.blacklist_wgt == .25)
