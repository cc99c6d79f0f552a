"""C13: rephasing only rotates phases, by the stated angle, in every form."""
import copy
import warnings
from pyvc.engine import contract, Skip
from contracts.lib import raises
from hera_cal import utils, smooth_cal
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
ASSUMPTIONS = ['C13: sin, cos, exp and angle are the mathematical functions (sin^2+cos^2=1, parity, exp(i x)=cos x + i sin x, r exp(i angle)=z)']
CLIGHT = 299792458.0
FR = ['utils.lst_rephase', 'utils.eq2top_m', 'utils.top2eq_m']


def trig(c, x):
    """(cos x, sin x)"""
    if c.symbolic:
        from pyvc import terms as T
        x = T.lift(x)
        return T.s_cos(x), T.s_sin(x)
    return np.cos(x), np.sin(x)


def delay(c, bl, dl, lat):
    """geometric delay between the old zenith, carried by the rotating sky through dl, and the zenith"""
    cl, sl = trig(c, dl)
    cd, sd = trig(c, lat * np.pi / 180)
    s = (-sl * cd, sd * cd * (1 - cl), cd * cd * cl + sd * sd - 1)
    return (bl[0] * s[0] + bl[1] * s[1] + bl[2] * s[2]) / CLIGHT


def factor(c, bl, dl, lat, f):
    return c.expi(-2 * np.pi * f * delay(c, bl, dl, lat))


def close(c, name, x, y):
    if c.symbolic:
        c.check(name, c.eq(x, y))
    else:
        c.check(name, abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-300))


def shifts(c, nt):
    kind = c.choice('dlst', ['scalar', 'array', 'zero'])
    if kind == 'array':
        d = c.array('dl', (nt,), float, lo=-3, hi=3)
        return d, lambda t: c.at(d, (t,))
    d = c.real('dl', lo=-3, hi=3) if kind == 'scalar' else 0.0
    return d, lambda t: d


@contract('C13', 'rephase_array', FR, mode='proof', trials=80, timeout=120)
def rephase_array(c):
    """each sample is multiplied by exp(-2 pi i f tau) of its baseline, frequency and shift"""
    nt, nb, nf = c.dim('nt', lo=1), c.dim('nb', lo=1), c.dim('nf', lo=1)
    pol = c.choice('pols', [False, True])
    shape = (nt, nb, nf) + ((c.dim('np', lo=1),) if pol else ())
    d = c.array('d', shape, complex)
    bls = c.array('bls', (nb, 3), float, lo=-1000, hi=1000)
    fr = c.array('freqs', (nf,), float, lo=1e6, hi=1e9)
    dl, at = shifts(c, nt)
    lat = c.real('lat', lo=-90, hi=90) if c.choice('lat-given', [True] if c.symbolic else [True, False]) else None
    inplace = c.choice('inplace', [True, False])
    d0, b0, f0 = c.snapshot(d), c.snapshot(bls), c.snapshot(fr)
    dl0 = dl.copy() if hasattr(dl, 'shape') and len(dl.shape) else None
    o = utils.lst_rephase(d, bls, fr, dl, inplace=inplace, **({} if lat is None else {'lat': lat}))
    la = -30.721526120689507 if lat is None else lat
    c.check('returns', (o is None) == inplace)
    out = d if inplace else o
    c.shape_is('shape', out, shape)
    for i in c.indices(*shape):
        bl = [c.at(b0, (i[1], q)) for q in range(3)]
        close(c, 'rotated', c.at(out, i), c.at(d0, i) * factor(c, bl, at(i[0]), la, c.at(f0, (i[2],))))
    if not inplace:
        c.check_same('frame.data', d, d0)
    c.check_same('frame.bls', bls, b0)
    c.check_same('frame.freqs', fr, f0)
    if dl0 is not None:
        c.check_same('frame.dlst', dl, dl0)


@contract('C13', 'rephase_unit', FR, mode='proof', trials=60, timeout=120)
def rephase_unit(c):
    """amplitudes are kept; nothing changes for a zero shift or a zero baseline"""
    nt, nb, nf = c.dim('nt', lo=1), c.dim('nb', lo=1), c.dim('nf', lo=1)
    d = c.array('d', (nt, nb, nf), complex)
    zero = c.choice('case', ['any', 'shift', 'baseline'])
    bls = np.zeros((1, 3)) if zero == 'baseline' else c.array('bls', (nb, 3), float, lo=-1000, hi=1000)
    if zero == 'baseline':
        c.assume(c.eq(nb, 1))
        nb = 1
        d = c.array('d1', (nt, 1, nf), complex)
    fr = c.array('freqs', (nf,), float, lo=1e6, hi=1e9)
    dl = c.array('dl', (nt,), float, lo=-3, hi=3) if zero != 'shift' else 0.0
    d0 = c.snapshot(d)
    o = utils.lst_rephase(d, bls, fr, dl, inplace=False)
    for i in c.indices(nt, nb, nf):
        if zero == 'any':
            close(c, 'amplitude', c.abs2(c.at(o, i)), c.abs2(c.at(d0, i)))
        else:
            close(c, 'unchanged', c.at(o, i), c.at(d0, i))


def dcontainer(c, nt, nf, kind):
    keys = [(0, 1, 'ee'), (0, 2, 'nn')]
    vals = {k: c.array(f'd{q}', (nt, nf), complex) for q, k in enumerate(keys)}
    bls = {k: c.array(f'bl{q}', (3,), float, lo=-1000, hi=1000) for q, k in enumerate(keys)}
    return keys, vals, bls, (DataContainer(dict(vals)) if kind == 'container' else dict(vals))


@contract('C13', 'rephase_container', FR, mode='proof', trials=80, timeout=120)
def rephase_container(c):
    """containers and dictionaries: same factor per baseline key, in place or not"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    keys, vals, bls, D = dcontainer(c, nt, nf, c.choice('type', ['container', 'dict']))
    fr = c.array('freqs', (nf,), float, lo=1e6, hi=1e9)
    dl, at = shifts(c, nt)
    lat = c.real('lat', lo=-90, hi=90)
    inplace = c.choice('inplace', [True, False])
    v0 = {k: c.snapshot(v) for k, v in vals.items()}
    b0 = {k: c.snapshot(v) for k, v in bls.items()}
    o = utils.lst_rephase(D, bls, fr, dl, lat=lat, inplace=inplace)
    c.check('returns', (o is None) == inplace)
    out = D if inplace else o
    c.check('type', type(out) is type(D))
    c.check('keys', set(out.keys()) == set(keys))
    for k in keys:
        c.shape_is('shape', out[k], (nt, nf))
        for i in c.indices(nt, nf):
            bl = [c.at(b0[k], (q,)) for q in range(3)]
            close(c, 'rotated', c.at(out[k], i), c.at(v0[k], i) * factor(c, bl, at(i[0]), lat, c.at(fr, (i[1],))))
        if not inplace:
            c.check_same('frame.data', D[k], v0[k])
        c.check_same('frame.bls', bls[k], b0[k])


@contract('C13', 'rephase_single', FR, mode='proof', trials=40, timeout=90)
def rephase_single(c):
    """one waterfall with one baseline vector (deprecated array form), and a list of shifts"""
    nf = c.dim('nf', lo=1)
    form = c.choice('form', ['array', 'list'])
    nt = 2 if form == 'list' else c.dim('nt', lo=1)
    fr = c.array('freqs', (nf,), float, lo=1e6, hi=1e9)
    bl = c.array('bl', (3,), float, lo=-1000, hi=1000)
    if form == 'list':
        dl = [c.real('dl0', lo=-3, hi=3), c.real('dl1', lo=-3, hi=3)]
        d = c.array('d', (nt, 1, nf), complex)
    else:
        dl = c.real('dl', lo=-3, hi=3)
        d = c.array('d', (nt, nf), complex)
    d0 = c.snapshot(d)
    lat = c.real('lat', lo=-90, hi=90)
    inplace = c.choice('inplace', [True, False])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = utils.lst_rephase(d, bl, fr, dl, lat=lat, inplace=inplace, **(dict(array=True) if form == 'array' else {}))
    out = d if inplace else o
    c.check('returns', (o is None) == inplace)
    c.shape_is('shape', out, d0.shape)
    b = [c.at(bl, (q,)) for q in range(3)]
    for (t, f) in c.indices(nt, nf):
        for tt in (range(2) if form == 'list' else [t]):
            i = (tt, 0, f) if form == 'list' else (t, f)
            close(c, 'rotated', c.at(out, i), c.at(d0, i) * factor(c, b, dl[tt] if form == 'list' else dl, lat, c.at(fr, (f,))))


@contract('C13', 'rotations', ['utils.eq2top_m', 'utils.top2eq_m'], mode='proof', trials=60, timeout=120)
def rotations(c):
    """equatorial-topocentric matrices: inverse of each other, orthonormal, same for scalars and arrays"""
    arr = c.choice('array', [False, True])
    if arr:
        n = c.dim('n', lo=1)
        ha, dec = c.array('ha', (n,), float, lo=-4, hi=4), c.array('dec', (n,), float, lo=-2, hi=2)
    else:
        ha, dec = c.real('ha', lo=-4, hi=4), c.real('dec', lo=-2, hi=2)
    e, t = utils.eq2top_m(ha, dec), utils.top2eq_m(ha, dec)
    for idx in (c.indices(n) if arr else [()]):
        h, d = (c.at(ha, idx), c.at(dec, idx)) if arr else (ha, dec)
        (ch, sh), (cd, sd) = trig(c, h), trig(c, d)
        W = [[sh, ch, 0], [-sd * ch, sd * sh, cd], [cd * ch, -cd * sh, sd]]
        for i in range(3):
            for j in range(3):
                c.check('eq2top', c.eq(c.at(e, tuple(idx) + (i, j)), W[i][j]))
                c.check('top2eq', c.eq(c.at(t, tuple(idx) + (j, i)), W[i][j]))


def refphase(c, per_pol, flagmode):
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    ants = [(0, 'Jee'), (1, 'Jee'), (0, 'Jnn'), (2, 'Jnn')]
    if c.symbolic:
        ants = ants[:3]
    g = {a: c.array(f'g{q}', (nt, nf), complex, nonzero=True) for q, a in enumerate(ants)}
    fl = {a: c.array(f'f{q}', (nt, nf), bool) for q, a in enumerate(ants)} if flagmode else None
    if not c.symbolic and flagmode == 'check' and c.choice('cover', [True, False]):
        for a in ants:
            for b in ants:
                fl[a] |= fl[b]
    if per_pol == 'one':
        ref = c.choice('ref', ants)
        groups = [(ref, ants)]
        arg = ref
    elif per_pol == 'both':
        r1, r2 = c.choice('ref', [a for a in ants if a[1] == 'Jee']), c.choice('ref2', [a for a in ants if a[1] == 'Jnn'])
        arg = {'Jee': r1, 'Jnn': r2}
        groups = [(r1, [a for a in ants if a[1] == 'Jee']), (r2, [a for a in ants if a[1] == 'Jnn'])]
    else:
        r1 = c.choice('ref', [a for a in ants if a[1] == 'Jee'])
        arg = {'Jee': r1}
        groups = [(r1, [a for a in ants if a[1] == 'Jee'])]
    g0 = {a: c.snapshot(v) for a, v in g.items()}
    f0 = {a: c.snapshot(v) for a, v in fl.items()} if fl else {}
    bad = False
    if flagmode == 'check':
        bad = bool(c.or_(*[c.exists(nt, lambda t: c.exists(nf, lambda f: c.and_(c.at(f0[r], (t, f)), c.not_(c.at(f0[a], (t, f))))))
                           for r, m in groups for a in m if a != r]))
    call = lambda: smooth_cal.rephase_to_refant(g, arg, flags=fl, propagate_refant_flags=flagmode == 'propagate')
    if bad:
        c.check('refused', raises(ValueError, call))
        for a in ants:
            c.check_same('frame.flags', fl[a], f0[a])
        return
    call()
    done = set()
    for r, m in groups:
        for a in m:
            done.add(a)
            for i in c.indices(nt, nf):
                x, ref = c.at(g0[a], i), c.at(g0[r], i)
                y = c.at(g[a], i)
                # y |ref| = x conj(ref)
                want = x * c.conj(ref)
                close(c, 'rotated', y * c.absv(ref), want)
                if flagmode == 'propagate':
                    c.check('flags', c.iff(c.at(fl[a], i), c.or_(c.at(f0[a], i), c.at(f0[r], i))))
                elif flagmode == 'check':
                    c.check('flags', c.iff(c.at(fl[a], i), c.at(f0[a], i)))
    for a in ants:
        if a not in done:
            c.check_same('other-pol', g[a], g0[a])
            if fl:
                c.check_same('other-pol-flags', fl[a], f0[a])
    c.check('keys', set(g) == set(ants))


for _pp in ('one', 'both', 'partial'):
    for _fm in (None, 'propagate', 'check'):
        def _mk(pp, fm):
            @contract('C13', f'refant_{pp}_{fm or "noflags"}', ['smooth_cal.rephase_to_refant'], mode='proof', trials=60, timeout=100)
            def f(c):
                refphase(c, pp, fm)
        _mk(_pp, _fm)


@contract('C13', 'refant_invariants', ['smooth_cal.rephase_to_refant'], mode='proof', trials=60, timeout=100)
def refant_invariants(c):
    """the reference has zero phase, amplitudes and products g_i conj(g_j) are kept"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    g = {(q, 'Jee'): c.array(f'g{q}', (nt, nf), complex, nonzero=True) for q in range(3)}
    g0 = {a: c.snapshot(v) for a, v in g.items()}
    smooth_cal.rephase_to_refant(g, (0, 'Jee'))
    for i in c.indices(nt, nf):
        x = [c.at(g0[(q, 'Jee')], i) for q in range(3)]
        y = [c.at(g[(q, 'Jee')], i) for q in range(3)]
        close(c, 'zero-phase', y[0], c.absv(x[0]) + 0j)
        close(c, 'amplitude', c.abs2(y[1]), c.abs2(x[1]))
        close(c, 'product', y[1] * c.conj(y[2]), x[1] * c.conj(x[2]))


@contract('C13', 'pick_refant', ['smooth_cal.pick_reference_antenna'], mode='concrete', bound='random gains and flags of up to 7 antennas per polarization', trials=60, timeout=100)
def pick_refant(c):
    """a reference antenna per polarization (or one), among those with the fewest flags, whatever the flag pattern"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nt, nf = 5, 8
    g, f = {}, {}
    for p in ('Jee', 'Jnn'):
        for n in range(int(rng.integers(1, 8))):
            g[(n, p)] = np.exp(1j * rng.normal(size=(nt, nf)) * rng.choice([.01, .3])) * (1 + rng.random())
            f[(n, p)] = np.zeros((nt, nf), bool)
            k = int(rng.choice([0, 1, 1, 3]))
            f[(n, p)].flat[rng.choice(nt * nf, k, replace=False)] = True
    per_pol = c.choice('per_pol', [True, False])
    frac = c.choice('frac', [0.0, .5, 1.0])
    pos = {n: rng.normal(size=3) for n in range(8)} if frac else None
    g0, f0 = copy.deepcopy(g), copy.deepcopy(f)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        o = smooth_cal.pick_reference_antenna(g, f, np.linspace(1e8, 2e8, nf), per_pol=per_pol, acceptable_candidate_frac=frac, antpos=pos)
    if per_pol:
        c.check('keys', set(o) == {'Jee', 'Jnn'})
    for p, a in (o.items() if per_pol else [(None, o)]):
        pool = [x for x in f0 if p is None or x[1] == p]
        c.check('member', a in pool)
        best = min(f0[x].sum() for x in pool)
        c.check('fewest-flags', f0[a].sum() == best)
        cand = [x for x in pool if f0[x].sum() == best]
        if frac == 1.0:
            live = [x for x in f0 if not f0[x].all()]
            cen = np.mean([pos[x[0]] for x in live], axis=0)
            dist = {x: np.linalg.norm(pos[x[0]] - cen) for x in cand}
            c.check('nearest', dist[a] <= min(dist.values()) + 1e-12)
    c.check('frame', all(np.array_equal(g[x], g0[x]) and np.array_equal(f[x], f0[x]) for x in g0))
