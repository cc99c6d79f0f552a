"""C06: applying gains divides or multiplies by the baseline gain and only adds flags."""
from pyvc.engine import contract, Skip
from pyvc.terms import PathEnd
from contracts.lib import rev, keq, raises, feeds
from hera_cal import apply_cal
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
FN = ['apply_cal.calibrate_in_place', 'apply_cal.build_gains_by_cadences', 'apply_cal._check_polarization_consistency']
ASSUMPTIONS = ['C06: gains are finite and nonzero; each call of calibrate_in_place is verified on containers of two baselines (the loop body is the same for each baseline)']


def gdict(c, nm, ants, missing, shape, dtype=complex, **kw):
    """gain-like dictionary for the given antenna keys (deduplicated), without the missing ones"""
    g, snap = {}, {}
    for q, a in enumerate(ants):
        if any(bool(keq(c, a, m)) for m in missing) or any(bool(keq(c, a, o)) for o in g):
            continue
        v = c.array(f'{nm}{q}', shape, dtype, **kw)
        g[a] = v
        snap[a] = c.snapshot(v)
    return g, snap


def look(c, d, a):
    for k, v in d.items():
        if bool(keq(c, k, a)):
            return v
    return None


def bat(c, v, idx):
    """element with broadcasting over a length-1 leading axis"""
    n0 = v.shape[0]
    if bool(c.eq(n0, 1)):
        return c.at(v, (0, idx[1]))
    return c.at(v, idx)


def expected(c, conv, d, ni, nj, oi, oj):
    if conv == 'multiply':
        (ni, nj), (oi, oj) = (oi, oj), (ni, nj)
    r = d
    if ni is not None:
        r = r / ni / c.conj(nj)
    if oi is not None:
        r = r * oi * c.conj(oj)
    return r


def case(c, conv, mode):
    # a single integration is a separate case in the code: split it here (lookups by number of integrations)
    nt = (1 if c.choice('nt1', [True, False]) else c.dim('nt', lo=2)) if c.symbolic else c.dim('nt')
    nf = c.dim('nf')
    shape = (nt, nf)
    pol = c.choice('pol', ['ee', 'en'])
    i, j = c.ant('i'), c.ant('j')
    x = c.ant('x')
    k1, k2 = (i, j, pol), (i, x, 'nn')
    a1, a2 = feeds(k1)
    old = c.choice('old', [False, True])
    miss = lambda nm: {'': (), 'i': (a1,), 'j': (a2,)}[c.choice(nm, ['', 'i', 'j'])]
    gsh = c.choice('gshape', ['same', 'one'])
    gs = shape if gsh == 'same' else (1, nf)
    mn = miss('miss.new')
    mo = miss('miss.old') if old else ()
    mf = miss('miss.cf') if mode in ('bool', 'wgts') else ()
    if c.symbolic and sum(1 for m in (mn, mo, mf) if m) > 1:
        raise PathEnd('one missing entry at a time is enough: each sets the same flag')
    two = not c.symbolic or (not (mn or mo or mf) and gsh == 'same')
    return shape, k1, (k2 if two else None), old, gs, mn, mo, mf


def calibrate(c, conv, mode):
    shape, k1, k2, old, gs, mn, mo, mf = case(c, conv, mode)
    ants = list(feeds(k1)) + (list(feeds(k2)) if k2 else [])
    c.reachable('pre')
    new, new0 = gdict(c, 'n', ants, mn, gs, nonzero=True)
    oldg, old0 = gdict(c, 'o', ants, mo, gs, nonzero=True) if old else (None, {})
    cf, cf0 = gdict(c, 'cf', ants, mf, gs, bool) if mode in ('bool', 'wgts') else (None, {})
    keys = [k1, k2] if k2 else [k1]
    data = {k: c.array(f'd{q}', shape, complex) for q, k in enumerate(keys)}
    d0 = {k: c.snapshot(v) for k, v in data.items()}
    flags, f0 = None, {}
    if mode != 'none':
        flip = c.choice('flags-reversed', [False, True]) if mode == 'bool' and k2 else False
        fl = {}
        for q, k in enumerate(keys):
            kk = rev(k) if flip else k
            v = c.array(f'f{q}', shape, float if mode == 'wgts' else bool, **(dict(lo=0) if mode == 'wgts' else {}))
            f0[k] = c.snapshot(v)
            fl[kk] = v
        flags = DataContainer(fl)
    D = DataContainer(data)
    apply_cal.calibrate_in_place(D, new, data_flags=flags, cal_flags=cf, old_gains=oldg, gain_convention=conv, flags_are_wgts=mode == 'wgts')
    c.check('keys', len(D.keys()) == len(keys))
    for k in keys:
        a, b = feeds(k)
        ni, nj = look(c, new0, a), look(c, new0, b)
        oi, oj = look(c, old0, a), look(c, old0, b)
        gone = ni is None or nj is None or (old and (oi is None or oj is None))
        auto = bool(c.eq(a, b))
        if not gone:
            def spec(idx):
                return expected(c, conv, c.at(d0[k], idx), bat(c, ni, idx), bat(c, nj, idx), bat(c, oi, idx) if old else None, bat(c, oj, idx) if old else None)
            c.check_array('data', D[k], shape, spec)
            if auto:
                for idx in c.indices(*shape):
                    x, y = c.at(d0[k], idx), c.at(D[k], idx)
                    c.check('auto-real', c.implies(imz(c, x), imz(c, y)))
        if flags is not None:
            ci, cj = (look(c, cf0, a), look(c, cf0, b)) if cf is not None else (None, None)
            allf = gone or cf is None or ci is None or cj is None
            if mode == 'wgts':
                spec = (lambda idx: 0.0) if allf else (lambda idx: c.ite(c.or_(bat(c, ci, idx), bat(c, cj, idx)), 0.0, c.at(f0[k], idx)))
            else:
                spec = (lambda idx: True) if allf else (lambda idx: c.or_(c.at(f0[k], idx), bat(c, ci, idx), bat(c, cj, idx)))
            c.check_array('flags', flags[k], shape, spec)
    if flags is not None:
        c.check('flag-keys', len(flags.keys()) == len(keys))
    frame(c, 'new-gains', new, new0)
    if old:
        frame(c, 'old-gains', oldg, old0)
    if cf is not None:
        frame(c, 'cal-flags', cf, cf0)


for _conv in ('divide', 'multiply'):
    for _mode in ('none', 'bool', 'wgts', 'nocal'):
        def _mk(conv, mode):
            @contract('C06', f'calibrate_{conv}_{mode}', FN, trials=100, timeout=150, paths=20000)
            def f(c):
                calibrate(c, conv, mode)
        _mk(_conv, _mode)


def imz(c, z):
    if c.symbolic:
        from pyvc import terms as T
        z = T.lift(z)
        return T.SBool(z.as_imag() == 0)
    return z.imag == 0


def frame(c, nm, d, d0):
    c.check(nm + '-keys', len(d) == len(d0))
    for k in d0:
        c.check_same(nm + '-unchanged', d[k], d0[k])


# ---- gains at another cadence than the data
def rows(c, ng, nt, t):
    """rows of the gains that apply to data row t"""
    if ng == 1:
        return [0]
    if nt >= ng:
        return [t // (nt // ng)]
    return list(range(t * (ng // nt), (t + 1) * (ng // nt)))


@contract('C06', 'cadences', FN, mode='bounded', bound='symbolic: gains with 1, 2 or 4 integrations, two baselines with 1, 2 or 4 integrations, any number of channels; run-time: up to 8', trials=300, timeout=150, paths=20000)
def cadences(c):
    ng = c.bdim('ng', [2, 4], conc=[1, 2, 4, 8])
    n1 = c.bdim('n1', [1, 2, 4], conc=[1, 2, 4, 8])
    n2 = c.bdim('n2', [1, 2], conc=[1, 2, 4, 8])
    nf = c.dim('nf')
    k1, k2 = (0, 1, 'ee'), (2, 2, 'ee')
    ants = [(0, 'Jee'), (1, 'Jee'), (2, 'Jee')]
    mode = c.choice('mode', ['bool', 'none', 'wgts'])
    old = c.choice('old', [False, True]) if not c.symbolic else False
    new, new0 = gdict(c, 'n', ants, (), (ng, nf), nonzero=True)
    oldg, old0 = gdict(c, 'o', ants, (), (ng, nf), nonzero=True) if old else (None, {})
    cf, cf0 = gdict(c, 'cf', ants, (), (ng, nf), bool) if mode != 'none' else (None, {})
    nts = {k1: n1, k2: n2}
    data = {k: c.array(f'd{k[0]}', (nts[k], nf), complex) for k in nts}
    d0 = {k: c.snapshot(v) for k, v in data.items()}
    flags = None
    if mode != 'none':
        fl = {k: c.array(f'f{k[0]}', (nts[k], nf), bool if mode == 'bool' else float, **({} if mode == 'bool' else dict(lo=0))) for k in nts}
        f0 = {k: c.snapshot(v) for k, v in fl.items()}
        flags = DataContainer(fl)
    D = DataContainer(data)
    apply_cal.calibrate_in_place(D, new, data_flags=flags, cal_flags=cf, old_gains=oldg, flags_are_wgts=mode == 'wgts')

    def avg(g, ant, t, f):
        r = rows(c, ng, nts[k], t)
        s = c.at(g[ant], (r[0], f))
        for q in r[1:]:
            s = s + c.at(g[ant], (q, f))
        return s / float(len(r))

    for k in nts:
        a, b = feeds(k)
        for t in ([c.choice(f't{k[0]}', range(nts[k]))] if c.symbolic else range(nts[k])):
            for (f,) in c.indices(nf):
                r = rows(c, ng, nts[k], t)
                gi, gj = avg(new0, a, t, f), avg(new0, b, t, f)
                oi, oj = (avg(old0, a, t, f), avg(old0, b, t, f)) if old else (None, None)
                if cf is not None:
                    fg = c.or_(*[c.at(cf0[x], (q, f)) for x in (a, b) for q in r])
                    if mode == 'bool':
                        c.check('flags', c.iff(c.at(flags[k], (t, f)), c.or_(fg, c.at(f0[k], (t, f)))))
                    else:
                        c.check('weights', c.eq(c.at(flags[k], (t, f)), c.ite(fg, 0.0, c.at(f0[k], (t, f)))))
                    clear = c.not_(fg)
                else:
                    clear = True
                nz = c.and_(c.not_(c.eq(gi, 0j)), c.not_(c.eq(gj, 0j)))
                if not c.symbolic and not bool(c.and_(clear, nz)):
                    continue
                if c.symbolic and not (bool(clear) and bool(nz)):
                    continue
                c.check('data', c.eq(c.at(D[k], (t, f)), expected(c, 'divide', c.at(d0[k], (t, f)), gi, gj, oi, oj)))
    frame(c, 'new-gains', new, new0)
    if cf is not None:
        frame(c, 'cal-flags', cf, cf0)


@contract('C06', 'gains_by_cadence', ['apply_cal.build_gains_by_cadences'], mode='bounded', bound='symbolic: 2 or 4 integrations of gains, data with 1, 2 or 4, any number of channels; run-time: up to 8', trials=200, timeout=90)
def gains_by_cadence(c):
    """flag-weighted average over pairs, then pairs of pairs; flags ORed"""
    ng = c.bdim('ng', [2, 4], conc=[1, 2, 4, 8])
    nd = c.bdim('nd', [1, 2, 4], conc=[1, 2, 4, 8])
    nf = c.dim('nf')
    flagged = c.choice('flagged', [True, False])
    a = (0, 'Jee')
    g, g0 = gdict(c, 'g', [a], (), (ng, nf))
    cf, cf0 = gdict(c, 'cf', [a], (), (ng, nf), bool) if flagged else (None, None)
    gb, cb = apply_cal.build_gains_by_cadences(DataContainer({(0, 1, 'ee'): c.array('d', (nd, nf), complex)}), g, cal_flags=cf)
    G = gb[nd][a]
    for t in ([c.choice('t', range(nd))] if c.symbolic else range(nd)):
        for (f,) in c.indices(nf):
            r = rows(c, ng, nd, t)
            vals = [c.at(g0[a], (q, f)) for q in r]
            fls = [c.at(cf0[a], (q, f)) if flagged else False for q in r]
            if c.symbolic:
                fls = [bool(x) for x in fls]
            while len(vals) > 1:
                nv, nfl = [], []
                for q in range(0, len(vals), 2):
                    x, y, fx, fy = vals[q], vals[q + 1], fls[q], fls[q + 1]
                    nv.append(None if (fx and fy) else (x if fy else y if fx else None if x is None or y is None else (x + y) / 2.0))
                    nfl.append(fx or fy)
                vals, fls = nv, nfl
            if vals[0] is not None:
                c.check('gain', c.eq(c.at(G, (t if ng > 1 else 0, f)), vals[0]))
            if flagged:
                c.check('flag', c.iff(c.at(cb[nd][a], (t if ng > 1 else 0, f)), fls[0]))
    frame(c, 'gains', g, g0)
    if flagged:
        frame(c, 'flags', cf, cf0)


@contract('C06', 'roundtrip', FN, trials=150, timeout=90, paths=2000)
def roundtrip(c):
    conv = c.choice('convention', ['divide', 'multiply'])
    nt = (1 if c.choice('nt1', [True, False]) else c.dim('nt', lo=2)) if c.symbolic else c.dim('nt')
    shape = (nt, c.dim('nf'))
    i, j = c.ant('i'), c.ant('j')
    k = (i, j, c.choice('pol', ['ee', 'en']))
    A, A0 = gdict(c, 'a', feeds(k), (), shape, nonzero=True)
    B, B0 = gdict(c, 'b', feeds(k), (), shape, nonzero=True)
    v = c.array('d', shape, complex)
    v0 = c.snapshot(v)
    D = DataContainer({k: v})
    apply_cal.calibrate_in_place(D, A, gain_convention=conv)
    apply_cal.calibrate_in_place(D, B, old_gains=A, gain_convention=conv)
    apply_cal.calibrate_in_place(D, {a: g * 0 + 1 for a, g in B.items()}, old_gains=B, gain_convention=conv)
    c.check_array('restored', D[k], shape, lambda idx: c.at(v0, idx))


@contract('C06', 'bad_inputs', FN, mode='concrete', bound='fixed', trials=40, timeout=20)
def bad(c):
    d = lambda p='ee': DataContainer({(0, 1, p): np.ones((2, 2), complex)})
    g = lambda p='Jee': {(0, p): np.ones((2, 2), complex), (1, p): np.ones((2, 2), complex)}
    c.check('convention', raises(KeyError, lambda: apply_cal.calibrate_in_place(d(), g(), gain_convention='blah')))
    c.check('cardinal', raises(KeyError, lambda: apply_cal.calibrate_in_place(d('ee'), g('Jxx'))))
    c.check('cardinal2', raises(KeyError, lambda: apply_cal.calibrate_in_place(d('xx'), g('Jnn'))))


# ---- redundantly averaged data
def redundant_solution(c, conv):
    shape = (c.dim('nt'), c.dim('nf'))
    auto = c.choice('autos', [False, True])
    red = [(0, 0, 'ee'), (1, 1, 'ee')] if auto else [(0, 1, 'en'), (1, 2, 'en')]
    if not c.symbolic and not auto and c.bool('three'):
        red.append((2, 3, 'en'))
    old = c.choice('old', [False, True])
    if c.symbolic and conv == 'multiply' and old and not auto:
        red = red[:1]     # (a sum of two quotients of four gains: left to the run-time evaluation)
    ants = sorted({a for bl in red for a in feeds(bl)})
    missing = () if c.choice('missing', [False, True]) is False or len(ants) == 1 else (ants[-1],)
    new, new0 = gdict(c, 'n', ants, missing, shape, nonzero=True)
    nfl, nfl0 = gdict(c, 'nf', ants, missing, shape, bool)
    oldg, old0 = gdict(c, 'o', ants, missing, shape, nonzero=True) if old else (None, {})
    ofl, ofl0 = gdict(c, 'of', ants, missing, shape, bool) if old else (None, {})
    key = red[0]
    flip = c.choice('flip', [False, True])
    kk = rev(key) if flip and not auto else key
    other = (7, 8, 'en')
    d, f, od, of = c.array('d', shape, complex), c.array('f', shape, bool), c.array('od', shape, complex), c.array('of_', shape, bool)
    d0, f0, od0, of0 = [c.snapshot(x) for x in (d, f, od, of)]
    D, F = DataContainer({kk: d, other: od}), DataContainer({kk: f, other: of})
    if c.symbolic and conv == 'multiply':
        cp = lambda x: None if x is None else {a: c.snapshot(v) for a, v in x.items()}
        u = c.snapshot(d) * 0 + 1
        U = DataContainer({key: u})
        apply_cal.calibrate_redundant_solution(U, DataContainer({key: c.snapshot(f)}), cp(new), cp(nfl), [list(red)], old_gains=cp(oldg), old_flags=cp(ofl), gain_convention='divide')
    apply_cal.calibrate_redundant_solution(D, F, new, nfl, [list(red)], old_gains=oldg, old_flags=ofl, gain_convention=conv)

    def ratio(bl, idx):
        a, b = feeds(bl)
        if a in missing or b in missing:
            return None, True
        fl = c.or_(c.at(nfl0[a], idx), c.at(nfl0[b], idx), *([c.at(ofl0[a], idx), c.at(ofl0[b], idx)] if old else []))
        n, m = c.at(new0[a], idx), c.conj(c.at(new0[b], idx))
        o, p = (c.at(old0[a], idx), c.conj(c.at(old0[b], idx))) if old else (1 + 0j, 1 + 0j)
        return o * p / n / m, fl

    def parts(idx):
        rs = [ratio(bl, idx) for bl in red]
        rs = [(r, (bool(fl) if c.symbolic else fl)) for r, fl in rs if r is not None]
        n = c.sum(0, lambda i: 0)
        tot = 0
        for r, fl in rs:
            if c.symbolic:
                tot, n = (tot, n) if fl else (tot + r, n + 1.0)
            else:
                tot, n = tot + np.where(fl, 0, r), n + np.where(fl, 0, 1)
        return tot, n, (c.and_(*[fl for _, fl in rs]) if rs else True)

    val = (lambda idx: c.at(d0, idx)) if kk == key else (lambda idx: c.conj(c.at(d0, idx)))
    for idx in c.indices(*shape):
        tot, n, none = parts(idx)
        c.check('flags', c.iff(c.at(F[key], idx), c.or_(c.at(f0, idx), none)))
        got = c.at(D[key], idx)
        if c.symbolic:
            if bool(none):
                c.check('untouched-where-flagged', c.eq(got, val(idx)))
            elif conv == 'divide':
                c.check('data', c.eq(got * n, val(idx) * tot))
            else:
                # the multiply convention is the inverse of the divide convention (whose factor is decided by the other contract)
                one = c.at(U[key], idx)
                if not bool(c.eq(one, 0j)):
                    c.check('data', c.eq(got * one, val(idx)))
        elif none:
            c.check('untouched-where-flagged', c.eq(got, val(idx)))
        elif abs(tot) > 1e-9 or conv == 'divide':
            g = tot / n
            c.check('data', c.eq(got, val(idx) * (g if conv == 'divide' else 1 / g)))
    c.check_same('other-data', D[other], od0)
    c.check_same('other-flags', F[other], of0)
    for nm, x, x0 in (('new', new, new0), ('new-flags', nfl, nfl0)) + ((('old', oldg, old0), ('old-flags', ofl, ofl0)) if old else ()):
        for a in x0:
            c.check_same(nm + '-unchanged', x[a], x0[a])


for _conv in ('divide', 'multiply'):
    def _mk2(conv):
        @contract('C06', f'redundant_solution_{conv}', ['apply_cal.calibrate_redundant_solution'], trials=200, timeout=150, paths=4000)
        def f(c):
            redundant_solution(c, conv)
    _mk2(_conv)


# ---- redundant solutions
@contract('C06', 'redsol', ['redcal.RedSol.gain_bl', 'redcal.RedSol.model_bl', 'redcal.RedSol.calibrate_bl'], trials=200, timeout=60)
def redsol(c):
    from hera_cal import redcal
    shape = (c.dim('nt'), c.dim('nf'))
    p = c.choice('pol', ['ee', 'en'])
    reds = [[(0, 1, p), (1, 2, p)], [(0, 2, p)]]
    ants = sorted({a for g in reds for b in g for a in feeds(b)} | {a for g in reds for b in g for a in feeds(rev(b))})
    g, g0 = gdict(c, 'g', ants, (), shape)
    v, w = c.array('v', shape, complex), c.array('w', shape, complex)
    v0, w0 = c.snapshot(v), c.snapshot(w)
    rs = redcal.RedSol(reds, gains=g, vis={(0, 1, p): v, (0, 2, p): w})
    for bl, vis, cj in [((0, 1, p), v0, False), ((1, 2, p), v0, False), ((2, 1, p[::-1]), v0, True), ((0, 2, p), w0, False)]:
        a, b = feeds(bl)
        gij = lambda idx: c.at(g0[a], idx) * c.conj(c.at(g0[b], idx))
        c.check_array('gain', rs.gain_bl(bl), shape, gij)
        c.check_array('model', rs.model_bl(bl), shape, lambda idx: gij(idx) * (c.conj(c.at(vis, idx)) if cj else c.at(vis, idx)))
        for cp in (True, False):
            d = c.array(f'd{bl}{cp}', shape, complex)
            d0 = c.snapshot(d)
            r = rs.calibrate_bl(bl, d, copy=cp)
            # d0 == r * g wherever the gain is nonzero, r == d0 elsewhere
            c.check_array('calibrate', r, shape, lambda idx: _quot(c, c.at(d0, idx), c.at(g0[a], idx), c.at(g0[b], idx)))
            if cp:
                c.check_same('calibrate-copy', d, d0)
            else:
                c.check_same('calibrate-inplace', d, r)


def _quot(c, d, ga, gb):
    if c.symbolic:
        z = c.or_(c.eq(ga, 0j), c.eq(gb, 0j))
        from pyvc import terms as T
        return T.s_where(z, d, T.s_div(d, T.s_mul(ga, T.s_conj(gb))))
    g = ga * np.conj(gb)
    return d if g == 0 else d / g


# ---- SNAP decoherence
@contract('C06', 'snap_decoherence', ['apply_cal.correct_SNAP_decoherence_in_place'], mode='bounded', bound='symbolic: 3 channels in blocks of 2, any number of integrations; run-time: up to 7 channels', trials=250, timeout=90)
def snap(c):
    nt = c.bdim('nt', [1, 2], conc=range(1, 5))
    nf = c.bdim('nf', [3], conc=range(1, 8))
    npb = c.bdim('npb', [2], conc=range(1, 5))
    nb = -(-nf // npb)
    layout = c.choice('layout', [{0: 'A', 1: 'A', 2: 'B'}, {0: 'A', 1: 'B', 2: 'B'}, {0: 'B', 1: 'A', 2: 'C'}])
    keys = [(0, 1, 'ee'), (1, 2, 'en'), (0, 0, 'ee'), (0, 2, 'nn')]
    dec = {s: c.array('p' + s, (nt, nb), float, nan=not c.symbolic, lo=0, hi=0.9) for s in 'ABC'}
    if c.symbolic and c.choice('nans', [False, True]):
        dec['A'] = c.array('pAn', (nt, nb), float, nan=True, lo=0, hi=0.9)
    dec0 = {s: c.snapshot(v) for s, v in dec.items()}
    data = {k: c.array(f'd{q}', (nt, nf), complex) for q, k in enumerate(keys)}
    d0 = {k: c.snapshot(v) for k, v in data.items()}
    fl, F = None, None
    if c.choice('flagged', [False, True]):
        fl = {k: c.array(f'f{q}', (nt, nf), bool) for q, k in enumerate(keys)}
        F = DataContainer({(rev(k) if q == 3 else k): v for q, (k, v) in enumerate(fl.items())})
    f0 = {k: c.snapshot(v) for k, v in fl.items()} if fl else None
    D = DataContainer(data)
    p = lambda s, t, f: c.at(dec0[s], (t, f // npb))
    isn = lambda x: c.not_(c.finite(x))
    bad = c.or_(*[c.and_(c.or_(isn(p(layout[k[0]], t, f)), isn(p(layout[k[1]], t, f))), *([c.not_(c.at(f0[k], (t, f)))] if f0 else []))
                  for k in keys if layout[k[0]] != layout[k[1]] for t in range(nt) for f in range(nf)])
    try:
        apply_cal.correct_SNAP_decoherence_in_place(D, dec, layout, data_flags=F, nchans_per_block=npb)
    except ValueError:
        c.check('raises-only-if-unmeasured', bad)
        return
    c.check('unmeasured-rejected', c.not_(bad))
    for k in keys:
        si, sj = layout[k[0]], layout[k[1]]
        for t in range(nt):
            for f in range(nf):
                got, d = c.at(D[k], (t, f)), c.at(d0[k], (t, f))
                if si == sj:
                    c.check('same-snap-untouched', c.eq(got, d))
                else:
                    pi, pj = [c.ite(isn(x), 0.0, x) for x in (p(si, t, f), p(sj, t, f))]
                    c.check('corrected', c.eq(got * ((1 - pi) * (1 - pj)), d))
        if fl:
            c.check_same('flags-unchanged', fl[k], f0[k])
    for s in dec:
        c.check_same('decoherence-unchanged', dec[s], dec0[s])
