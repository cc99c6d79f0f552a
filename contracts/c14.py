"""C14: time averaging, interleaving and padding keep every sample in its place."""
import copy
import warnings
from types import SimpleNamespace
from pyvc.engine import contract, Skip
from pyvc.terms import Unsupported
from contracts.lib import raises
from hera_cal import frf, vis_clean, utils
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
ASSUMPTIONS = []
TOL = 1e-9


@contract('C14', 'deinterleave', ['frf.deinterleave_data_in_time'], mode='proof', trials=80, timeout=60)
def deinterleave(c):
    """set i holds the integrations i, i+n, i+2n, ... in order, with their times"""
    nt, nf = c.dim('nt'), c.dim('nf')
    n = c.choice('n', [1, 2, 3, 4])
    kind = c.choice('dtype', [complex, bool])
    t, d = c.array('t', (nt,), float), c.array('d', (nt, nf), kind)
    t0, d0 = c.snapshot(t), c.snapshot(d)
    if bool(nt < n):
        c.check('too-few', raises(ValueError, lambda: frf.deinterleave_data_in_time(t, d, ninterleave=n)))
        return
    ts, ds = frf.deinterleave_data_in_time(t, d, ninterleave=n)
    c.check('number', len(ts) == n and len(ds) == n)
    for q in range(n):
        m = (nt - q + n - 1) // n
        c.check_array('times', ts[q], (m,), lambda i: c.at(t0, (q + n * i[0],)))
        c.check_array('data', ds[q], (m, nf), lambda i: c.at(d0, (q + n * i[0], i[1])))
    c.check_same('frame.t', t, t0)
    c.check_same('frame.d', d, d0)


@contract('C14', 'interleave', ['frf.interleave_data_in_time', 'frf.deinterleave_data_in_time'], mode='bounded', bound='up to 5 integrations in up to 3 sets; any number of channels, any data', trials=80, timeout=90)
def interleave(c):
    """the sets are put back in time order, undoing the split exactly"""
    nt = c.choice('nt', [1, 2, 3, 4, 5]) if c.symbolic else c.int('nt', 1, 12)
    n = c.int('n', 1, 4) if not c.symbolic else c.choice('n', [1, 2, 3])
    if nt < n:
        return
    nf = c.dim('nf')
    kind = c.choice('dtype', [complex, bool, float])
    d = c.array('d', (nt, nf), kind)
    d0 = c.snapshot(d)
    ts, ds = frf.deinterleave_data_in_time(np.arange(nt), d, ninterleave=n)
    o = frf.interleave_data_in_time(ds)
    c.check('type', o.dtype == d.dtype)
    for t in range(nt):
        c.check_array('row', o[t], (nf,), lambda i: c.at(d0, (t, i[0])))
    c.shape_is('shape', o, (nt, nf))
    c.check_same('frame', d, d0)


@contract('C14', 'interleave_uneven', ['frf.interleave_data_in_time'], mode='bounded', bound='2 or 3 sets of up to 3 integrations, lengths as a split leaves them', trials=60, timeout=90)
def interleave_uneven(c):
    """row t of the result is row t // n of set t % n"""
    n = c.choice('n', [2, 3])
    nt = c.choice('nt', [3, 4, 5, 7])
    nf = c.dim('nf', lo=1)
    kind = c.choice('dtype', [complex, bool])
    ds = [c.array(f'd{q}', (len(range(q, nt, n)), nf), kind) for q in range(n)]
    d0 = [c.snapshot(x) for x in ds]
    o = frf.interleave_data_in_time(ds)
    c.shape_is('shape', o, (nt, nf))
    for t in range(nt):
        c.check_array('row', o[t], (nf,), lambda i: c.at(d0[t % n], (t // n, i[0])))
    for x, y in zip(ds, d0):
        c.check_same('frame', x, y)


KEYS = [(0, 1, 'ee'), (0, 1, 'nn'), (1, 2, 'ee')]


def filt(**kw):
    o = frf.FRFilter.__new__(frf.FRFilter)
    for k, v in kw.items():
        setattr(o, k, v)
    return o


@contract('C14', 'filter_interleave', ['frf.FRFilter._deinterleave_data_in_time', 'frf.FRFilter._interleave_data_in_time', 'frf.deinterleave_data_in_time', 'frf.interleave_data_in_time'], mode='bounded', bound='up to 5 integrations in up to 3 sets, 3 keys; any data', trials=60, timeout=120)
def filter_interleave(c):
    """the object's containers, times and LSTs are split together, and putting the sets back restores the container"""
    n, nt = c.choice('case', [(1, 2), (2, 4), (2, 5), (3, 4), (3, 5)]) if c.symbolic else (c.int('n', 1, 3), c.int('nt', 3, 11))
    nf = c.dim('nf', lo=1)
    D = {k: c.array(f'd{q}', (nt, nf), complex) for q, k in enumerate(KEYS)}
    d0 = {k: c.snapshot(v) for k, v in D.items()}
    times, lsts = c.array('times', (nt,), float), c.array('lsts', (nt,), float)
    o = filt(data=DataContainer(dict(D)), times=times, lsts=lsts)
    keys = c.choice('keys', [None, [KEYS[1]], KEYS[::-1]])
    sets = c.choice('set-times', [True, False])
    o._deinterleave_data_in_time('data', ninterleave=n, keys=keys, set_time_sets=sets)
    use = KEYS if keys is None else keys
    c.check('time-sets', hasattr(o, 'time_sets') == sets and hasattr(o, 'lst_sets') == sets)
    for q in range(n):
        cont = getattr(o, f'data_interleave_{q}')
        c.check('keys', set(cont.keys()) == set(use))
        rows = list(range(q, nt, n))
        for k in use:
            c.shape_is('shape', cont[k], (len(rows), nf))
            for r, t in enumerate(rows):
                c.check_array('data', cont[k][r], (nf,), lambda i: c.at(d0[k], (t, i[0])))
        if sets:
            c.check('sets', len(o.time_sets) == n and len(o.lst_sets) == n)
            c.shape_is('time-shape', o.time_sets[q], (len(rows),))
            c.shape_is('lst-shape', o.lst_sets[q], (len(rows),))
            for r, t in enumerate(rows):
                c.check('time', c.eq(c.at(o.time_sets[q], (r,)), c.at(times, (t,))))
                c.check('lst', c.eq(c.at(o.lst_sets[q], (r,)), c.at(lsts, (t,))))
    names = [f'data_interleave_{q}' for q in range(n)]
    back = c.choice('into', ['new', 'data'])
    o._interleave_data_in_time(names, back, keys=keys if c.choice('same-keys', [True, False]) else None)
    B = getattr(o, back)
    c.check('back-keys', set(B.keys()) == set(use if back == 'new' else KEYS))
    for k in B.keys():
        c.shape_is('back-shape', B[k], (nt, nf))
        for t in range(nt):
            c.check_array('restored', B[k][t], (nf,), lambda i: c.at(d0[k], (t, i[0])))


def unwrapped(c, l, n):
    """LSTs with multiples of 2 pi added so that no step exceeds pi (spec, independent of numpy)"""
    if not c.symbolic:
        out = [float(l[0])] if n else []
        for t in range(1, n):
            out.append(float(l[t]) - 2 * np.pi * np.round((float(l[t]) - out[-1]) / (2 * np.pi)))
        return out
    out = [c.at(l, (0,))]
    for t in range(1, n):
        x, p = c.at(l, (t,)), c.at(l, (t - 1,))
        k = out[-1] - p    # multiple of 2 pi added so far
        step = x - p
        k = c.ite(step >= np.pi, k - 2 * np.pi, c.ite(step <= -np.pi, k + 2 * np.pi, k))
        out.append(x + k)
    return out




def tavg(c, nt, N, nf, lsts_kind, reph, wmode, have_f, have_n, extra, K=None):
    d = c.array('d', (nt, nf), complex)
    f = c.array('f', (nt, nf), bool) if have_f else None
    ns = c.array('n', (nt, nf), float, lo=0, hi=100) if have_n else None
    ex = {'times': c.array('times', (nt,), float)} if extra else {}
    kw = dict(flags=f, nsamples=ns, extra_arrays=dict(ex), verbose=False)
    if wmode == 'favg':
        kw.update(wgt_by_nsample=False, wgt_by_favg_nsample=True)
    elif wmode == 'uniform':
        kw.update(wgt_by_nsample=False)
    ls = None
    if lsts_kind:
        if c.symbolic:
            ls = c.array('lsts', (nt,), float, lo=0, hi=2 * np.pi)
            for t in range(1, nt):
                s = c.at(ls, (t,)) - c.at(ls, (t - 1,))
                c.assume(c.and_(c.not_(c.eq(s, np.pi)), c.not_(c.eq(s, -np.pi))))
        else:
            ls = (c.real('l0', lo=0, hi=6.28) + np.arange(nt) * c.choice('dl', [1e-3, .3, -.2, 1.1])) % (2 * np.pi)
        kw['lsts'] = ls
    seen, real = [], utils.lst_rephase
    R = []
    if reph:
        fr, bl, lat = c.array('freqs', (nf,), float), c.array('bl', (3,), float), c.real('lat', lo=-90, hi=90)
        kw.update(rephase=True, freqs=fr, bl_vec=bl, lat=lat)

        def stub(dd, b, q, dlst, lat=None, inplace=True, array=False):
            r = c.array(f'R{len(R)}', dd.shape, complex)
            seen.append((dd, b, q, dlst, lat, inplace))
            R.append(r)
            return r
        if c.symbolic:
            utils.lst_rephase = stub
    d0 = c.snapshot(d)
    f0 = None if f is None else c.snapshot(f)
    n0 = None if ns is None else c.snapshot(ns)
    e0 = {k: c.snapshot(v) for k, v in ex.items()}
    l0 = None if ls is None else ls.copy()
    try:
        ad, af, an, al, ea = frf.timeavg_waterfall(d, N, **kw)
    finally:
        utils.lst_rephase = real
    if c.symbolic and reph and not seen:
        raise Unsupported('rephasing without the contracted callee')
    nwin = K if K is not None else -(-nt // N)
    un = lambda t, q: 1.0 if f is None else c.ite(c.at(f0, (t, q)), 0.0, 1.0)
    sm = lambda t, q: 1.0 if ns is None else c.at(n0, (t, q))
    fav = lambda t: c.sum(nf, lambda q: sm(t, q)) / nf
    U = None if ls is None else unwrapped(c, l0, nt)
    c.shape_is('shape.data', ad, (nwin, nf))
    c.shape_is('shape.flags', af, (nwin, nf))
    c.shape_is('shape.nsamples', an, (nwin, nf))
    c.check('kinds', c.and_(c.is_kind(ad, 'c'), c.is_kind(af, 'b'), c.is_kind(an, 'f')))
    for w in range(nwin):
        lo = w * N
        hi = lo + N if w < nwin - 1 else nt
        L = hi - lo
        ml = None
        if ls is not None:
            ml = sum(U[lo:hi]) / L
            got = c.at(al, (w,))
            if c.symbolic:
                c.check('lst', c.eq(got, ml % (2 * np.pi)))
            else:
                c.check('lst', 0 <= got < 2 * np.pi and abs(np.exp(1j * got) - np.exp(1j * ml)) < TOL)
        if reph and c.symbolic:
            dd, b, q, dl, la, inp = seen[w]
            c.check('rephase.bl', b is bl and q is fr and inp is False)
            c.check('rephase.lat', c.eq(la, lat))
            c.check_array('rephase.data', dd, (L, 1, nf), lambda i: c.at(d0, (lo + i[0], i[2])))
            c.shape_is('rephase.shape', dl, (L,))
            for t in range(L):
                c.check('rephase.dlst', c.eq(c.at(dl, (t,)), ml - U[lo + t]))
            val = lambda t, q: c.at(R[w], (t, 0, q))
        elif reph:
            rp = real(d0[lo:hi, None].copy(), bl, fr, ml - np.array(U[lo:hi]), lat=lat, inplace=False)[:, 0]
            val = lambda t, q: rp[t, q]
        else:
            val = lambda t, q: c.at(d0, (lo + t, q))
        wt = {'nsample': lambda t, q: un(lo + t, q) * sm(lo + t, q), 'favg': lambda t, q: un(lo + t, q) * fav(lo + t),
              'uniform': lambda t, q: un(lo + t, q)}[wmode]
        for (q,) in c.indices(nf):
            ws = c.sum(L, lambda t: wt(t, q))
            num = c.sum(L, lambda t: val(t, q) * wt(t, q))
            got = c.at(ad, (w, q))
            ws = c.ite(ws < 1e-10, 1e-10, ws)
            if c.symbolic:
                c.check('average', c.eq(got * ws, num))
                c.check('nsamples', c.eq(c.at(an, (w, q)), c.sum(L, lambda t: un(lo + t, q) * sm(lo + t, q))))
            else:
                c.check('average', abs(got * ws - num) <= TOL * max(1, abs(num), ws))
                c.check('nsamples', abs(c.at(an, (w, q)) - sum(un(lo + t, q) * sm(lo + t, q) for t in range(L))) <= 1e-9 * max(1, L) * 100)
            allf = False if f is None else c.forall(L, lambda t: c.at(f0, (lo + t, q)))
            c.check('flags', c.iff(c.at(af, (w, q)), allf))
        if ex:
            tot = c.sum(L, lambda t: c.at(e0['times'], (lo + t,)))
            got = ea['avg_times'][w]
            c.check('times', c.eq(got * L, tot) if c.symbolic else abs(got * L - tot) <= TOL * max(1, abs(tot), np.max(np.abs(e0['times'])) * L))
    c.check('extra', set(ea) == {'avg_' + k for k in ex} and all(len(v) == nwin for v in ea.values()))
    if ls is None:
        c.check('no-lsts', len(al) == 0)
    else:
        c.shape_is('lst-number', al, (nwin,))
        c.check_same('frame.lsts', ls, l0)
    c.check_same('frame.data', d, d0)
    if f is not None:
        c.check_same('frame.flags', f, f0)
    if ns is not None:
        c.check_same('frame.nsamples', ns, n0)
    for k in ex:
        c.check_same('frame.extra', ex[k], e0[k])


TA = [('nsample', True, True, True, 1), ('nsample', True, True, True, 2), ('favg', True, True, False, 1), ('favg', True, True, False, 2),
      ('uniform', True, True, False, 1), ('uniform', True, True, False, 2), ('nsample', False, True, False, 2), ('nsample', True, False, False, 2),
      ('nsample', False, False, False, 1), ('favg', True, False, False, 1)]


@contract('C14', 'timeavg', ['frf.timeavg_waterfall'], mode='proof', trials=120, timeout=250)
def timeavg(c):
    """one or two windows of any length over any number of channels: weighted means, flagged only if all are, summed nsamples"""
    nf = c.dim('nf', lo=1)
    if c.symbolic:
        wmode, have_f, have_n, extra, K = c.choice('case', TA)
        N, nt = c.dim('navg', lo=1), c.dim('nt', lo=1)
        c.assume(c.and_(nt <= N * K, nt > N * (K - 1), nt >= N))
        tavg(c, nt, N, nf, False, False, wmode, have_f, have_n, extra, K)
    else:
        wmode = c.choice('weights', ['nsample', 'favg', 'uniform'])
        have_f, have_n = c.choice('given', [(True, True), (True, False), (False, True), (False, False)])
        nt = c.int('nt', 1, 12)
        tavg(c, nt, c.int('navg', 1, nt), nf, c.choice('lsts', [True, False]), False, wmode, have_f, have_n, c.choice('extra', [True, False]))


TL = [(1, 1, False, 'nsample'), (3, 1, False, 'nsample'), (3, 2, False, 'nsample'), (3, 2, True, 'nsample'), (4, 2, True, 'uniform'), (5, 2, False, 'favg'), (3, 3, True, 'favg')]


@contract('C14', 'timeavg_lsts', ['frf.timeavg_waterfall'], mode='bounded', bound='up to 5 integrations in up to 3 windows; any number of channels, any data and LSTs', trials=150, timeout=250,
          assumptions=['utils.lst_rephase is used through its C13 contract (called with the shift to the window centre, not in place)'])
def timeavg_lsts(c):
    """several windows, with LSTs (averaged after unwrapping, wrapped back) and with rephasing to the window centre"""
    nf = c.dim('nf', lo=1)
    if c.symbolic:
        nt, N, reph, wmode = c.choice('case', TL)
        tavg(c, nt, N, nf, True, reph, wmode, True, True, nt == 3)
    else:
        nt = c.int('nt', 1, 12)
        tavg(c, nt, c.int('navg', 1, nt), nf, True, c.choice('rephase', [True, True, False]), c.choice('weights', ['nsample', 'favg', 'uniform']), c.choice('flags', [True, True, False]), c.choice('ns', [True, True, False]), True)


@contract('C14', 'timeavg_args', ['frf.timeavg_waterfall'], mode='proof', trials=20, timeout=60)
def timeavg_args(c):
    """window lengths outside 1..Ntimes, both weightings at once, and rephasing without coordinates are refused"""
    nt, nf = c.dim('nt', lo=1), c.dim('nf', lo=1)
    d = c.array('d', (nt, nf), complex)
    N = c.int('N', -2, 40)
    if bool(c.or_(N <= 0, N > nt)):
        c.check('length', raises(AssertionError, lambda: frf.timeavg_waterfall(d, N, verbose=False)))
    c.check('both', raises(ValueError, lambda: frf.timeavg_waterfall(d, 1, wgt_by_favg_nsample=True, verbose=False)))
    full = dict(lsts=np.zeros(3), freqs=np.ones(3), bl_vec=np.ones(3))
    full[c.choice('missing', sorted(full))] = None
    c.check('coords', raises(AssertionError, lambda: frf.timeavg_waterfall(d, 1, rephase=True, verbose=False, **full)))


@contract('C14', 'timeavg_data', ['frf.FRFilter.timeavg_data'], mode='bounded', bound='3 or 7 integrations, 3 keys, listed window lengths; any number of channels, any data', trials=60, timeout=120,
          assumptions=['frf.timeavg_waterfall is used through its contract (timeavg, timeavg_lsts)'])
def timeavg_data(c):
    """every key asked for is averaged over windows of the nearest whole number of integrations and filed under its own name"""
    nf = c.dim('nf', lo=1)
    n_t = nt = c.choice('ntimes', [3, 7])
    dt = c.choice('dt', [10.0, 21.5])
    times = 2459000.0 + np.arange(n_t) * dt / 86400
    ratio, navg = c.choice('t_avg', [(2.2, 2), (1.0, 1), (0.6, 1), (2.8, 3), (1e5, n_t)])
    D = {k: c.array(f'd{q}', (nt, nf), complex) for q, k in enumerate(KEYS)}
    F = {k: c.array(f'f{q}', (nt, nf), bool) for q, k in enumerate(KEYS)} if c.choice('flags', [True, False]) else None
    S = {k: c.array(f'n{q}', (nt, nf), float, lo=0, hi=9) for q, k in enumerate(KEYS)} if F is not None else None
    lsts = (6.1 + np.arange(n_t) * .05) % (2 * np.pi)
    fr = np.linspace(1e8, 2e8, 5) if c.symbolic else np.linspace(1e8, 2e8, nf)
    bl = {k[:2]: np.array([10.0 * k[1], 3.0 * k[0], 1.0]) for k in KEYS}
    keys = c.choice('keys', [None, [KEYS[2], KEYS[0]]])
    reph, wm = c.choice('opts', [(False, 'nsample'), (True, 'favg'), (True, 'uniform')])
    kw = dict(rephase=reph, wgt_by_nsample=wm == 'nsample', wgt_by_favg_nsample=wm == 'favg', verbose=False, keys=keys)
    pre, post = c.choice('names', [('avg', ''), ('m', 'q')])
    nm = lambda w: f'{pre}_{w}' + ('_' + post if post else '')
    o = filt(freqs=fr, blvecs=bl, lat=-30.5)
    real, calls = frf.timeavg_waterfall, []

    def stub(d, N, **k):
        r = len(calls)
        if c.symbolic:
            at = [1.5 * q for q in range(-(-n_t // N))]
            out = (c.array(f'o{r}', (len(at), nf), complex), c.array(f'g{r}', (len(at), nf), bool), c.array(f's{r}', (len(at), nf), float), np.array([2.5 * q for q in range(len(at))]), {'avg_times': at})
        else:
            out = real(d, N, **k)
        calls.append((d, N, k, out))
        return out
    frf.timeavg_waterfall = stub
    try:
        o.timeavg_data(DataContainer(dict(D)), times, lsts, ratio * dt, flags=None if F is None else DataContainer(dict(F)), nsamples=None if S is None else DataContainer(dict(S)), output_prefix=pre, output_postfix=post, **kw)
        if not calls:
            raise Unsupported('averaging without the contracted callee')
        use = KEYS if keys is None else keys
        c.check('one-each', len(calls) == len(use))
        c.check('navg', o.Navg == navg and abs(o.t_avg - navg * dt) < 1e-3)
        done = []
        for d, N, k, out in calls:
            me = [q for q in use if d is D[q]]
            c.check('own-data', len(me) == 1)
            q = me[0]
            done.append(q)
            c.check('length', N == navg)
            if F is not None:
                c.check('own-flags', k['flags'] is F[q] and k['nsamples'] is S[q])
            else:
                fl, sm = k.get('flags'), k.get('nsamples')
                if fl is not None:
                    c.check_array('no-flags', fl, (nt, nf), lambda i: c.eq(0, 1))
                if sm is not None:
                    c.check_array('unit-nsamples', sm, (nt, nf), lambda i: 1.0)
            c.check('modes', bool(k.get('rephase', False)) == reph and bool(k.get('wgt_by_nsample', True)) == (wm == 'nsample') and bool(k.get('wgt_by_favg_nsample', False)) == (wm == 'favg'))
            c.check('coords', np.array_equal(k['lsts'], lsts) and (not reph or (np.array_equal(k['freqs'], fr) and np.array_equal(k['bl_vec'], bl[q[:2]]) and k['lat'] == -30.5)))
            ea = k.get('extra_arrays', {})
            c.check('times-averaged', 'times' in ea and np.array_equal(ea['times'], times))
            c.check_same('data', getattr(o, nm('data'))[q], out[0])
            c.check_same('flags', getattr(o, nm('flags'))[q], out[1])
            c.check_same('nsamples', getattr(o, nm('nsamples'))[q], out[2])
        c.check('all-keys', sorted(done) == sorted(use))
        for w in ('data', 'flags', 'nsamples'):
            c.check('keys', set(getattr(o, nm(w)).keys()) == set(use))
        at, al = np.asarray(calls[-1][3][4]['avg_times']), np.asarray(calls[-1][3][3])
        c.check('times', np.array_equal(getattr(o, nm('times')), at))
        c.check('lsts', np.array_equal(getattr(o, nm('lsts')), al))
        # a second call without overwrite leaves what is there
        before = {w: dict(getattr(o, nm(w)).items()) for w in ('data', 'flags', 'nsamples')}
        n0 = len(calls)
        o.timeavg_data(DataContainer(dict(D)), times, lsts, ratio * dt, output_prefix=pre, output_postfix=post, **kw)
        c.check('kept', len(calls) == n0 and all(getattr(o, nm(w))[q] is v for w in before for q, v in before[w].items()))
        c.check('kept-times', np.array_equal(getattr(o, nm('times')), at) and np.array_equal(getattr(o, nm('lsts')), al))
        c.check('too-short', raises(AssertionError, lambda: o.timeavg_data(DataContainer(dict(D)), times, lsts, dt * .3, output_prefix=pre, output_postfix=post, **kw)))
    finally:
        frf.timeavg_waterfall = real


@contract('C14', 'zeropad', ['vis_clean.zeropad_array'], mode='proof', trials=100, timeout=100)
def zeropad(c):
    """the data sit between pads of zeros (True for flags), the bin values continue with the typical step, and undoing gives both back"""
    nd = c.choice('ndim', [1, 2])
    kind = c.choice('dtype', [complex, bool, float])
    shape = tuple(c.dim(f'n{q}', lo=1) for q in range(nd))
    d = c.array('d', shape, kind)
    d0 = c.snapshot(d)
    zp = c.int('zp', 0, 50) if not c.symbolic else c.choice('zp', ['sym', 0])
    if c.symbolic and zp == 'sym':
        zp = c.int('zp', 1, 1000)
    ax = c.choice('axis', [-1, 0, nd - 1])
    a = ax % nd
    o, b = vis_clean.zeropad_array(d, zeropad=zp, axis=ax)
    c.check('no-bins', b is None)
    out = tuple(n + 2 * zp if q == a else n for q, n in enumerate(shape))
    fill = c.eq(0, 0) if kind is bool else 0

    def spec(i):
        inside = c.and_(i[a] >= zp, i[a] < zp + shape[a])
        j = tuple(c.ite(inside, x - zp, 0) if q == a else x for q, x in enumerate(i))
        return c.ite(inside, c.at(d0, j), fill)
    c.check_array('padded', o, out, spec)
    c.check('type', o.dtype == d.dtype)
    u, b = vis_clean.zeropad_array(o, zeropad=zp, axis=ax, undo=True)
    c.check('no-bins', b is None)
    c.check_array('undone', u, shape, lambda i: c.at(d0, i))
    c.check_same('frame', d, d0)


@contract('C14', 'zeropad_bins', ['vis_clean.zeropad_array'], mode='bounded', bound='2 to 4 bins, pads up to 3', trials=100, timeout=100)
def zeropad_bins(c):
    n = c.choice('n', [2, 3, 4])
    z = c.choice('z', [1, 3])
    x = c.array('x', (n,), float)
    d = c.array('d', (2, n), complex)
    x0, d0 = c.snapshot(x), c.snapshot(d)
    df = [c.at(x0, (q + 1,)) - c.at(x0, (q,)) for q in range(n - 1)]
    o, b = vis_clean.zeropad_array(d, binvals=x, zeropad=z, axis=1)
    c.shape_is('bins', b, (n + 2 * z,))
    c.shape_is('data', o, (2, n + 2 * z))
    if n == 2:
        dx = df[0]
    elif n == 3:
        dx = (df[0] + df[1]) / 2
    else:
        u, v, w = df
        dx = c.ite(c.or_(c.and_(u <= v, v <= w), c.and_(w <= v, v <= u)), v, c.ite(c.or_(c.and_(v <= u, u <= w), c.and_(w <= u, u <= v)), u, w))
    eq = c.eq if c.symbolic else (lambda p, q: abs(p - q) <= 1e-9 * max(1, abs(p), abs(q), np.max(np.abs(x0)) * 10))
    for q in range(n):
        c.check('inside', c.eq(c.at(b, (z + q,)), c.at(x0, (q,))))
    for q in range(z):
        c.check('below', eq(c.at(b, (q,)), c.at(x0, (0,)) - (z - q) * dx))
        c.check('above', eq(c.at(b, (z + n + q,)), c.at(x0, (n - 1,)) + (q + 1) * dx))
    u, bu = vis_clean.zeropad_array(o, binvals=b, zeropad=z, axis=1, undo=True)
    c.check_array('undone', bu, (n,), lambda i: c.at(x0, i))
    c.check_array('undone.data', u, (2, n), lambda i: c.at(d0, i))
    c.check_same('frame', x, x0)


@contract('C14', 'zeropad_axes', ['vis_clean.zeropad_array'], mode='proof', trials=60, timeout=60)
def zeropad_axes(c):
    """both axes at once"""
    nt, nf = c.dim('nt', lo=2), c.dim('nf', lo=2)
    kind = c.choice('dtype', [complex, bool])
    d = c.array('d', (nt, nf), kind)
    d0 = c.snapshot(d)
    z = [c.int('z0', 0, 9), c.int('z1', 0, 9)]
    axes = c.choice('axes', [(0, 1), [1, 0]])
    o, b = vis_clean.zeropad_array(d, binvals=[None, None], zeropad=tuple(z), axis=axes)
    za, zb = (z[0], z[1]) if axes[0] == 0 else (z[1], z[0])
    fill = c.eq(0, 0) if kind is bool else 0

    def spec(i):
        inside = c.and_(i[0] >= za, i[0] < za + nt, i[1] >= zb, i[1] < zb + nf)
        return c.ite(inside, c.at(d0, (c.ite(inside, i[0] - za, 0), c.ite(inside, i[1] - zb, 0))), fill)
    c.check_array('padded', o, (nt + 2 * za, nf + 2 * zb), spec)
    u, b = vis_clean.zeropad_array(o, binvals=[None, None], zeropad=tuple(z), axis=axes, undo=True)
    c.check_array('undone', u, (nt, nf), lambda i: c.at(d0, i))
    c.check('lengths', raises(ValueError, lambda: vis_clean.zeropad_array(d, zeropad=(1, 2), axis=0)))


def chunks_of(x, tol=1e-3):
    """maximal runs with the smallest step (spec)"""
    st = [x[q + 1] - x[q] for q in range(len(x) - 1)]
    m = min(st)
    cut = [q + 1 for q in range(len(st)) if abs(st[q] - m) > m * tol]
    e = [0] + cut + [len(x)]
    return list(zip(e[:-1], e[1:]))


@contract('C14', 'discontinuities', ['vis_clean.find_discontinuity_edges'], mode='bounded', bound='2 to 5 increasing values (any reals)', trials=100, timeout=100)
def discontinuities(c):
    """contiguous index ranges that cover the axis, cut exactly where the step exceeds the smallest one"""
    n = c.choice('n', [2, 3, 4, 5])
    if c.symbolic:
        x = c.array('x', (n,), float)
        xs = [c.at(x, (q,)) for q in range(n)]
        for q in range(n - 1):
            c.assume(xs[q + 1] > xs[q])
    else:
        rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
        x = c.choice('off', [0.0, 1e6]) + np.cumsum(rng.choice([1.0, 1.0, 1.0, 2.0, 5.5], n)) * c.choice('unit', [.25, 1.0, 1e4])
        xs = list(x)
    o = vis_clean.find_discontinuity_edges(x)
    st = [xs[q + 1] - xs[q] for q in range(n - 1)]
    got = {int(a) for a, b in o}
    c.check('cover', [int(a) for a, b in o] == [0] + [int(b) for a, b in o][:-1] and int(o[-1][1]) == n and all(a < b for a, b in o))
    for q in range(n - 1):
        far = c.or_(*[c.absv(st[q] - m) > m * 1e-3 for m in [_min(c, st)]])
        c.check('cut', c.iff(c.eq(0, 0 if (q + 1) in got else 1), far))


def _min(c, xs):
    m = xs[0]
    for x in xs[1:]:
        m = c.ite(x < m, x, m)
    return m


AXES = {'gap': [0., 1., 2., 5., 6., 7.], 'two': [0., 1., 4., 5., 9., 10.], 'plain': [0., 1., 2., 3., 4., 5.], 'lone': [0., 1., 2., 3., 8., 20.]}


def trunc_spec(wz, x):
    """(kept indices, edges, chunks) along the second axis; wz[t][f] true where the weight is zero"""
    ch = chunks_of(x)
    keep, edges = [], []
    for a, b in ch:
        live = [f for f in range(a, b) if not all(r[f] for r in wz)]
        if live:
            keep += range(min(live), max(live) + 1)
            edges.append((min(live) - a, b - 1 - max(live)))
        else:
            edges.append((0, b - a))
    return keep, edges, ch


def same_list(a, b):
    return [tuple(int(q) for q in p) for p in a] == [tuple(p) for p in b]


def trunc_case(c, d, w, xt, xf, ax):
    nt, nf = w.shape
    w0, d0 = w.copy(), c.snapshot(d)
    zero = [[abs(w0[t, f]) <= 1e-8 for f in range(nf)] for t in range(nt)]
    T = lambda z: [list(r) for r in zip(*z)]
    kt, kf = list(range(nt)), list(range(nf))
    if ax == 'freq':
        kf, ef, cf = trunc_spec(zero, xf)
        x, d1, w1, e, ch = vis_clean.truncate_flagged_edges(d, w, np.array(xf))
        c.check('x', np.array_equal(x, np.array(xf)[kf]))
        c.check('edges', same_list(e, ef) and same_list(ch, cf))
    elif ax == 'time':
        kt, et, ct = trunc_spec(T(zero), xt)
        x, d1, w1, e, ch = vis_clean.truncate_flagged_edges(d, w, np.array(xt), ax='time')
        c.check('x', np.array_equal(x, np.array(xt)[kt]))
        c.check('edges', same_list(e, et) and same_list(ch, ct))
    else:
        kf, ef, cf = trunc_spec(zero, xf)
        kt, et, ct = trunc_spec([[zero[t][f] for t in range(nt)] for f in kf] if kf else [[True] * nt], xt)
        x, d1, w1, e, ch = vis_clean.truncate_flagged_edges(d, w, [np.array(xt), np.array(xf)], ax='both')
        c.check('x', len(x) == 2 and np.array_equal(x[0], np.array(xt)[kt]) and np.array_equal(x[1], np.array(xf)[kf]))
        c.check('edges', same_list(e[0], et) and same_list(e[1], ef) and same_list(ch[0], ct) and same_list(ch[1], cf))
    c.shape_is('shape', d1, (len(kt), len(kf)))
    c.check('weights', np.array_equal(w1, w0[np.ix_(kt, kf)]))
    for a, t in enumerate(kt):
        for b, f in enumerate(kf):
            c.check('kept', c.eq(c.at(d1, (a, b)), c.at(d0, (t, f))))
    r = vis_clean.restore_flagged_edges(d1, ch, e, ax=ax)
    c.shape_is('restored-shape', r, (nt, nf))
    for t in range(nt):
        for f in range(nf):
            c.check('restored', c.eq(c.at(r, (t, f)), c.at(d0, (t, f)) if t in kt and f in kf else 0))
    c.check('frame.weights', np.array_equal(w, w0))
    c.check_same('frame.data', d, d0)


@contract('C14', 'truncate', ['vis_clean.truncate_flagged_edges', 'vis_clean.restore_flagged_edges', 'vis_clean.find_discontinuity_edges'], mode='bounded', bound='every weight pattern of 1 x 6, 2 x 3 and 3 x 3 waterfalls, listed axes with gaps; any data', trials=20, timeout=200, paths=20000)
def truncate(c):
    """wholly flagged channels / integrations at the edges of contiguous chunks are dropped, all else kept; restoring puts zeros back there"""
    nt, nf, xf, ax = c.choice('case', [(1, 6, 'gap', 'freq'), (1, 6, 'two', 'freq'), (1, 6, 'lone', 'freq'), (6, 1, 'gap', 'time'), (2, 3, 'plain', 'freq'), (3, 2, 'plain', 'time'), (3, 3, 'plain', 'both'), (2, 4, 'two', 'freq')])
    x = AXES[xf]
    w = np.array([[c.choice(f'w{t}.{f}', [0.0, 1.0]) for f in range(nf)] for t in range(nt)]) * .7
    d = np.arange(1, nt * nf + 1, dtype=complex).reshape(nt, nf) * (1 - .5j)
    trunc_case(c, d, w, x[:nt], x[:nf], ax)


@contract('C14', 'truncate_random', ['vis_clean.truncate_flagged_edges', 'vis_clean.restore_flagged_edges', 'vis_clean.find_discontinuity_edges'], mode='concrete', bound='random waterfalls up to 7 x 12', trials=200, timeout=60)
def truncate_random(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    ax = c.choice('ax', ['freq', 'time', 'both'])
    nt, nf = c.int('nt', 2, 7), c.int('nf', 2, 12)
    xs = [list(np.cumsum(rng.choice([1., 1., 1., 3.], n))) for n in (nt, nf)]
    w = rng.random((nt, nf)) * (rng.random((nt, nf)) < c.choice('dens', [.15, .5, .9])) * (rng.random(nf) < .7) * (rng.random(nt) < .8)[:, None]
    w[w < .01] = 0
    d = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    trunc_case(c, d, w, xs[0], xs[1], ax)


def long_run(row, m):
    n = best = 0
    for z in row:
        n = n + 1 if z else 0
        best = max(best, n)
    return best >= m


def rows_case(c, f, w, spec_row, lim, ax):
    """apply `spec_row(zeros, lim) -> flag the row` to rows, columns, or rows and then columns"""
    w0 = w.copy()
    o = f(w, lim if ax != 'both' else list(lim))
    s = w0.copy()
    if ax in ('freq', 'both'):
        for t in range(s.shape[0]):
            if spec_row(list(w0[t] == 0), lim[1] if ax == 'both' else lim, 1):
                s[t] = 0
    if ax in ('time', 'both'):
        s1 = s.copy()
        for q in range(s.shape[1]):
            if spec_row(list(s[:, q] == 0), lim[0] if ax == 'both' else lim, 0):
                s1[:, q] = 0
        s = s1
    c.check('shape', o.shape == w0.shape)
    c.check('rows', bool(np.array_equal(o, s)))
    c.check('frame', bool(np.array_equal(w, w0)))


@contract('C14', 'contiguous', ['vis_clean.flag_rows_with_contiguous_flags'], mode='bounded', bound='every weight pattern up to 1 x 7 / 7 x 1 / 3 x 3, every limit', trials=20, timeout=200, paths=20000)
def contiguous(c):
    """exactly the rows with a run of zero weights of at least the limit are zeroed"""
    nt, nf, ax = c.choice('case', [(1, 7, 'freq'), (7, 1, 'time'), (3, 3, 'both'), (2, 3, 'freq')])
    w = np.array([[c.choice(f'w{t}.{f}', [0.0, 1.0]) for f in range(nf)] for t in range(nt)])
    for lim in ([(1, 2), (2, 2), (2, 3), (3, 1), (4, 4)] if ax == 'both' else range(1, max(nt, nf) + 2)):
        rows_case(c, lambda v, l: vis_clean.flag_rows_with_contiguous_flags(v, l, ax=ax), w, lambda z, m, _: long_run(z, m), lim, ax)


@contract('C14', 'contiguous_random', ['vis_clean.flag_rows_with_contiguous_flags'], mode='concrete', bound='random weights up to 6 x 14', trials=150, timeout=60)
def contiguous_random(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    ax = c.choice('ax', ['freq', 'time', 'both'])
    nt, nf = c.int('nt', 1, 6), c.int('nf', 1, 14)
    w = rng.random((nt, nf)) * (rng.random((nt, nf)) < c.choice('dens', [.3, .6, .9]))
    lim = (int(rng.integers(1, 6)), int(rng.integers(1, 8))) if ax == 'both' else int(rng.integers(1, 8))
    rows_case(c, lambda v, l: vis_clean.flag_rows_with_contiguous_flags(v, l, ax=ax), w, lambda z, m, _: long_run(z, m), lim, ax)


@contract('C14', 'edge_distance', ['vis_clean.flag_rows_with_flags_within_edge_distance', 'vis_clean.find_discontinuity_edges'], mode='concrete', bound='random weights, up to 3 chunks of 2 to 6 samples per axis, distances within a chunk', trials=200, timeout=60)
def edge_distance(c):
    """exactly the rows with a zero weight within the distance of a chunk edge are zeroed"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    ax = c.choice('ax', ['freq', 'time', 'both'])

    def axis():
        x, p = [], 0.0
        sizes = [int(q) for q in rng.integers(2, 7, int(rng.integers(1, 4)))]
        for s in sizes:
            x += [p + q for q in range(s)]
            p = x[-1] + float(rng.choice([2, 3.5]))
        return x, min(sizes)
    (xt, mt), (xf, mf) = axis(), axis()
    w = rng.random((len(xt), len(xf))) + .01
    w[rng.random(w.shape) < c.choice('dens', [.02, .1, .4])] = 0
    dt_, df_ = int(rng.integers(0, mt)), int(rng.integers(0, mf))
    ch = {0: chunks_of(xt), 1: chunks_of(xf)}

    def spec(z, m, which):
        return any(z[q] for a, b in ch[which] for q in range(a, b) if q <= a + m or q >= b - 1 - m)
    x = np.array(xf) if ax == 'freq' else np.array(xt) if ax == 'time' else [np.array(xt), np.array(xf)]
    lim = df_ if ax == 'freq' else dt_ if ax == 'time' else (dt_, df_)
    rows_case(c, lambda v, l: vis_clean.flag_rows_with_flags_within_edge_distance(x, v, l, ax=ax), w, spec, lim, ax)


@contract('C14', 'trim_status', ['vis_clean._trim_status'], mode='bounded', bound='up to 8 integrations, pads up to 3', trials=30, timeout=60)
def trim_status(c):
    """the pad's statuses are dropped and the others renumbered from zero"""
    z, m, ax = c.choice('z', [0, 1, 2, 3]), c.choice('m', [0, 1, 2, 4]), c.choice('axis', [0, 1])
    info = {'status': {f'axis_{ax}': {q: ('s', q) for q in range(m + 2 * z)}, f'axis_{1 - ax}': {0: 'x', 1: 'y'}}}
    r = vis_clean._trim_status(info, ax, z)
    c.check('trimmed', r is None and info['status'][f'axis_{ax}'] == {q: ('s', q + z) for q in range(m)})
    c.check('other-axis', info['status'][f'axis_{1 - ax}'] == {0: 'x', 1: 'y'})
