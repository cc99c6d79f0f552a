"""C09: LST binning assigns every integration to its own bin, with all its attributes."""
from pyvc.engine import contract, Skip
from pyvc.terms import PathEnd
from contracts.lib import rev, keq, raises
from hera_cal.lst_stack import binning, config
from hera_cal.lst_stack import io as lio
from hera_cal.red_groups import RedundantGroups
from hera_cal.datacontainer import DataContainer
from types import SimpleNamespace
from pathlib import Path
import itertools
import os
import logging
import tempfile
logging.disable(logging.WARNING)
import numpy as np

LEVEL = 'other'
ASSUMPTIONS = ['C09: bin edges increase and span at most 2 pi; 2 pi is the double-precision value the code uses',
               'C09: the files are behind their documented contract: a reader returns the requested rows, baselines and polarizations of a file']
TP = 2 * np.pi


def edges_of(c, m, start=(0, TP)):
    """m increasing edges, spanning at most 2 pi"""
    e0 = c.real('e0', lo=start[0], hi=start[1], conc=lambda r: r.uniform(*start))
    c.assume(c.not_(c.eq(e0, start[1])))
    out = [e0]
    for q in range(m - 1):
        w = c.real(f'w{q}', lo=0, hi=TP, conc=lambda r: r.uniform(0, TP) if r.random() < .3 else r.uniform(0, TP / (m - 1)))
        c.assume(c.not_(c.eq(w, 0)))
        out.append(out[-1] + w)
    c.assume(out[-1] - out[0] <= TP)
    return out


def arr_of(c, name, vals):
    """a fresh array holding the given values"""
    a = c.array(name, (len(vals),), float)
    for q, v in enumerate(vals):
        c.assume(c.eq(c.at(a, (q,)), v)) if c.symbolic else None
        if not c.symbolic:
            a[q] = v
    return a


def bin_of(c, x, e):
    """[condition that an LST x in [0, 2 pi) belongs to bin b] for every bin b of the edges e"""
    return [c.or_(c.and_(e[b] < x, x <= e[b + 1]), c.and_(e[b] < x + TP, x + TP <= e[b + 1])) for b in range(len(e) - 1)]


def not_lowest(c, x, lo, hi):
    """on a grid covering the whole circle, the lowest edge itself is the one point left out"""
    return c.or_(hi - lo < TP, c.and_(*[c.not_(c.eq(x + k * TP, lo)) for k in (-2, -1, 0, 1, 2, 3)]))


def lst_in(c, name, hi=2):
    """an LST on any branch: x + 2 pi k"""
    x = c.real(name, lo=0, hi=TP, conc=lambda r: r.uniform(0, TP))
    c.assume(c.not_(c.eq(x, TP)))
    k = c.choice(name + '.wrap', [0, 1, -1]) if hi else 0
    return x, x + TP * k


@contract('C09', 'adjust_edges', ['lst_stack.binning.adjust_lst_bin_edges'], mode='bounded', bound='up to 4 edges, first edge within three turns of zero', trials=120, timeout=60)
def adj(c):
    """whole turns only, first edge ends in [0, 2 pi)"""
    m = c.bdim('m', [1, 2, 4])
    e = edges_of(c, m, (-3 * TP, 3 * TP))
    a = arr_of(c, 'edges', e)
    binning.adjust_lst_bin_edges(a)
    n0 = c.at(a, (0,))
    c.check('first-in-range', c.and_(n0 >= 0, n0 < TP) if c.symbolic else -1e-9 <= n0 < TP + 1e-9)
    c.check('whole-turns', c.or_(*[c.eq(n0, e[0] + k * TP) for k in range(-4, 5)]))
    for q in range(m):
        c.check('all-edges-together', c.eq(c.at(a, (q,)) - n0, e[q] - e[0]))


@contract('C09', 'adjust_rejects', ['lst_stack.binning.adjust_lst_bin_edges'], mode='bounded', bound='three edges', trials=40, timeout=30)
def adjr(c):
    a = c.array('edges', (3,), float)
    e = [c.at(a, (q,)) for q in range(3)]
    c.assume(c.or_(e[1] < e[0], e[2] < e[1]))
    c.check('decreasing-rejected', raises(ValueError, lambda: binning.adjust_lst_bin_edges(a)))


def _bins(c, m):
    e = edges_of(c, m)
    n = c.dim('n')
    x = c.array('x', (n,), float, lo=0, hi=TP)
    k = c.array('k', (n,), int, lo=-2, hi=2)
    lsts = x + k * TP
    a = arr_of(c, 'edges', e)
    a0, l0 = c.snapshot(a), c.snapshot(lsts)
    bins, out, mask = binning.get_lst_bins(lsts, a)
    c.shape_is('bins-shape', bins, (n,))
    for (t,) in c.indices(n):
        xt = c.at(x, (t,))
        if c.symbolic:
            c.assume(xt < TP)
            c.assume(not_lowest(c, xt, e[0], e[-1]))
        else:
            # away from the edges, where rounding decides
            if min([abs((xt - q + TP / 2) % TP - TP / 2) for q in e + [0., TP]]) < 1e-9:
                continue
        inb = bin_of(c, xt, e)
        c.check('mask', c.iff(c.at(mask, (t,)), c.or_(*inb)))
        for b, cond in enumerate(inb):
            c.check('own-bin', c.iff(c.eq(c.at(bins, (t,)), b), cond))
        y = c.at(out, (t,))
        c.check('same-lst', c.or_(c.eq(y, xt), c.eq(y, xt + TP)))
        c.check('above-first-edge', c.implies(c.at(mask, (t,)), c.and_(y >= e[0], y <= e[-1])))
        for b, cond in enumerate(inb):
            c.check('lst-within-bin', c.implies(cond, c.and_(e[b] < y, y <= e[b + 1])))
    c.check_same('edges-unchanged', a, a0)
    c.check_same('lsts-unchanged', lsts, l0)


for _m in (2, 3, 5):
    @contract('C09', f'get_lst_bins_{_m}', ['lst_stack.binning.get_lst_bins'], mode='bounded', bound=f'{_m} edges (any values, any span up to 2 pi); any number of LSTs on any branch within two turns', trials=80, timeout=120)
    def gb(c, m=_m):
        _bins(c, m)


@contract('C09', 'permute_rows', ['lst_stack.binning._permute_rows_inplace'], mode='bounded', bound='every permutation of up to 4 rows; any row shape and contents', trials=100, timeout=90, paths=3000)
def perm(c):
    n = c.bdim('n', [1, 2, 3, 4], conc=range(1, 8))
    if c.symbolic or n <= 4:
        p = np.array(c.choice('perm', [list(q) for q in itertools.permutations(range(n))]))
    else:
        p = np.random.default_rng(c.int('seed', 0, 10 ** 6)).permutation(n)
    nf = c.dim('nf')
    A = [c.array('d', (n, nf), complex), c.array('f', (n, nf), bool), c.array('s', (n,), float)]
    A0 = [c.snapshot(a) for a in A]
    p0 = p.copy()
    r = binning._permute_rows_inplace(A, p)
    for nm, a, a0 in zip(('data', 'flags', 'times'), A, A0):
        c.check_array(nm, a, (n, nf) if nm != 'times' else (n,), lambda idx: c.at(a0, (int(p0[int(idx[0])]),) + tuple(idx[1:])) if not c.symbolic or isinstance(idx[0], int) else _row(c, a0, p0, idx))
    c.check('perm-unchanged', bool((p == p0).all()))


def _row(c, a0, p, idx):
    r = c.at(a0, (int(p[-1]),) + tuple(idx[1:]))
    for q in range(len(p) - 1):
        r = c.ite(c.eq(idx[0], q), c.at(a0, (int(p[q]),) + tuple(idx[1:])), r)
    return r


@contract('C09', 'permute_rejects', ['lst_stack.binning._permute_rows_inplace'], mode='concrete', bound='fixed', trials=3, timeout=10)
def permr(c):
    c.check('lengths', raises(ValueError, lambda: binning._permute_rows_inplace([np.zeros(3), np.zeros(2)], np.arange(3))))
    c.check('none', binning._permute_rows_inplace([], np.arange(0)) is None)


def phase(c, u, f, s):
    """the factor the re-phasing contract promises: depends on baseline vector, frequency and shift only (1 when there is no shift)"""
    if c.symbolic:
        import z3
        from pyvc import terms as T
        R = z3.RealSort()
        P, Q = z3.Function('phase.re', R, R, R, R), z3.Function('phase.im', R, R, R, R)
        z = [T.lift(v).to('f').re for v in (u, f, s)]
        return c.ite(c.eq(s, 0), 1.0 + 0j, T.Sym('c', P(*z), Q(*z)))
    return np.exp(1j * float(u) * float(f) * float(s)) if s != 0 else 1.0


def c_elementwise(c, shape, fn):
    if c.symbolic:
        from pyvc import arr as A
        return A.SymArray(tuple(A.dim(s) for s in shape), np.dtype(complex), fn)
    out = np.empty(shape, complex)
    for idx in np.ndindex(*shape):
        out[idx] = fn(idx)
    return out


def _mk_align(n, m, rephase, wip, given):
    nm = f'align_{n}x{m - 1}{"_rephase" if rephase else ""}{"_wip" if wip else ""}{"" if given else "_defaults"}'

    @contract('C09', nm, ['lst_stack.binning.lst_align', 'lst_stack.binning.get_lst_bins', 'lst_stack.binning._permute_rows_inplace'], mode='bounded',
              bound=f'{n} integrations, {m - 1} bins, two baselines; any LSTs, edges, number of channels and contents', trials=60, timeout=200, paths=6000,
              assumptions=['lst_align is checked against the contract of utils.lst_rephase (C13): multiplication by a factor of baseline vector, frequency and shift'] if rephase else [])
    def f(c):
        align2(c, n, m, rephase, wip, given)


def align2(c, n, m, rephase, wip, given):
    nf = c.dim('nf')
    nb = 2
    npol = 1
    e = edges_of(c, m)
    shape = (n, nb, nf, npol)
    X = [lst_in(c, f'x{q}', hi=0) for q in range(n)]
    for x, _ in X:
        c.assume(not_lowest(c, x, e[0], e[-1]))
    lsts = arr_of(c, 'lsts', [x[1] for x in X])
    data = c.array('d', shape, complex)
    flags = c.array('f', shape, bool) if given else None
    ns = c.array('n', shape, float, lo=0) if given else None
    wi = c.array('wi', shape, bool) if wip else None
    d0, f0, n0, w0 = [c.snapshot(v) if v is not None else None for v in (data, flags, ns, wi)]
    a = arr_of(c, 'edges', e)
    if not c.symbolic:
        for x, _ in X:
            if min([abs((x - q + TP / 2) % TP - TP / 2) for q in e + [0., TP]]) < 1e-9:
                raise Skip
    freqs = c.array('fr', (nf,), float)
    aps = [(3, 1), (1, 1)]
    pos = {3: c.array('p3', (1,), float), 1: c.array('p1', (1,), float)}
    us = [c.at(pos[3], (0,)) - c.at(pos[1], (0,)), 0.]
    calls = []
    old = binning.utils.lst_rephase

    def stub(data, bls, freqs_, dlst, lat=None, inplace=True, **kw):
        calls.append(1)
        data *= c_elementwise(c, data.shape, lambda idx: phase(c, c.at(bls, (idx[1], 0)), c.at(freqs_, (idx[2],)), c.at(dlst, (idx[0],))))
    try:
        if rephase:
            binning.utils.lst_rephase = stub
        cen, D, F, N, W = binning.lst_align(data, lsts, aps, a, freqs, flags=flags, nsamples=ns, where_inpainted=wi, rephase=rephase, antpos=pos if rephase else None)
    finally:
        binning.utils.lst_rephase = old
    for b in range(m - 1):
        c.check('centre', c.eq(c.at(cen, (b,)), (e[b] + e[b + 1]) / 2))
    c.check('one-list-per-bin', len(D) == len(F) == len(N) == len(W) == m - 1)
    for b in range(m - 1):
        rows = [t for t in range(n) if bool(bin_of(c, X[t][0], e)[b])]
        sh = (len(rows),) + shape[1:]
        for nm, got in (('data', D[b]), ('flags', F[b]), ('nsamples', N[b])):
            c.shape_is(nm + '-rows', got, sh)
        if wip:
            c.shape_is('wip-rows', W[b], sh)
        else:
            c.check('no-wip', W[b] is None)
        for r, t in enumerate(rows):
            for (f,) in c.indices(nf):
                for i in range(nb):
                    o, g = (t, i, f, 0), (r, i, f, 0)
                    v = c.at(d0, o)
                    if rephase:
                        y = X[t][0] if bool(X[t][0] > e[0]) else X[t][0] + TP
                        v = v * phase(c, us[i], c.at(freqs, (f,)), (e[b] + e[b + 1]) / 2 - y)
                    c.check('data', c.eq(c.at(D[b], g), v))
                    c.check('flags', c.iff(c.at(F[b], g), c.at(f0, o) if given else c.eq(0, 1)))
                    c.check('nsamples', c.eq(c.at(N[b], g), c.at(n0, o) if given else 1.0))
                    if wip:
                        c.check('wip', c.iff(c.at(W[b], g), c.at(w0, o)))


for _n, _m, _r, _w, _g in ((1, 3, False, True, True), (2, 2, False, False, False), (2, 3, False, True, True), (3, 3, False, True, True), (1, 3, True, True, True), (2, 2, True, False, True), (2, 3, True, True, True)):
    _mk_align(_n, _m, _r, _w, _g)


@contract('C09', 'roll_to_branch_cut', ['lst_stack.binning.SingleBaselineStacker._roll_lists_to_lst_branch_cut'], mode='bounded', bound='up to 4 bins with up to 2 integrations each', trials=150, timeout=90, paths=4000)
def roll(c):
    """bins keep their contents, are ordered from the cut on, and no LST changes modulo 2 pi"""
    n = c.bdim('n', [1, 2, 3], conc=range(1, 6))
    cen = []
    for q in range(n):
        v = c.real(f'c{q}', lo=0, hi=TP, conc=lambda r: r.uniform(0, TP))
        c.assume(v < TP)
        cen.append(v)
    if not c.symbolic:
        cen = sorted(cen)
    for q in range(n - 1):
        c.assume(cen[q] < cen[q + 1])
    cut = c.real('cut', lo=0, hi=TP, conc=lambda r: r.uniform(0, TP))
    bl = arr_of(c, 'bin_lst', cen)
    lib = [c.array(f'l{q}', (c.dim(f'k{q}', lo=0, hi=2),), float) for q in range(n)]
    l0 = [c.snapshot(v) for v in lib]
    objs = [[('data', q) for q in range(n)], [('flags', q) for q in range(n)]]
    binning.SingleBaselineStacker._roll_lists_to_lst_branch_cut(cut, bl, lib, *objs)
    c.check('lists-together', all(len(o) == n for o in objs) and [x[1] for x in objs[0]] == [x[1] for x in objs[1]] and sorted(x[1] for x in objs[0]) == list(range(n)))
    order = [x[1] for x in objs[0]]
    c.check('lsts-length', len(lib) == n)
    for q in range(n):
        v = c.at(bl, (q,))
        c.check('bin-lst', c.or_(c.and_(c.eq(v, cen[order[q]])), c.eq(v, cen[order[q]] + TP)))
        c.check('from-cut', c.and_(v >= cut, v < cut + TP))
        if q:
            c.check('ordered', c.at(bl, (q - 1,)) < v)
        src = l0[order[q]]
        c.check_array('lsts-in-bin', lib[q], src.shape, lambda idx: c.ite(c.at(src, idx) < cut, c.at(src, idx) + TP, c.at(src, idx)))


class Meta:
    def __init__(self, path, lsts=None, times=None, **kw):
        self.path, self.lsts, self.times = path, lsts, times
        self.__dict__.update(kw)

    def get_transactional(self, k):
        return getattr(self, k)


@contract('C09', 'required_files', ['lst_stack.io.filter_required_files_by_times'], mode='bounded', bound='two nights of one or two files of one or two integrations', trials=150, timeout=120, paths=6000)
def req(c):
    """exactly the integrations inside (lstmin, lstmax], with the cal and inpainting files of their own file"""
    width = c.real('width', lo=0, hi=TP, conc=lambda r: r.choice([TP, r.uniform(0, TP)]))
    lo = c.real('lo', lo=-TP, hi=2 * TP, conc=lambda r: r.uniform(-TP, 2 * TP))
    c.assume(c.not_(c.eq(width, 0)))
    swapped = c.choice('wrapped', [False, True])
    if swapped:
        c.assume(c.not_(c.eq(width, TP)))
    sizes = c.choice('files', [[[1], [2]], [[2, 1]], [[1, 1], []]])
    have = c.choice('extra', [True, False])
    X, night = {}, []
    q = 0
    for nn, fs in enumerate(sizes):
        night.append([])
        for k in fs:
            xs = [lst_in(c, f'x{q}{t}', hi=0)[0] for t in range(k)]
            X[q] = xs
            for x in xs:
                c.assume(not_lowest(c, x, lo, lo + width))
            night[-1].append(Meta(q, arr_of(c, f'lsts{q}', xs)))
            q += 1
    if not c.symbolic:
        for xs in X.values():
            for x in xs:
                if min(abs((x - v + TP / 2) % TP - TP / 2) for v in (0., lo, lo + width)) < 1e-9:
                    raise Skip
    cal = [[('cal', m.path) for m in fl] for fl in night] if have else None
    inp = [[('inp', m.path) for m in fl] for fl in night] if have else None
    hi = lo + width
    T, L, F, C, W = lio.filter_required_files_by_times((lo, hi - TP if swapped else hi), night, cal_files=cal, where_inpainted_files=inp)

    def inside(x):
        return c.or_(*[c.and_(lo < x + k * TP, x + k * TP <= hi) for k in range(-2, 4)])
    want = []
    for q in X:
        sel = [t for t, x in enumerate(X[q]) if bool(inside(x))]
        if sel:
            want.append((q, sel))
    c.check('files', [m.path for m in F] == [q for q, _ in want])
    c.check('rows', len(T) == len(want) and all([int(t) for t in tt] == s for tt, (_, s) in zip(T, want)))
    c.check('cals', C == [('cal', q) for q, _ in want] if have else C is None)
    c.check('inpaint', W == [('inp', q) for q, _ in want] if have else W is None)


# ---------------------------------------------------------------- configuration
@contract('C09', 'file_edges', ['lst_stack.config.LSTBinConfigurator.get_file_lst_edges'], mode='bounded', bound='up to 7 bins, 1 to 8 per file', trials=100, timeout=60)
def fedges(c):
    n = c.bdim('n', [1, 2, 3, 4, 5, 6, 7], conc=range(1, 20))
    k = c.choice('per-file', list(range(1, 9)))
    e = c.array('e', (n + 1,), float)
    ns = SimpleNamespace(lst_grid_edges=e, nlsts_per_file=k, nfiles=-(-n // k))
    got = config.LSTBinConfigurator.get_file_lst_edges(ns)
    want = [c.at(e, (q,)) for q in range(0, n, k)] + [c.at(e, (n,))]
    c.shape_is('count', got, (len(want),))
    for q, w in enumerate(want):
        c.check('edge', c.eq(c.at(got, (q,)), w))


@contract('C09', 'lst_grid', ['lst_stack.config.make_lst_grid', 'lst_stack.config._fix_dlst'], mode='concrete', bound='random bin widths, starts and spans', trials=60, timeout=60)
def lgrid(c):
    """uniform bins that divide 2 pi, no narrower than asked, starting at the bin edge nearest to begin_lst, filling the span asked for"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    dl = float(rng.choice([TP / rng.integers(2, 3000), rng.uniform(0.002, 2.0)]))
    begin = float(rng.choice([0., rng.uniform(0, TP), rng.uniform(-TP, 3 * TP)]))
    width = float(rng.choice([TP, rng.uniform(0, TP)]))
    d = config._fix_dlst(dl)
    nb = TP / d
    c.check('divides', abs(nb - round(nb)) < 1e-6 * nb and d >= dl * (1 - 2e-8) and (round(nb) == 1 or TP / (round(nb) + 1) < dl))
    if width <= d * 1.0001:
        c.check('narrow-rejected', width > d or raises(ValueError, lambda: config.make_lst_grid(dl, begin, width)))
        return
    g = config.make_lst_grid(dl, begin_lst=begin, lst_width=width)
    c.check('spacing', len(g) < 2 or np.allclose(np.diff(g), d, atol=1e-9))
    start = (g[0] - d / 2)
    c.check('on-edge', abs(start / d - round(start / d)) < 1e-4)
    c.check('starts-near', abs((start + d / 2 - begin + TP / 2) % TP - TP / 2) <= d / 2 + 1e-6 or abs((start + d / 2 - begin % TP)) <= d / 2 + 1e-6)
    n = sum(1 for q in range(int(round(nb))) if start + (q + .5) * d < start + width - 1e-9)
    near = any(abs((q + .5) * d - width) < 1e-7 for q in range(int(round(nb)) + 1))
    c.check('fills', near or len(g) == min(n, int(round(nb))))


def _cfg(grid, per, dlst, metas, cal, inp):
    """an LSTConfig whose files are in memory"""
    ns = SimpleNamespace(nlsts_per_file=per, dlst=dlst, n_nights=2)
    return config.LSTConfig(config=ns, lst_grid=grid, matched_files=metas, antpairs=[], autopairs=[], pols=['ee'], inpaint_files=inp, calfiles=cal, properties={})


@contract('C09', 'single_configs', ['lst_stack.config.LSTConfig._get_single_config', 'lst_stack.config.LSTConfig.at_single_bin', 'lst_stack.config.LSTConfig.at_single_outfile',
                                   'lst_stack.config.LSTConfigSingle._time_indices_default', 'lst_stack.config.LSTConfigSingle.get_lsts'], mode='concrete',
          bound='random grids, bins per file (also not dividing the number of bins), two nights of up to 3 files of up to 6 integrations', trials=200, timeout=90)
def single(c):
    """over all output files (or all single bins) every integration inside the grid is read once, by the file or bin that contains it"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nb = int(rng.integers(1, 9))
    d = float(rng.choice([TP / nb, 0.1, 0.3]))
    per = int(rng.integers(1, nb + 2))
    start = float(rng.choice([0., rng.uniform(0, TP)]))
    grid = start + (np.arange(nb) + .5) * d
    if nb * d > TP:
        raise Skip
    nfile = -(-nb // per)
    g2 = np.concatenate([grid, np.full(nfile * per - nb, np.nan)]).reshape(nfile, per)
    lsts = {}
    nights = []
    for nn in range(2):
        nights.append([])
        for q in range(rng.integers(0, 4)):
            nm = f'/x/n{nn}.{q}'
            lsts[nm] = rng.uniform(0, TP, size=rng.integers(1, 7)) if rng.integers(2) else (start + rng.uniform(-d, (nb + 1) * d, size=rng.integers(1, 7))) % TP
            nights[-1].append(nm)
    if not lsts:
        raise Skip
    allx = np.concatenate(list(lsts.values()))
    if min(np.min(np.abs((allx - v + TP / 2) % TP - TP / 2)) for v in list(start + np.arange(nb + 1) * d) + [0.]) < 1e-9:
        raise Skip
    have = bool(rng.integers(2))
    mf = [[[m for m in fl] for fl in nights] for _ in range(nfile)]
    cal = [[[m + '.cal' for m in fl] for fl in nights] for _ in range(nfile)] if have else None
    inp = [[[m + '.inp' for m in fl] for fl in nights] for _ in range(nfile)] if have else None
    tmp = tempfile.TemporaryDirectory()
    if have:
        for x in (cal, inp):
            for o in x:
                for fl in o:
                    for q, m in enumerate(fl):
                        fl[q] = os.path.join(tmp.name, m.split('/')[-1])
                        open(fl[q], 'w').close()
    old = config.FastUVH5Meta
    config.FastUVH5Meta = type('FakeMeta', (Meta,), {'__init__': lambda self, p, **kw: Meta.__init__(self, Path(p), lsts[str(p)].copy())})
    try:
        cfg = _cfg(g2, per, d, mf, cal, inp)

        def want(lo, hi):
            out = {}
            for m, x in lsts.items():
                y = np.where((x - lo) % TP <= hi - lo)[0]
                if len(y):
                    out[m] = list(y)
            return out

        def compare(s, lo, hi, nm):
            w = want(lo, hi)
            c.check(nm + '-files', [str(p) for p in s.matched_files] == [m for fl in nights for m in fl if m in w])
            c.check(nm + '-rows', [list(t) for t in s.time_indices] == [w[m] for fl in nights for m in fl if m in w])
            if have:
                c.check(nm + '-cal', [p.name for p in s.calfiles] == [p.name + '.cal' for p in s.matched_files])
                c.check(nm + '-inp', [p.name for p in s.inpaint_files] == [p.name + '.inp' for p in s.matched_files])
            c.check(nm + '-grid', np.allclose(s.lst_grid_edges[0], lo) and np.allclose(s.lst_grid_edges[-1], hi))
            for p, x in zip(s.matched_files, s.get_lsts()):
                c.check(nm + '-lsts', np.allclose(x, lsts[str(p)][w[str(p)]]))
            if s.matched_files:
                kw = dict(config=s.config, lst_grid=s.lst_grid, matched_files=s.matched_files, antpairs=[], autopairs=[], pols=['ee'], inpaint_files=None, calfiles=None, properties={})
                t = config.LSTConfigSingle(**kw)
                c.check(nm + '-default-rows', [list(v) for v in t.time_indices] == [list(v) for v in s.time_indices])
        for o in range(nfile):
            lo = start + o * per * d
            hi = min(start + nb * d, start + (o + 1) * per * d)
            compare(cfg.at_single_outfile(outfile=o), lo, hi, 'outfile')
            compare(cfg.at_single_outfile(lst=rng.uniform(lo, hi)), lo, hi, 'outfile-by-lst')
        for b in range(nb):
            lo = start + b * d
            compare(cfg.at_single_bin(bin_index=b), lo, lo + d, 'bin')
            compare(cfg.at_single_bin(lst=rng.uniform(lo, lo + d)), lo, lo + d, 'bin-by-lst')
    finally:
        config.FastUVH5Meta = old
        tmp.cleanup()


# ---------------------------------------------------------------- the file-level binner, readers behind their contract
def _reader(store):
    """the documented contract of _read_one_file on in-memory files"""
    def read(meta_path, calfl, tind, inpfile, antpairs, pols, freq_chans, redundantly_averaged, reds, *a, **k):
        d, f, n, w = store[meta_path]
        nt = len(tind)
        if redundantly_averaged:
            bls = [k[:2] for k in d if any(b in reds[k[:2]] or b[::-1] in reds[k[:2]] for b in antpairs)]
        else:
            bls = [b for b in antpairs if any(k[:2] in (b, b[::-1]) for k in d)]
        if not bls or nt == 0:
            return dict(skip=True, ntimes=nt, data=None, flags=None, nsamples=None, inpainted=None, bls_loaded=[])
        ch = slice(None) if freq_chans is None else freq_chans
        sel = lambda x: DataContainer({k: v[tind][:, ch].copy() for k, v in x.items() if k[2] in pols and any(k[:2] in (b, b[::-1]) for b in bls)})
        return dict(skip=False, ntimes=nt, data=sel(d), flags=sel(f), nsamples=sel(n), inpainted=sel(w) if inpfile is not None else None, bls_loaded=bls)
    return read


@contract('C09', 'bin_files', ['lst_stack.binning.lst_bin_files_for_baselines', 'lst_stack.binning.lst_align', 'lst_stack.binning._get_freqs_chans'], mode='concrete',
          bound='random: up to 5 files of up to 5 integrations, 3 baselines in either orientation or absent, 2 polarizations, wrapping edges, one or two reader threads', trials=300, timeout=90,
          assumptions=['files behind the documented contract of _read_one_file'])
def binfiles(c):
    """every (file, integration) lands in its bin with data, flags, sample counts, inpainting, time and LST together, whatever the file order"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    m = int(rng.integers(2, 6))
    span = float(rng.choice([TP, rng.uniform(.2, TP), 1.0]))
    e0 = float(rng.choice([0., rng.uniform(0, TP), TP - .3]))
    edges = e0 + np.concatenate([[0.], np.sort(rng.uniform(0, span, size=m - 2)), [span]])
    nf = 3
    freqs = np.array([100e6, 110e6, 120e6])
    red = bool(rng.integers(3) == 0)
    antpos = {q: np.array([14. * q, 0., 0.]) for q in range(5)}
    reds = RedundantGroups.from_antpos(antpos, include_autos=True)
    antpairs = [(0, 1), (0, 2), (3, 0)] if not red else [reds.get_ubl_key(b) for b in ((0, 1), (0, 2))]
    store, metas = {}, []
    pols = ['ee', 'nn']
    wip = bool(rng.integers(2))
    for q in range(rng.integers(1, 6)):
        nt = int(rng.integers(1, 6))
        x = (e0 + rng.uniform(-.3, span + .3, size=nt)) % TP if rng.integers(2) else rng.uniform(0, TP, size=nt)
        if min(np.min(np.abs((x - v + TP / 2) % TP - TP / 2)) for v in edges) < 1e-9:
            raise Skip
        d, f, n, w = {}, {}, {}, {}
        for b in antpairs:
            if rng.integers(4) == 0:
                continue
            if red:
                gp = list(reds[b])
                b = gp[rng.integers(len(gp))]
            k2 = b[::-1] if rng.integers(2) else b
            for p in pols:
                d[k2 + (p,)] = rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
                f[k2 + (p,)] = rng.random((nt, nf)) < .3
                n[k2 + (p,)] = rng.integers(0, 5, size=(nt, nf)).astype(float)
                w[k2 + (p,)] = rng.random((nt, nf)) < .3
        nm = f'/x/f{q}'
        store[nm] = (d, f, n, w)
        metas.append(Meta(nm, x, 2459000. + q + np.arange(nt) * .001, freq_array=freqs, pols=pols))
    order = rng.permutation(len(metas))
    files = [metas[q] for q in order]
    kw = {}
    if rng.integers(3) == 0:
        kw = dict(freq_min=105e6)
    elif rng.integers(3) == 0:
        kw = dict(freq_max=115e6)
    usep = list(rng.permutation(pols)) if rng.integers(2) else (['nn'] if rng.integers(2) else pols)
    if rng.integers(2):
        # the caller may supply rows and LSTs itself
        kw['time_idx'] = [np.where((mm.lsts - e0) % TP <= span)[0] if rng.integers(3) else np.arange(len(mm.lsts)) for mm in files]
        if rng.integers(2):
            kw['lsts'] = np.concatenate([mm.lsts[t] for mm, t in zip(files, kw['time_idx'])])
    ch = [q for q in range(nf) if freqs[q] >= kw.get('freq_min', 0) and freqs[q] <= kw.get('freq_max', 1e12)]
    ig = bool(rng.integers(4) == 0)
    old = binning.FastUVH5Meta, binning._read_one_file
    binning.FastUVH5Meta, binning._read_one_file = Meta, _reader(store)
    ed0 = edges.copy()
    try:
        cen, D, F, N, W, Tm, L = binning.lst_bin_files_for_baselines(files, edges, antpairs, freqs=freqs, pols=usep, rephase=False, redundantly_averaged=red, reds=reds if red else None, ignore_flags=ig,
                                                                    where_inpainted_files=[mm.path + '.w' for mm in files] if wip else None, n_workers=int(rng.integers(1, 3)), **kw)
    finally:
        binning.FastUVH5Meta, binning._read_one_file = old
    c.check('edges-unchanged', np.array_equal(edges, ed0))
    c.check('bins', len(D) == len(F) == len(N) == len(W) == len(Tm) == len(L) == m - 1 and np.allclose((cen - (ed0[1:] + ed0[:-1]) / 2 + TP / 2) % TP, TP / 2))
    for b in range(m - 1):
        want = []
        for mm in files:
            for t, x in enumerate(mm.lsts):
                if (x - ed0[b]) % TP <= ed0[b + 1] - ed0[b]:
                    want.append((mm, t))
        c.check('rows', list(Tm[b]) == [mm.times[t] for mm, t in want] and np.allclose((L[b] - np.array([mm.lsts[t] for mm, t in want]) + TP / 2) % TP, TP / 2) and len(L[b]) == len(want))
        c.check('shapes', all(v.shape == (len(want), len(antpairs), len(ch), len(usep)) for v in (D[b], F[b], N[b])) and (W[b] is None) == (not wip))
        if D[b].shape[0] != len(want):
            continue
        for r, (mm, t) in enumerate(want):
            d, f, n, w = store[mm.path]
            for i, bl in enumerate(antpairs):
                for j, p in enumerate(usep):
                    src = None
                    for k in d:
                        if k[2] != p:
                            continue
                        if k[:2] == bl or (red and k[:2] in reds[bl]):
                            src = (k, False)
                        elif k[1::-1] == bl or (red and k[1::-1] in reds[bl]):
                            src = (k, True)
                    if src is None:
                        c.check('absent', bool(np.isnan(D[b][r, i, :, j]).all() and (ig or F[b][r, i, :, j].all()) and (N[b][r, i, :, j] == 0).all()))
                        continue
                    k, cj = src
                    v = d[k][t, ch]
                    c.check('data', bool(np.array_equal(D[b][r, i, :, j], v.conj() if cj else v)))
                    c.check('flags', bool(np.array_equal(F[b][r, i, :, j], np.zeros(len(ch), bool) if ig else f[k][t, ch])))
                    c.check('nsamples', bool(np.array_equal(N[b][r, i, :, j], n[k][t, ch])))
                    if wip:
                        c.check('inpainted', bool(np.array_equal(W[b][r, i, :, j], w[k][t, ch])))


@contract('C09', 'read_one_file', ['lst_stack.binning._read_one_file'], mode='concrete', bound='random files of up to 6 integrations, 4 channels, 4 baselines', trials=200, timeout=60,
          assumptions=['HERAData.read, load_flags and HERACal.read behind their documented contracts'])
def readone(c):
    """the rows, channels, baselines and polarizations asked for, calibrated; inpainting rows and channels stay aligned with the data"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nt, nf = int(rng.integers(1, 7)), 4
    freqs = np.linspace(1e8, 1.3e8, nf)
    times = 2459000 + np.arange(nt) * .01
    lsts = np.arange(nt) * .06
    infile = [(0, 1), (2, 1), (0, 3), (1, 1)]
    pols = ['ee', 'nn']
    mk = lambda g: {b + (p,): g() for b in infile for p in pols}
    cx = lambda: rng.normal(size=(nt, nf)) + 1j * rng.normal(size=(nt, nf))
    D, F, N, W = mk(cx), mk(lambda: rng.random((nt, nf)) < .3), mk(lambda: rng.integers(0, 5, (nt, nf)).astype(float)), mk(lambda: rng.random((nt, nf)) < .5)
    ants = [(a, 'J' + p) for a in range(4) for p in pols]
    ncal = nt if rng.integers(2) else 1
    G = {a: rng.normal(size=(ncal, nf)) + 1j * rng.normal(size=(ncal, nf)) + 3 for a in ants}
    GF = {a: rng.random((ncal, nf)) < .2 for a in ants}
    conv = ['divide', 'multiply'][rng.integers(2)]

    def cont(x, ch):
        dc = DataContainer({k: v[:, ch].copy() for k, v in x.items()})
        dc.times, dc.lsts, dc.freqs = times.copy(), lsts.copy(), freqs[ch]
        dc.times_by_bl = {k[:2]: times.copy() for k in x}
        dc.times_by_bl.update({k[1::-1]: times.copy() for k in x})
        dc.lsts_by_bl = {k: lsts.copy() for k in dc.times_by_bl}
        return dc

    class HD:
        def __init__(self, p):
            pass

        def read(self, bls=None, freq_chans=None, polarizations=None):
            ch = slice(None) if freq_chans is None else freq_chans
            sel = lambda x: {k: v for k, v in x.items() if k[2] in polarizations and any(k[:2] in (b, b[::-1]) for b in bls)}
            return tuple(cont(sel(x), ch) for x in (D, F, N))

    class HC:
        Ntimes, gain_convention, time_array = ncal, conv, times[:ncal]

        def __init__(self):
            self.t, self.ch = slice(None), slice(None)

        def read(self, freq_chans=None):
            self.ch = slice(None) if freq_chans is None else freq_chans
            return self.build_calcontainers()

        def select(self, times=None):
            self.t = [int(np.argmin(abs(HC.time_array - t))) for t in times]

        def build_calcontainers(self):
            return {a: v[self.t][:, self.ch].copy() for a, v in G.items()}, {a: v[self.t][:, self.ch].copy() for a, v in GF.items()}, None, None
    fake = SimpleNamespace(HERAData=HD, load_flags=lambda p: cont(W, slice(None)), to_HERACal=lambda p: HC())
    tind = np.sort(rng.choice(nt, size=rng.integers(0, nt + 1), replace=False))
    chans = None if rng.integers(2) else np.sort(rng.choice(nf, size=rng.integers(1, nf + 1), replace=False))
    ap = [[(0, 1), (1, 2), (5, 6)], [(1, 1)], [(5, 6)], [(3, 0), (0, 1)]][rng.integers(4)]
    usep = [['ee'], pols][rng.integers(2)]
    cal = bool(rng.integers(2))
    loader = cal and bool(rng.integers(3) == 0)
    wip = bool(rng.integers(2))
    seen = []

    def load(p, antpairs=None, polarizations=None, extra=None):
        seen.append((p, list(antpairs), list(polarizations), extra))
        ch = slice(None) if chans is None else chans
        t = tind if ncal > 1 else slice(None)
        return {a: v[t][:, ch].copy() for a, v in G.items()}, {a: v[t][:, ch].copy() for a, v in GF.items()}
    old = binning.io, binning.FastUVH5Meta
    binning.io, binning.FastUVH5Meta = fake, (lambda p, **kw: Meta(p, antpairs=infile))
    try:
        r = binning._read_one_file('/x/f', '/x/c' if cal else None, tind, '/x/w' if wip else None, ap, usep, chans, False, None, load if loader else None, dict(extra=3) if loader else None)
    finally:
        binning.io, binning.FastUVH5Meta = old
    have = [b for b in ap if b in infile or b[::-1] in infile]
    c.check('skip', r['skip'] == (not have or not len(tind)) and r['ntimes'] == len(tind))
    if r['skip'] or not have or not len(tind):
        return
    c.check('loader', not loader or seen == [('/x/c', have, usep, 3)])
    ch = np.arange(nf) if chans is None else chans
    for b in have:
        for p in usep:
            k = b + (p,)
            src, cj = (k, False) if k in D else (b[::-1] + (p,), True)
            d, f, n, w = [x[src][tind][:, ch] for x in (D, F, N, W)]
            if cj:
                d = d.conj()
            if cal:
                gi, gj = G[(b[0], 'J' + p)], G[(b[1], 'J' + p)]
                t = tind if ncal > 1 else [0]
                fac = gi[t][:, ch] * gj[t][:, ch].conj()
                d = d / fac if loader or conv == 'divide' else d * fac
                f = f | GF[(b[0], 'J' + p)][t][:, ch] | GF[(b[1], 'J' + p)][t][:, ch]
            c.check('data', r['data'][k].shape == d.shape and np.allclose(r['data'][k], d))
            c.check('flags', np.array_equal(r['flags'][k], f))
            c.check('nsamples', np.array_equal(r['nsamples'][k], n))
            if wip:
                c.check('inpainted', np.array_equal(r['inpainted'][k], w))
    c.check('no-inpaint', wip or r['inpainted'] is None)
    c.check('times', np.array_equal(r['data'].times, times[tind]) and np.array_equal(r['nsamples'].lsts, lsts[tind]))
