"""C08: redundancy groups partition the array's baselines; filtering and merging keep exactly what is asked."""
from pyvc.engine import contract, Skip
from pyvc.terms import PathEnd
from contracts.lib import rev, keq, raises, feeds
from hera_cal import redcal, utils
import copy
import itertools
import numpy as np
import warnings

LEVEL = 'other'
ASSUMPTIONS = ['C08: every visibility is in at most one group, in one orientation', 'C08: layouts in which any two separations agree to better than bl_error_tol or differ by more than twice that along some axis, and antennas are further apart than that']


def has(c, k, ks):
    return any(bool(keq(c, k, x)) for x in ks)


# ---- specification of filter_reds, criterion by criterion
def spec_filter(c, reds, bls=None, ex_bls=None, ants=None, ex_ants=None, ubls=None, ex_ubls=None, pols=None, ex_pols=None):
    groups = [list(g) for g in reds]
    keep_pol = lambda p: (pols is None or p in pols) and not (ex_pols and p in ex_pols)
    groups = [g for g in groups if keep_pol(g[0][2])]
    present = {b[2] for g in groups for b in g}

    def names(bl, sel):
        """does the selection name this baseline, in either orientation? pairs without polarization name every polarization present"""
        for s in sel:
            if len(s) == 3:
                if bool(keq(c, bl, s)) or bool(keq(c, rev(bl), s)):
                    return True
            elif (bool(keq(c, bl[:2], s)) and bl[2] in present) or (bool(keq(c, rev(bl)[:2], s)) and rev(bl)[2] in present):
                return True
        return False

    def hasant(a, sel):
        return any((bool(keq(c, a, s)) if isinstance(s, tuple) else bool(c.eq(a[0], s))) for s in sel)
    if ubls:
        groups = [g for g in groups if any(names(b, ubls) for b in g)]
    if ex_ubls:
        groups = [g for g in groups if not any(names(b, ex_ubls) for b in g)]
    out = []
    for g in groups:
        kept = []
        for b in g:
            a1, a2 = feeds(b)
            if bls is not None and not names(b, bls):
                continue
            if ex_bls and names(b, ex_bls):
                continue
            if ants and not (hasant(a1, ants) and hasant(a2, ants)):
                continue
            if ex_ants and (hasant(a1, ex_ants) or hasant(a2, ex_ants)):
                continue
            kept.append(b)
        if kept:
            out.append(kept)
    return out


def same_groups(c, got, want):
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        return False
    return c.and_(*[keq(c, x, y) for a, b in zip(got, want) for x, y in zip(a, b)]) if want else True


def ants_of(c, n):
    out = []
    for q in range(n):
        a = c.ant(f'a{q}')
        for o in out:
            c.assume(c.not_(c.eq(a, o)))
        out.append(a)
    return out


def grid(c, mode):
    """groups over four antennas with unknown numbers"""
    a = ants_of(c, 4)
    pos = [[(a[0], a[1]), (a[1], a[2]), (a[2], a[3])], [(a[0], a[2]), (a[3], a[1])], [(a[3], a[0])]]
    if mode == '1pol':
        reds = [[b + ('nn',) for b in g] for g in pos]
    elif mode == '2pol':
        reds = [[b + (p,) for b in g] for p in ('nn', 'ee') for g in pos]
    elif mode == '4pol':
        reds = [[b + (p,) for b in g] for p in ('nn', 'en', 'ne') for g in pos[:2]]
    else:
        reds = [[b + ('nn',) for b in g] for g in pos[:2]] + [[b + (p,) for p in ('en', 'ne') for b in g] for g in pos[:2]]
    return a, reds


BL_SEL = {
    'bl': lambda a: [(a[0], a[1])], 'bl-reversed': lambda a: [(a[1], a[0])], 'bl-nn': lambda a: [(a[0], a[1], 'nn'), (a[2], a[0], 'nn')],
    'bl-en': lambda a: [(a[1], a[2], 'en')], 'bl-ne-reversed': lambda a: [(a[2], a[1], 'ne')], 'mixed': lambda a: [(a[2], a[3], 'nn'), (a[0], a[2])], 'absent': lambda a: [(a[0], a[0])]}
ANT_SEL = {
    'two': lambda a: [a[0], a[1]], 'three': lambda a: [a[1], a[2], a[3]], 'feed': lambda a: [a[0], (a[1], 'Jnn'), (a[2], 'Jee')], 'one': lambda a: [a[2]]}
POL_SEL = {'nn': ['nn'], 'en': ['en'], 'nn+ee': ['nn', 'ee'], 'nn+ne': ['nn', 'ne']}


def filt(c, mode, crits):
    a, reds = grid(c, mode)
    kw = {}
    for cr in crits:
        s = ANT_SEL if 'ants' in cr else POL_SEL if 'pols' in cr else BL_SEL
        v = s[c.choice(cr, sorted(s))]
        kw[cr] = v if 'pols' in cr else v(a)
    before = [list(g) for g in reds]
    kw0 = {k: list(v) for k, v in kw.items()}
    got = redcal.filter_reds(reds, **kw)
    c.check('kept', same_groups(c, got, spec_filter(c, before, **kw0)))
    c.check('input-unchanged', same_groups(c, reds, before))
    c.check('criteria-unchanged', all(len(kw[k]) == len(kw0[k]) and all(x is y for x, y in zip(kw[k], kw0[k])) for k in kw))


def _mkf(mode, crits):
    @contract('C08', f'filter_{mode}_{"+".join(crits)}', ['redcal.filter_reds'], mode='bounded', bound='groups of up to 8 baselines over four antennas (any numbers); 7 baseline, 4 antenna, 4 polarization selections per criterion', trials=60, timeout=60, paths=4000)
    def f(c):
        filt(c, mode, crits)


for _m in ('1pol', '2pol', '4pol', '4pol_minV'):
    for _cr in (('bls',), ('ex_bls',), ('ants',), ('ex_ants',), ('ubls',), ('ex_ubls',)):
        _mkf(_m, _cr)
for _m, _cr in (('4pol', ('pols', 'bls')), ('4pol', ('ex_pols', 'ex_ubls')), ('2pol', ('ubls', 'ex_bls')), ('4pol', ('ex_ubls', 'ants')), ('2pol', ('bls', 'ex_ants')), ('2pol', ('pols', 'ants')),
                ('4pol', ('ubls', 'ex_ubls')), ('2pol', ('ants', 'ex_ants'))):
    _mkf(_m, _cr)


@contract('C08', 'filter_all_criteria', ['redcal.filter_reds'], mode='concrete', bound='random layouts of up to 6 antennas, every criterion present or absent', trials=400, timeout=60)
def filt_all(c):
    n = c.bdim('n', [4], conc=range(2, 7))
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    nums = [int(x) for x in rng.permutation(20)[:n]]
    mode = ['1pol', '2pol', '4pol', '4pol_minV'][rng.integers(4)]
    pols = {'1pol': ['nn'], '2pol': ['nn', 'ee'], '4pol': ['ee', 'en', 'ne', 'nn'], '4pol_minV': ['ee', 'en', 'ne', 'nn']}[mode]
    antpos = {m: np.array([float(rng.integers(0, 4)) * 14, float(rng.integers(0, 3)) * 14, 0.]) for m in nums}
    if len({tuple(v) for v in antpos.values()}) < n:
        raise Skip
    reds = redcal.get_reds(antpos, pols=pols, pol_mode=mode, include_autos=bool(rng.integers(2)) and '4pol' not in mode)
    flat = [b for g in reds for b in g]

    def pick_bls():
        out = []
        for _ in range(rng.integers(1, 4)):
            b = flat[rng.integers(len(flat))]
            b = rev(b) if rng.integers(2) else b
            out.append(b[:2] if rng.integers(2) else b)
        return out

    def pick_ants(k):
        return [(a, 'J' + 'en'[rng.integers(2)] * 2) if rng.integers(3) == 0 else a for a in rng.choice(nums, size=min(n, k), replace=False).tolist()]
    kw = {}
    if rng.integers(3) == 0:
        kw['bls'] = pick_bls() + pick_bls()
    if rng.integers(3) == 0:
        kw['ex_bls'] = pick_bls()
    if rng.integers(3) == 0:
        kw['ants'] = pick_ants(n)
    if rng.integers(3) == 0:
        kw['ex_ants'] = pick_ants(1)
    if rng.integers(3) == 0:
        kw['ubls'] = pick_bls()
    if rng.integers(3) == 0:
        kw['ex_ubls'] = pick_bls()
    if rng.integers(4) == 0:
        kw['pols'] = [p for p in pols if rng.integers(2)] or pols
    if rng.integers(4) == 0:
        kw['ex_pols'] = [pols[rng.integers(len(pols))]]
    kw0 = copy.deepcopy(kw)
    before = copy.deepcopy(reds)
    cuts = {}
    if rng.integers(3) == 0:
        cuts['min_bl_cut'] = float(rng.choice([13, 14, 15, 25]))
    if rng.integers(3) == 0:
        cuts['max_bl_cut'] = float(rng.choice([15, 28, 30, 45]))
    got = redcal.filter_reds(reds, antpos=antpos if cuts else None, **kw, **cuts)
    want = spec_filter(c, before, **kw0)

    def okay(g):
        ln = np.mean([np.linalg.norm(antpos[b[1]] - antpos[b[0]]) for b in g])
        return not ('min_bl_cut' in cuts and not ln > cuts['min_bl_cut']) and not ('max_bl_cut' in cuts and not ln < cuts['max_bl_cut'])
    c.check('kept', got == [g for g in want if okay(g)])
    c.check('input-unchanged', reds == before and kw == kw0)


@contract('C08', 'filter_lengths', ['redcal.filter_reds'], mode='bounded', bound='three groups over four antennas at any positions in a plane, any cuts', trials=150, timeout=90, paths=4000)
def filt_len(c):
    a = [0, 1, 2, 3]
    pos = {m: c.array(f'p{m}', (2,), float) for m in a}
    p0 = {m: c.snapshot(v) for m, v in pos.items()}
    reds = [[(0, 1, 'nn'), (1, 2, 'nn')], [(3, 0, 'nn')]]
    before = copy.deepcopy(reds)
    cuts = {}
    which = c.choice('cuts', ['min', 'max', 'both'])
    if which in ('min', 'both'):
        cuts['min_bl_cut'] = c.real('min')
    if which in ('max', 'both'):
        cuts['max_bl_cut'] = c.real('max')
    got = redcal.filter_reds(reds, antpos=pos, **cuts)
    want = []
    for g in before:
        ls = [dist(c, p0[b[1]], p0[b[0]]) for b in g]
        m = (ls[0] + ls[1]) / 2.0 if len(ls) == 2 else ls[0]
        if bool(c.and_(*([m > cuts['min_bl_cut']] if 'min_bl_cut' in cuts else []), *([m < cuts['max_bl_cut']] if 'max_bl_cut' in cuts else []))):
            want.append(g)
    c.check('kept', got == want)
    c.check('input-unchanged', reds == before)
    for m in a:
        c.check_same('positions-unchanged', pos[m], p0[m])


def dist(c, p, q):
    d = [c.at(p, (i,)) - c.at(q, (i,)) for i in range(2)]
    s = d[0] * d[0] + d[1] * d[1]
    if c.symbolic:
        from pyvc import terms as T
        return T.s_sqrt(T.lift(s))
    return np.sqrt(s)


@contract('C08', 'filter_lengths_need_positions', ['redcal.filter_reds'], mode='concrete', bound='fixed', trials=2, timeout=20)
def filt_noant(c):
    c.check('min', raises(AssertionError, lambda: redcal.filter_reds([[(0, 1, 'nn')]], min_bl_cut=1.)))
    c.check('max', raises(AssertionError, lambda: redcal.filter_reds([[(0, 1, 'nn')]], max_bl_cut=1.)))


@contract('C08', 'filter_dims', ['redcal.filter_reds', 'redcal.reds_to_antpos'], mode='concrete', bound='random layouts of up to 8 antennas', trials=60, timeout=60)
def filt_dims(c):
    """limiting dimensions removes whole antennas only, ends within the limit, and keeps what already satisfies it"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    n = int(rng.integers(3, 9))
    nums = [int(x) for x in rng.permutation(20)[:n]]
    antpos = {m: np.array([float(rng.integers(0, 4)) * 14, float(rng.integers(0, 3)) * 14, 0.]) for m in nums}
    if len({tuple(v) for v in antpos.values()}) < n:
        raise Skip
    if rng.integers(2):
        antpos[nums[0]] = antpos[nums[0]] + np.array([3.3, 5.1, 0])
    reds = redcal.get_reds(antpos)
    md = int(rng.integers(1, 4))
    before = copy.deepcopy(reds)
    got = redcal.filter_reds(reds, max_dims=md)
    c.check('input-unchanged', reds == before)
    left = {x for g in got for b in g for x in b[:2]}
    c.check('whole-antennas', got == [[b for b in g if b[0] in left and b[1] in left] for g in before if any(b[0] in left and b[1] in left for b in g)])
    if got:
        d = len(list(redcal.reds_to_antpos(got, tol=1e-8).values())[0])
        c.check('within-limit', d <= max(md, 1))
    d0 = len(list(redcal.reds_to_antpos(before, tol=1e-8).values())[0])
    if d0 <= md and len(nums) > 1:
        c.check('unneeded-filtering', got == before or d0 <= 1)


@contract('C08', 'ideal_positions', ['redcal.reds_to_antpos'], mode='concrete', bound='random layouts of up to 9 antennas', trials=100, timeout=60)
def ideal(c):
    """idealized positions respect every redundancy and separate what the array separates"""
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    n = int(rng.integers(2, 10))
    nums = [int(x) for x in rng.permutation(20)[:n]]
    antpos = {m: np.array([float(rng.integers(0, 4)) * 14, float(rng.integers(0, 4)) * 14, 0.]) for m in nums}
    if len({tuple(v) for v in antpos.values()}) < n:
        raise Skip
    reds = redcal.get_pos_reds(antpos)
    before = copy.deepcopy(reds)
    ip = redcal.reds_to_antpos(reds, tol=1e-9)
    c.check('antennas', set(ip) == set(nums))
    for g in reds:
        v = [ip[b[1]] - ip[b[0]] for b in g]
        c.check('redundant', all(np.allclose(x, v[0], atol=1e-8) for x in v))
        c.check('distinct', np.linalg.norm(v[0]) > 1e-8)
    # a linear map takes the true positions (relative) to... and back: true positions are a linear function of the ideal ones
    A = np.array([np.append(ip[m], 1.) for m in nums])
    B = np.array([antpos[m] for m in nums])
    x, *_ = np.linalg.lstsq(A, B, rcond=None)
    c.check('consistent-with-truth', np.allclose(A @ x, B, atol=1e-6))
    c.check('input-unchanged', reds == before)


# ---- grouping
def check_groups(c, reds, antpos, tol, autos):
    nums = list(antpos)
    seen = [frozenset(b) for g in reds for b in g]
    want = [frozenset(p) for p in itertools.combinations(nums, 2)] + ([frozenset((m,)) for m in nums] if autos else [])
    c.check('each-pair-once', len(seen) == len(want) and set(seen) == set(want))
    pad = lambda v: [c.at(v, (q,)) if q < v.shape[0] else 0.0 for q in range(3)]
    p = {m: pad(v) for m, v in antpos.items()}
    sep = lambda b: [p[b[1]][q] - p[b[0]][q] for q in range(3)]
    near = lambda u, v: c.and_(*[c.and_(u[q] - v[q] < tol, v[q] - u[q] < tol) for q in range(3)])
    for g in reds:
        for b in g[1:]:
            c.check('same-separation', near(sep(b), sep(g[0])))
        c.check('lowest-first', min(x for b in g for x in b) == g[0][0])
        c.check('sorted', list(g) == sorted(g))
    for g, h in itertools.combinations(reds, 2):
        c.check('distinct-groups', c.not_(c.or_(near(sep(g[0]), sep(h[0])), near(sep(g[0]), sep(h[0][::-1])))))
    return sep


def separated(c, antpos, tol, autos):
    """precondition: any two separations (either orientation) agree within tol or differ by more than 2 tol along an axis"""
    pad = lambda v: [c.at(v, (q,)) if q < v.shape[0] else 0.0 for q in range(3)]
    p = {m: pad(v) for m, v in antpos.items()}
    prs = list(itertools.combinations(antpos, 2))
    D = [[p[j][q] - p[i][q] for q in range(3)] for i, j in prs]
    nz = lambda x: not (isinstance(x, float) and x == 0.0)
    close = lambda u, v: c.and_(*[c.and_(u[q] - v[q] < tol, v[q] - u[q] < tol) for q in range(3) if nz(u[q]) or nz(v[q])])
    far = lambda u, v: c.or_(*[c.or_(u[q] - v[q] > 2 * tol, v[q] - u[q] > 2 * tol) for q in range(3) if nz(u[q]) or nz(v[q])])
    zero = [0.0, 0.0, 0.0]
    for u in D:
        c.assume(far(u, zero))
    for u, v in itertools.combinations(D, 2):
        m = [-x if nz(x) else x for x in v]
        c.assume(c.or_(close(u, v), far(u, v)))
        c.assume(c.or_(close(u, m), far(u, m)))


@contract('C08', 'grouping_line', ['redcal.get_pos_reds'], mode='bounded', bound='three antennas anywhere on a line, two tolerances', trials=100, timeout=150, paths=6000)
def group_line(c):
    nums = list(c.choice('numbers', [(0, 1, 2), (5, 2, 9)]))
    tol = c.choice('tol', [1.0, 0.5])
    pos = {m: c.array(f'x{m}', (1,), float) for m in nums}
    autos = c.choice('autos', [False, True])
    separated(c, pos, tol, autos)
    reds = redcal.get_pos_reds(pos, bl_error_tol=tol, include_autos=autos)
    check_groups(c, reds, pos, tol, autos)


@contract('C08', 'grouping', ['redcal.get_pos_reds', 'redcal.get_reds', 'redcal.add_pol_reds'], mode='concrete', bound='random layouts (1, 2 or 3 dimensions, up to 9 antennas on a jittered grid)', trials=200, timeout=60)
def group_grid(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    n = int(rng.integers(1, 10))
    dim = int(rng.integers(1, 4))
    nums = [int(x) for x in rng.permutation(30)[:n]]
    step = rng.choice([8.0, 14.6])
    tol = float(rng.choice([0.5, 1.0, 2.0]))
    jit = tol / 4.01 * rng.choice([0, 1])
    cell = [tuple(rng.integers(-3, 4, size=dim)) for _ in nums]
    if len(set(cell)) < n:
        raise Skip
    pos = {m: np.array(x, float) * step + rng.uniform(-jit, jit, size=dim) for m, x in zip(nums, cell)}
    pos0 = copy.deepcopy(pos)
    autos = bool(rng.integers(2))
    reds = redcal.get_pos_reds(pos, bl_error_tol=tol, include_autos=autos)
    check_groups(c, reds, pos, tol, autos)
    ln = [np.mean([np.linalg.norm(pos[b[1]] - pos[b[0]]) for b in g]) for g in reds]
    c.check('ordered-by-length', all(y >= x - 4 * tol for x, y in zip(ln, ln[1:])))
    c.check('positions-unchanged', all(np.array_equal(pos[m], pos0[m]) for m in pos))
    for mode, pols in (('1pol', ['nn']), ('2pol', ['nn', 'ee']), ('4pol', ['nn', 'ne', 'en', 'ee']), ('4pol_minV', ['nn', 'ne', 'en', 'ee'])):
        got = redcal.get_reds(pos, pols=pols, pol_mode=mode, bl_error_tol=tol, include_autos=autos)
        c.check('polarized', sorted(map(sorted, got)) == sorted(map(sorted, polspec(reds, pols, mode))))


def polspec(reds, pols, mode):
    out = []
    cross = [p for p in pols if p[0] != p[1]]
    for p in pols:
        if mode == '4pol_minV' and p in cross:
            continue
        out += [[b + (p,) for b in g] for g in reds]
    if mode == '4pol_minV' and cross:
        out += [[b + (p,) for p in (cross[0], cross[0][::-1]) for b in g] for g in reds]
    return out


@contract('C08', 'add_pols', ['redcal.add_pol_reds'], mode='bounded', bound='two groups over four antennas (any numbers); all polarization modes', trials=80, timeout=30)
def add_pols(c):
    a = ants_of(c, 4)
    reds = [[(a[0], a[1]), (a[2], a[3])], [(a[1], a[3])]]
    before = [list(g) for g in reds]
    mode = c.choice('mode', ['1pol', '2pol', '4pol', '4pol_minV'])
    pols = c.choice('pols', {'1pol': [['nn'], ['ee'], ['xx']], '2pol': [['nn', 'ee'], ['xx', 'yy']], '4pol': [['nn', 'ne', 'en', 'ee']], '4pol_minV': [['nn', 'ne', 'en', 'ee'], ['ee', 'en', 'ne', 'nn']]}[mode])
    got = redcal.add_pol_reds(reds, pols=pols, pol_mode=mode)
    want = polspec(before, pols, mode)
    c.check('number', len(got) == len(want))
    left = [list(g) for g in got]
    for w in want:
        hit = [g for g in left if len(g) == len(w) and all(has(c, b, g) for b in w)]
        c.check('group-present', len(hit) >= 1)
        if hit:
            left = [g for g in left if g is not hit[0]]
    c.check('input-unchanged', same_groups(c, reds, before))


# ---- combining two lists
@contract('C08', 'combine', ['redcal.combine_reds'], mode='concrete', bound='random sub-selections of layouts of up to 7 antennas', trials=300, timeout=60)
def combine(c):
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    n = int(rng.integers(2, 8))
    nums = [int(x) for x in rng.permutation(20)[:n]]
    cells = [tuple(rng.integers(0, 3, size=2)) for _ in nums]
    if len(set(cells)) < n:
        raise Skip
    pos = {m: np.array(x, float) * 14 for m, x in zip(nums, cells)}
    pols = [['nn'], ['nn', 'ee']][rng.integers(2)]
    full = redcal.get_reds(pos, pols=pols, pol_mode='1pol' if len(pols) == 1 else '2pol')

    def sub(pr):
        out = [[b for b in g if rng.random() < pr] for g in full]
        out = [g for g in out if g]
        rng.shuffle(out)
        return out
    r1, r2 = sub(.6), sub(.6)
    b1, b2, bf = copy.deepcopy(r1), copy.deepcopy(r2), copy.deepcopy(full)
    whole = bool(rng.integers(2))
    got = redcal.combine_reds(r1, r2, unfiltered_reds=full if whole else None)
    use = {b for g in r1 + r2 for b in g}
    flat = [b for g in got for b in g]
    c.check('no-repeats', len(flat) == len(set(flat)))
    c.check('exactly-the-union', set(flat) == use)
    if whole:
        want = [set(b for b in g if b in use) for g in full]
    else:
        want = []
        for g in full:
            x, y = [set(b for s in r for b in s if b in g) for r in (r1, r2)]
            want += [x | y] if (x & y) else [x, y]
    c.check('groups', sorted(sorted(g) for g in want if g) == sorted(sorted(g) for g in got))
    c.check('larger-first', all(len(x) >= len(y) for x, y in zip(got, got[1:])))
    c.check('inputs-unchanged', r1 == b1 and r2 == b2 and full == bf)


@contract('C08', 'chunks', ['utils.chunk_baselines_by_redundant_groups'], mode='bounded', bound='up to four groups of up to three baselines; any chunk size', trials=150, timeout=30, paths=3000)
def chunks(c):
    sizes = [c.bdim(f's{q}', [1, 2, 3], conc=range(1, 6)) for q in range(3)]
    n = c.int('max', lo=1, hi=12)
    reds, k = [], 0
    for s in sizes:
        reds.append([(k + q, 50, 'nn') for q in range(s)])
        k += s
    before = copy.deepcopy(reds)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = utils.chunk_baselines_by_redundant_groups(reds, n)
    c.check('all-in-order', [b for g in got for b in g] == [b for g in before for b in g])
    for g in before:
        c.check('whole-groups', sum(1 for x in got if any(b in x for b in g)) == 1)
    for x in got:
        c.check('size', c.or_(len(x) <= n, x in before))
    for x, y in zip(got, got[1:]):
        first = [g for g in before if g[0] == y[0]][0] if y else []
        c.check('no-early-break', len(x) + len(first) > n)
    c.check('input-unchanged', reds == before)
