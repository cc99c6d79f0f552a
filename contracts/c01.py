"""C01: baseline / polarization key algebra (hera_cal.utils)."""
from pyvc.engine import contract
from hera_cal import utils as U
import numpy as np

LEVEL = 'proof'
# ---- specification tables (independent of the code under test)
FEEDS = [('x', 'y'), ('r', 'l'), ('e', 'n')]
VIS = [a + b for fs in FEEDS for a in fs for b in fs]
STOKES = ['pI', 'pQ', 'pU', 'pV']
ANTP = ['J' + a + a for fs in FEEDS for a in fs]
ASSUMPTIONS = ['polarization strings range over the 12 linear/circular/cardinal visibility polarizations, the 4 pseudo-Stokes ones and the 6 feed names, in every upper/lower-case spelling (finite domain, enumerated completely)']


def spell(p):
    """all case variants"""
    out = ['']
    for ch in p:
        out = [o + c for o in out for c in sorted({ch.lower(), ch.upper()})]
    return out


VIS_ALL = [(s, p) for p in VIS for s in spell(p)]
STK_ALL = [(s, p) for p in STOKES for s in spell(p)]
ANT_ALL = [(s, 'J' + a + a) for fs in FEEDS for a in fs for s in spell('J' + a + a) + spell(a)]


def bl_in(c, stokes=True):
    i, j = c.ant('i'), c.ant('j')
    s, p = c.choice('pol', VIS_ALL + (STK_ALL if stokes else []))
    return i, j, s, p


def rev(p):
    return p[::-1] if p in VIS else p


def is_key(c, name, got, want):
    c.check(name, isinstance(got, tuple) and len(got) == len(want))
    c.check(name, c.and_(*[c.eq(g, w) if not isinstance(w, str) else (isinstance(g, str) and g == w) for g, w in zip(got, want)]))


@contract('C01', 'comply_pol', ['utils._comply_vispol', 'utils._comply_antpol', 'utils.comply_pol'], trials=100)
def comply(c):
    s, p = c.choice('pol', VIS_ALL + STK_ALL)
    c.check('vispol-canonical', U._comply_vispol(s) == p)
    c.check('vispol-idempotent', U._comply_vispol(U._comply_vispol(s)) == U._comply_vispol(s))
    c.check('pol-canonical', U.comply_pol(s) == p)


@contract('C01', 'comply_antpol', ['utils._comply_antpol', 'utils.comply_pol'], trials=100)
def comply_ant(c):
    s2, a = c.choice('ant', ANT_ALL)
    c.check('antpol-canonical', U._comply_antpol(s2) == a)
    c.check('antpol-idempotent', U._comply_antpol(U._comply_antpol(s2)) == a)
    c.check('pol-of-antpol', U.comply_pol(s2) == a)


@contract('C01', 'split_join_pol', ['utils.split_pol', 'utils.join_pol'], trials=100)
def split_join(c):
    s, p = c.choice('pol', VIS_ALL)
    r = U.split_pol(s)
    c.check('split', tuple(r) == ('J' + p[0] * 2, 'J' + p[1] * 2))
    c.check('join-split', U.join_pol(*U.split_pol(s)) == p)


@contract('C01', 'join_split_pol', ['utils.split_pol', 'utils.join_pol'], trials=100)
def join_split(c):
    k = c.choice('basis', range(3))
    opts = [x for x in ANT_ALL if x[1] in ('J' + FEEDS[k][0] * 2, 'J' + FEEDS[k][1] * 2)]
    s1, a1 = c.choice('a1', opts)
    s2, a2 = c.choice('a2', opts)
    v = U.join_pol(s1, s2)
    c.check('join', v == a1[1] + a2[1])
    c.check('split-join', tuple(U.split_pol(v)) == (a1, a2))


@contract('C01', 'split_join_bl', ['utils.split_bl', 'utils.join_bl'], trials=100)
def split_join_bl(c):
    i, j, s, p = bl_in(c, stokes=False)
    c.reachable('pre')
    ai, aj = U.split_bl((i, j, s))
    is_key(c, 'first-antenna', ai, (i, 'J' + p[0] * 2))
    is_key(c, 'second-antenna', aj, (j, 'J' + p[1] * 2))
    is_key(c, 'join-split', U.join_bl(ai, aj), (i, j, p))


@contract('C01', 'reverse_bl', ['utils.reverse_bl', 'utils.comply_bl', 'utils.make_bl', 'utils.split_bl'], trials=100)
def reverse(c):
    i, j, s, p = bl_in(c)
    c.reachable('pre')
    r = U.reverse_bl((i, j, s))
    is_key(c, 'reverse', r, (j, i, rev(p)))
    is_key(c, 'involution', U.reverse_bl(r), (i, j, p))
    is_key(c, 'comply', U.comply_bl((i, j, s)), (i, j, p))
    is_key(c, 'comply-idempotent', U.comply_bl(U.comply_bl((i, j, s))), (i, j, p))
    is_key(c, 'make3', U.make_bl(i, j, s), (i, j, p))
    is_key(c, 'make2', U.make_bl((i, j), s), (i, j, p))
    is_key(c, 'make1', U.make_bl((i, j, s)), (i, j, p))
    is_key(c, 'make12', U.make_bl(((i, j), s)), (i, j, p))
    if p in VIS:
        a1, a2 = U.split_bl((i, j, s))
        b1, b2 = U.split_bl(r)
        is_key(c, 'reverse-swaps-feeds-1', b1, tuple(a2))
        is_key(c, 'reverse-swaps-feeds-2', b2, tuple(a1))


@contract('C01', 'pairs', ['utils.reverse_bl', 'utils.comply_bl'], trials=50)
def pairs(c):
    i, j = c.ant('i'), c.ant('j')
    is_key(c, 'reverse-pair', U.reverse_bl((i, j)), (j, i))
    is_key(c, 'comply-pair', U.comply_bl((i, j)), (i, j))


# ---- filter_bls
POLS4 = ['ee', 'nn', 'en', 'ne']


def _keep(c, bl, ants, ex, pols, pos, lo, hi):
    i, j, p = bl
    a1, a2 = (i, 'J' + p[0] * 2), (j, 'J' + p[1] * 2)

    def member(a, lst):
        conds = []
        for x in lst:
            if isinstance(x, tuple):
                conds.append(c.and_(c.eq(x[0], a[0]), x[1] == a[1]))
            else:
                conds.append(c.eq(x, a[0]))
        return c.or_(*conds)
    k = []
    if ants is not None:
        k += [member(a1, ants), member(a2, ants)]
    if ex is not None:
        k += [c.not_(member(a1, ex)), c.not_(member(a2, ex))]
    if pols is not None:
        k.append(p in pols)
    if lo is not None or hi is not None:
        d2 = 0
        for q in range(3):
            d = pos[1][q] - pos[0][q]
            d2 = d2 + d * d
        if lo is not None:
            k.append(c.or_(lo <= 0, d2 >= lo * lo))
        if hi is not None:
            k.append(c.and_(hi >= 0, d2 <= hi * hi))
    return c.and_(*k)


def _ant_list(c, nm):
    k = c.choice(nm, ['none', 'empty', 'num', 'tup', 'num+tup', 'two'])
    if k == 'none':
        return None
    if k == 'empty':
        return []
    out = []
    if 'num' in k or k == 'two':
        out.append(c.ant(nm + '.n0'))
    if k == 'two':
        out.append(c.ant(nm + '.n1'))
    if 'tup' in k:
        out.append((c.ant(nm + '.t0'), c.choice(nm + '.tp', ['Jee', 'Jnn'])))
    return out


@contract('C01', 'filter_bls_ants', ['utils.filter_bls'], trials=400, timeout=120, assumptions=['filter_bls: single generic list element (the per-element filter); lists of several elements are covered by filter_bls_list within its bound'])
def filt1(c):
    bl = (c.ant('i'), c.ant('j'), c.choice('p', POLS4))
    which = c.choice('which', ['ants', 'ex_ants', 'both'])
    ants = _ant_list(c, 'ants') if which != 'ex_ants' else None
    ex = _ant_list(c, 'ex') if which == 'ex_ants' else None
    if which == 'both':
        k = c.choice('ex2', ['num', 'tup'])
        ex = [c.ant('ex.n0')] if k == 'num' else [(c.ant('ex.t0'), c.choice('ex.tp', ['Jee', 'Jnn']))]
    c.reachable('pre')
    bls = [bl]
    out = U.filter_bls(bls, ants=ants, ex_ants=ex)
    keep = _keep(c, bl, ants, ex, None, None, None, None)
    c.check('subset', len(out) <= 1 and all(o is bl or o == bl for o in out))
    c.check('exact', c.iff(keep, len(out) == 1))
    c.check('input-unchanged', len(bls) == 1 and bls[0] is bl)


@contract('C01', 'filter_bls_pols', ['utils.filter_bls'], trials=200)
def filt2(c):
    bl = (c.ant('i'), c.ant('j'), c.choice('p', POLS4))
    pols = c.choice('pols', [None, [], ['ee'], ['nn', 'en'], POLS4])
    out = U.filter_bls([bl], pols=pols)
    c.check('exact', c.iff(pols is None or bl[2] in pols, len(out) == 1))


@contract('C01', 'filter_bls_length', ['utils.filter_bls'], trials=300, timeout=90)
def filt3(c):
    bl = (0, 1, 'ee')
    same = c.bool('same') if not c.symbolic else None
    p0, p1 = c.array('p0', (3,), float), c.array('p1', (3,), float)
    lo = c.real('lo') if c.choice('haslo', [True, False]) else None
    hi = c.real('hi') if c.choice('hashi', [True, False]) else None
    antpos = {0: p0, 1: p1}
    if lo is None and hi is None and c.choice('noantpos', [True, False]):
        antpos = None
    s0, s1 = c.snapshot(p0), c.snapshot(p1)
    if not c.symbolic:
        # keep away from rounding at the cut
        L = float(np.linalg.norm(p1 - p0))
        for v in (lo, hi):
            if v is not None:
                c.assume(abs(v - L) > 1e-9)
    out = U.filter_bls([bl], antpos=antpos, min_bl_cut=lo, max_bl_cut=hi)
    keep = _keep(c, bl, None, None, None, ([c.at(p0, (q,)) for q in range(3)], [c.at(p1, (q,)) for q in range(3)]), lo, hi)
    c.check('exact', c.iff(keep, len(out) == 1))
    c.check_same('antpos-unchanged', p0, s0)


@contract('C01', 'filter_bls_list', ['utils.filter_bls'], mode='bounded', bound='lists of at most 3 baselines, one criterion of each kind', trials=400, timeout=100)
def filt4(c):
    n = c.bdim('n', [2, 3], conc=[0, 1, 2, 3, 6])
    bls = [(c.ant(f'i{q}'), c.ant(f'j{q}'), c.choice(f'p{q}', ['ee', 'ne'] if c.symbolic else POLS4)) for q in range(n)]
    ex = [c.ant('x')]
    pols = c.choice('pols', [None, ['ee']])
    ants = c.choice('ants', [None, 'some'])
    if ants is not None:
        if c.symbolic:
            ants = [bls[0][0], bls[0][1]]
        else:
            ants = [c.ant(f'k{q}') for q in range(3)]
    out = U.filter_bls(bls, ants=ants, ex_ants=ex, pols=pols)
    want = [b for b in bls if bool(_keep(c, b, ants, ex, pols, None, None, None))]
    c.check('order-and-content', c.eq(list(out), want))
