"""C05: a redundant data container answers for every baseline of a group."""
from pyvc.engine import contract, Skip
from contracts.lib import rev, keq, same_bl, raises
from contracts.c04 import Pool
from hera_cal.datacontainer import DataContainer, RedDataContainer
from hera_cal.red_groups import RedundantGroups
import numpy as np

LEVEL = 'other'
RD = 'datacontainer.RedDataContainer.'
FN = [RD + x for x in ('__init__', '__getitem__', '__setitem__', '__contains__', 'build_red_keys', 'get_ubl_key', 'get_red')]
ASSUMPTIONS = ['C05: redundant groups are disjoint, of one polarization each, and contain no autocorrelations mixed with cross-correlations']


def conjd(c, dt, x):
    return c.conj(x) if dt is complex else x


class Ref:
    """reference: groups (lists of baselines) and per group None or (snapshot, reversed?) relative to the group's orientation"""

    def __init__(self, c, dt, shape):
        self.c, self.dt, self.shape, self.groups, self.val = c, dt, shape, [], []

    def find(self, k):
        for q, g in enumerate(self.groups):
            for b in g:
                if bool(keq(self.c, b, k)):
                    return q, False
                if bool(keq(self.c, rev(b), k)):
                    return q, True
        return None, None

    def put(self, k, snap):
        q, r = self.find(k)
        if q is None:
            self.groups.append([k])
            self.val.append(None)
            q, r = len(self.groups) - 1, False
        self.val[q] = (snap, r)

    def want(self, k):
        q, r = self.find(k)
        if q is None or self.val[q] is None:
            return None
        snap, r0 = self.val[q]
        if r == r0:
            return lambda idx: self.c.at(snap, idx)
        return lambda idx: conjd(self.c, self.dt, self.c.at(snap, idx))


def observe(c, nm, rdc, ref, absent=()):
    for q, g in enumerate(ref.groups):
        for b in g:
            for k, tag in ((b, ''), (rev(b), '-reversed')):
                if tag and bool(keq(c, rev(b), b)):
                    continue
                w = ref.want(k)
                if w is None:
                    c.check(nm + '.not-stored', not (k in rdc))
                    c.check(nm + '.not-stored-raises', raises(KeyError, lambda: rdc[k]))
                else:
                    c.check(nm + '.in' + tag, k in rdc)
                    c.check_array(nm + '.value' + tag, rdc[k], ref.shape, w)
                want = [rev(x) for x in g] if tag else g
                got = list(rdc.get_red(k))
                c.check(nm + '.red', len(got) == len(want) and c.and_(*[c.or_(*[keq(c, x, y) for y in want]) for x in got]))
    for k in absent:
        c.check(nm + '.absent', not (k in rdc) and not (rev(k) in rdc))
        c.check(nm + '.absent-raises', raises(KeyError, lambda: rdc[k]))
    n = sum(1 for v in ref.val if v is not None)
    c.check(nm + '.len', len(rdc.keys()) == n)


def setup(c, sizes, dt, shape, pols):
    pool = Pool(c, pols)
    ref = Ref(c, dt, shape)
    ref.groups = [pool.group(n) for n in sizes]
    ref.val = [None] * len(ref.groups)
    data = {}
    for q, g in enumerate(ref.groups):
        m = c.choice(f'stored{q}', [None] + list(range(len(g)))) if c.symbolic else c.int(f'stored{q}', -1, len(g) - 1)
        if m is None or m == -1:
            continue
        k = g[m] if not c.choice(f'flip{q}', [False, True]) else rev(g[m])
        v = c.array(f'v{q}', shape, dt)
        data[k] = v
        ref.put(k, c.snapshot(v))
    return pool, ref, data


def make(c, data, ref):
    reds = [list(g) for g in ref.groups]
    how = c.choice('reds-as', ['list', 'object'])
    if how == 'object':
        reds = RedundantGroups(reds)
    src = DataContainer(data) if c.choice('data-as', ['dict', 'container']) == 'container' else data
    if not data:
        src = {}
    return RedDataContainer(src, reds=reds)


SIZES = [(1,), (2,), (2, 1)]
CSIZES = [(1,), (3,), (2, 1), (1, 3, 2), (2, 2, 2, 1)]


@contract('C05', 'construct_get', FN, mode='bounded', bound='symbolic: at most 2 groups of at most 2 baselines, arbitrary antenna numbers in two incidence patterns, arbitrary array shapes and contents', trials=300, timeout=150, paths=20000)
def construct_get(c):
    if not c.symbolic:
        c.small_ints = max(c.small_ints, 8)
    dt = c.choice('dt', [complex, bool])
    shape = (c.dim('nt'), c.dim('nf'))
    pool, ref, data = setup(c, c.bdim('sizes', SIZES, conc=CSIZES), dt, shape, ['en'] if c.symbolic else c.choice('pols', [['ee'], ['en'], ['ee', 'en', 'nn']]))
    extra = pool.new()
    snaps = {k: c.snapshot(v) for k, v in data.items()}
    rdc = make(c, data, ref)
    observe(c, 'built', rdc, ref, absent=[extra])
    for k, v in data.items():
        c.check_same('input-unchanged', v, snaps[k])


@contract('C05', 'set_one', FN, mode='bounded', bound='symbolic: one assignment on at most 2 groups of at most 2 baselines; arbitrary antenna numbers in two incidence patterns, arbitrary contents', trials=200, timeout=200, paths=20000)
def set_one(c):
    if not c.symbolic:
        c.small_ints = max(c.small_ints, 8)
    dt = complex
    shape = (c.dim('nt'), c.dim('nf'))
    pool, ref, data = setup(c, c.bdim('sizes', [(2,), (2, 1)], conc=CSIZES), dt, shape, ['en'])
    extra, extra2 = pool.new(), pool.new()
    rdc = RedDataContainer(data, reds=[list(g) for g in ref.groups])
    flat = [b for g in ref.groups for b in g] + [extra]
    k = flat[c.choice('target', range(len(flat)))] if c.symbolic else flat[c.int('target', 0, 60) % len(flat)]
    if c.choice('tflip', [False, True]):
        k = rev(k)
    v = c.array('new', shape, dt)
    snap = c.snapshot(v)
    rdc[k] = v
    ref.put(k, snap)
    observe(c, 'after', rdc, ref, absent=[extra2])
    c.check_same('argument-unchanged', v, snap)


@contract('C05', 'histories', FN, mode='concrete', bound='random histories of up to 8 assignments on up to 4 groups', trials=400, timeout=60)
def histories(c):
    c.small_ints = max(c.small_ints, 8)
    dt = c.choice('dt', [complex, bool, float])
    shape = (c.dim('nt'), c.dim('nf'))
    pool, ref, data = setup(c, c.bdim('sizes', SIZES, conc=CSIZES), dt, shape, c.choice('pols', [['ee'], ['en'], ['ee', 'en', 'nn']]))
    extra = pool.new()
    more = [pool.new() for _ in range(3)]
    rdc = make(c, data, ref)
    for q in range(c.int('nops', 0, 8)):
        flat = [b for g in ref.groups for b in g] + more
        k = flat[c.int(f't{q}', 0, 60) % len(flat)]
        if c.bool(f'f{q}'):
            k = rev(k)
        v = c.array(f'n{q}', shape, dt)
        ref.put(k, v.copy())
        rdc[k] = v
        observe(c, 'step', rdc, ref, absent=[extra])
        if c.failures:
            return


@contract('C05', 'rejects', FN[:1], mode='concrete', bound='random groups', trials=150, timeout=30)
def rejects(c):
    c.small_ints = max(c.small_ints, 8)
    pool = Pool(c, c.choice('pols', [['ee'], ['en'], ['ee', 'en', 'nn']]))
    groups = [pool.group(n) for n in (3, 1, 2)]
    g = groups[c.choice('g', [0, 2])]
    a = c.int('a', 0, len(g) - 1)
    b = (a + c.int('b', 1, len(g) - 1)) % len(g) if len(g) > 1 else a
    k1, k2 = g[a], g[b]
    if c.bool('f1'):
        k1 = rev(k1)
    if c.bool('f2'):
        k2 = rev(k2)
    data = {k1: np.ones((1, 1), complex), groups[1][0]: np.ones((1, 1), complex), k2: np.ones((1, 1), complex)}
    c.check('rejected', raises(ValueError, lambda: RedDataContainer(data, reds=groups)))
    c.check('needs-reds', raises(ValueError, lambda: RedDataContainer({k1: np.ones((1, 1), complex)})))


@contract('C05', 'unknown_dropped', FN[:1], mode='concrete', bound='random groups', trials=100, timeout=30)
def unknown(c):
    c.small_ints = max(c.small_ints, 8)
    pool = Pool(c, c.choice('pols', [['ee'], ['en']]))
    groups = [pool.group(n) for n in (2, 1)]
    extra = pool.new()
    data = {groups[0][1]: np.ones((2, 2), complex) * 1j, extra: np.ones((2, 2), complex)}
    rdc = RedDataContainer(dict(data), reds=groups)
    c.check('dropped', extra not in rdc and rev(extra) not in rdc and raises(KeyError, lambda: rdc[extra]))
    c.check_array('kept', rdc[groups[0][0]], (2, 2), lambda i: 1j)
