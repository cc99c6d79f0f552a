"""C02: DataContainer is a conjugation-aware mapping."""
from pyvc.engine import contract
from pyvc.terms import Unsupported
from contracts.lib import rev, keq, same_bl, SymMap, raises
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
POLS = ['ee', 'nn', 'en', 'ne']
SPELL = [('ee', 'ee'), ('EE', 'ee'), ('en', 'en'), ('nE', 'ne'), ('NN', 'nn'), ('ne', 'ne')]
ASSUMPTIONS = ['C02: unbounded contracts assume the pre-state stores at most one orientation of each baseline (proved inductive for insertion, bounded for deletion); the store is the dict attribute _data']
FN = ['datacontainer.DataContainer.' + x for x in ('__getitem__', '__setitem__', '__contains__', 'has_key', 'get', 'get_data')]


def conjd(c, dt, x):
    return c.conj(x) if dt is complex else x


def _store(c, shape, dt):
    """a container whose pre-state is arbitrary; returns (dc, has(key)->bool, val(key)->array)"""
    if c.symbolic:
        probe = DataContainer({(0, 1, 'ee'): 1})
        if not isinstance(getattr(probe, '_data', None), dict) or (0, 1, 'ee') not in probe._data:
            raise Unsupported('container store is not the dict attribute _data')
        dc = DataContainer({})
        m = SymMap(c, 'D', POLS, shape, dt)
        dc._data = m
        dc._antpairs, dc._pols = set(), set()
        return dc, (lambda k: c.branch(m.present0(k))), m.value0
    ent = {}
    for q in range(c.int('n0', 0, 8)):
        k = (c.ant(f'e{q}.i'), c.ant(f'e{q}.j'), c.choice(f'e{q}.p', POLS))
        if not any(keq(c, k, o) or keq(c, rev(k), o) for o in ent):
            ent[k] = c.array(f'e{q}.v', shape, dt)
    dc = DataContainer({k: v.copy() for k, v in ent.items()})
    return dc, (lambda k: k in ent), (lambda k: ent[k])


def lookup(c, dt, has, val, k):
    """expected: None or function idx -> value"""
    if has(k):
        v = val(k)
        return lambda idx: c.at(v, idx)
    if has(rev(k)):
        v = val(rev(k))
        return lambda idx: conjd(c, dt, c.at(v, idx))
    return None


def expect(c, nm, dc, key, want, shape):
    if want is None:
        c.check(nm + '.absent', raises(KeyError, lambda: dc[key]))
        c.check(nm + '.not-in', (key in dc) is False or c.not_(key in dc))
    else:
        c.check(nm + '.in', key in dc)
        c.check_array(nm + '.value', dc[key], shape, want)


@contract('C02', 'get', FN, trials=200, timeout=90)
def get(c):
    dt = c.choice('dt', [complex, bool, float])
    shape = (c.dim('nt'), c.dim('nf'))
    dc, has, val = _store(c, shape, dt)
    i, j = c.ant('i'), c.ant('j')
    s, p = c.choice('pol', SPELL)
    c.reachable('pre')
    want = lookup(c, dt, has, val, (i, j, p))
    expect(c, 'get', dc, (i, j, s), want, shape)
    c.check('has_key', c.iff(want is not None, bool(dc.has_key((i, j, s)))))
    c.check('has_key2', c.iff(want is not None, bool(dc.has_key((i, j), s))))
    if want is None:
        c.check('get-default', dc.get((i, j, s), 7) == 7 and dc.get((i, j, s)) is None)
    else:
        c.check_array('get-method', dc.get((i, j, s)), shape, want)
        c.check_array('get_data', dc.get_data(i, j, s), shape, want)
        c.check_array('get_data1', dc.get_data((i, j, s)), shape, want)


@contract('C02', 'set', FN, trials=300, timeout=200)
def set_(c):
    dt, wdt = c.choice('dt', [(complex, complex), (bool, bool), (float, complex), (complex, float)])     # stored, written
    shape = (c.dim('nt'), c.dim('nf'))
    dc, has, val = _store(c, shape, dt)
    i, j = c.ant('i'), c.ant('j')
    s, p = c.choice('pol', SPELL[:4] if dt is wdt else SPELL[2:4])
    x, y = c.ant('x'), c.ant('y')
    p2 = c.choice('probe', POLS if not c.symbolic else ['ee', 'en', 'ne'] if dt is wdt else ['en'])
    v = c.array('v', shape, wdt)
    vs = c.snapshot(v)
    want2 = lookup(c, dt, has, val, (x, y, p2))
    dc[(i, j, s)] = v
    k1, k2 = (i, j, p), (x, y, p2)
    c.check_same('argument-unchanged', v, vs)
    expect(c, 'own', dc, (i, j, s), lambda idx: c.at(vs, idx), shape)
    own_rev = bool(keq(c, rev(k1), k1))
    if not own_rev:
        expect(c, 'reversed', dc, rev((i, j, p)), lambda idx: conjd(c, wdt, c.at(vs, idx)), shape)
        c.check('single-entry', not (k1 in dc.keys() and rev(k1) in dc.keys()))
    c.check('stored', k1 in dc.keys() or rev(k1) in dc.keys())
    if bool(c.not_(same_bl(c, k1, k2))):
        expect(c, 'frame', dc, k2, want2, shape)


# ---- histories
OPS = ['set', 'del', 'dellist', 'setnew']


class Model:
    """reference: list of [key, dtype-kind, snapshot], at most one orientation per baseline"""

    def __init__(self, c, dt):
        self.c, self.dt, self.e = c, dt, []

    def find(self, k):
        for q, (kk, v) in enumerate(self.e):
            if bool(keq(self.c, kk, k)):
                return q, False
        for q, (kk, v) in enumerate(self.e):
            if bool(keq(self.c, kk, rev(k))):
                return q, True
        return None, None

    def set(self, k, v):
        q, r = self.find(k)
        if q is None:
            self.e.append((k, (v, False)))
        else:
            self.e[q] = (self.e[q][0], (v, r))

    def delete(self, k):
        q, r = self.find(k)
        if q is None:
            return False
        self.e.pop(q)
        return True

    def value(self, k):
        q, r = self.find(k)
        if q is None:
            return None
        v, cj = self.e[q][1]
        c = self.c
        return (lambda idx: conjd(c, self.dt, c.at(v, idx))) if (cj != r) else (lambda idx: c.at(v, idx))


def distinct(c, keys):
    out = []
    for k in keys:
        if not any(bool(keq(c, k, o)) for o in out):
            out.append(k)
    return out


def setmatch(c, got, want):
    """two finite collections of keys are equal as sets"""
    return c.and_(*[c.or_(*[keq(c, g, w) for w in want]) for g in got], *[c.or_(*[keq(c, g, w) for g in got]) for w in want])


HFN = FN + ['datacontainer.DataContainer.' + x for x in ('__init__', '__delitem__', '__len__', 'antpairs', 'pols', 'bls', 'keys', 'values', 'items', 'has_antpair', 'has_pol')]
HB = 'run-time: up to 5 entries, 12 operations; symbolic: '


def history(c, n0s, nopss, polsets):
    dt = c.choice('dt', [complex, bool]) if not c.symbolic else complex
    pols = c.choice('polset', polsets) if c.symbolic else POLS
    shape = (1, 1) if c.symbolic else (c.dim('nt'), c.dim('nf'))
    m = Model(c, dt)
    n0 = c.bdim('n0', n0s, conc=range(6))
    init = {}
    for q in range(n0):
        k = (c.ant(f'k{q}.i'), c.ant(f'k{q}.j'), c.choice(f'k{q}.p', pols))
        v = c.array(f'k{q}.v', shape, dt)
        if any(bool(same_bl(c, k, o)) for o in init):
            continue
        init[k] = v
        m.e.append((k, (c.snapshot(v), False)))
    if c.symbolic:
        dc = DataContainer({})
        for k, v in init.items():
            dc[k] = v
    else:
        form = c.choice('form', ['flat', 'nested-pair', 'nested-pol'])
        src = {}
        for k, v in init.items():
            kk = (k[0], k[1], c.choice(f'case{k}', [k[2], k[2].upper()]))
            if form == 'flat' or not init:
                src[kk] = v.copy()
            elif form == 'nested-pair':
                src.setdefault(kk[:2], {})[kk[2]] = v.copy()
            else:
                src.setdefault(kk[2], {})[kk[:2]] = v.copy()
        dc = DataContainer(src)
    nops = c.bdim('nops', nopss, conc=[1, 2, 3, 5, 12])
    for q in range(nops):
        op = c.choice(f'op{q}', ['set', 'del'] if c.symbolic else OPS)
        if op in ('del', 'dellist') and m.e and not c.symbolic and c.choice(f'hit{q}', [True, True, False]):
            k = m.e[c.int(f'w{q}', 0, 50) % len(m.e)][0]
            if c.bool(f'r{q}'):
                k = rev(k)
        else:
            k = (c.ant(f'o{q}.i'), c.ant(f'o{q}.j'), c.choice(f'o{q}.p', pols))
        kk = (k[0], k[1], k[2] if c.symbolic else c.choice(f'o{q}.case', [k[2], k[2].upper(), k[2].capitalize()]))
        if op in ('set', 'setnew'):
            v = c.array(f'o{q}.v', shape, dt)
            m.set(k, c.snapshot(v))
            dc[kk] = v
        elif op == 'del' or c.symbolic:
            if m.delete(k):
                del dc[kk]
            else:
                def f():
                    del dc[kk]
                c.check('delete-absent-raises', raises(KeyError, f))
        else:
            lst = [kk]
            ok = m.delete(k)
            if ok and m.e:
                k2 = m.e[0][0]
                m.delete(k2)
                lst.append(rev(k2))
            if ok:
                del dc[lst]
    # observations
    c.check('len', len(dc) == len(m.e))
    ks = [k for k, _ in m.e]
    c.check('keys', setmatch(c, list(dc.keys()), ks))
    c.check('iter', setmatch(c, list(dc), ks))
    c.check('bls', setmatch(c, list(dc.bls()), ks))
    c.check('antpairs', setmatch(c, list(dc.antpairs()), distinct(c, [k[:2] for k in ks])))
    c.check('pols', set(dc.pols()) == {k[2] for k in ks})
    c.check('values-len', len(list(dc.values())) == len(ks))
    for k, v in dc.items():
        w = m.value(k)
        c.check('items', w is not None)
        if w is not None:
            c.check_array('items-value', v, shape, w)
    if c.symbolic and n0 + nops > 2:
        return     # lookups from an arbitrary store are proved in 'get'; the stored state is fully observed above
    pk = (c.ant('q.i'), c.ant('q.j'), c.choice('q.p', pols))
    expect(c, 'probe', dc, pk, m.value(pk), shape)
    c.check('has_antpair', c.iff(c.or_(*[same_bl(c, k[:2], pk[:2]) for k in ks]), bool(dc.has_antpair(pk[:2]))))
    c.check('has_pol', c.iff(any(k[2] == pk[2] for k in ks), bool(dc.has_pol(pk[2].upper()))))
    ap = dc.antpairs(pk[2])
    c.check('antpairs-of-pol', setmatch(c, list(ap), distinct(c, [k[:2] for k in ks if m.value((k[0], k[1], pk[2])) is not None])))
    if not c.symbolic:
        c.check('pols-of-antpair', set(dc.pols(pk[:2])) == {p for p in {k[2] for k in ks} if m.value(pk[:2] + (p,)) is not None})
        for k in ks:
            expect(c, 'own', dc, (k[0], k[1], k[2].upper()), m.value(k), shape)
            expect(c, 'rev', dc, rev(k), m.value(rev(k)), shape)


@contract('C02', 'history_empty', HFN, mode='bounded', bound=HB + 'empty container, at most 2 operations, symbolic keys and contents', trials=150, timeout=100, paths=60000)
def history0(c):
    history(c, [0], [1, 2], [['ee'], ['en', 'ne']])


@contract('C02', 'history_one', HFN, mode='bounded', bound=HB + 'one entry, at most 2 operations, symbolic keys and contents', trials=300, timeout=160, paths=60000)
def history1(c):
    history(c, [1], [1, 2], [['ee'], ['en', 'ne']])


@contract('C02', 'history_two', HFN, mode='bounded', bound=HB + 'two entries, one operation, symbolic keys and contents', trials=150, timeout=160, paths=60000)
def history2(c):
    history(c, [2], [1], [['ee'], ['en', 'ne']])


@contract('C02', 'nested_views', ['datacontainer.DataContainer.__init__', 'datacontainer.DataContainer.__getitem__'], mode='concrete', bound='up to 4 antenna pairs and 4 polarizations, random contents', trials=150, timeout=40)
def nested(c):
    """dc[pair] and dc[pol] give every polarization / pair; all construction forms agree"""
    dt = c.choice('dt', [complex, bool])
    shape = (c.dim('nt'), c.dim('nf'))
    pols = POLS[:c.int('np', 1, 4)]
    pairs = []
    for q in range(c.int('n', 1, 4)):
        k = (c.ant(f'i{q}'), c.ant(f'j{q}'))
        if k[0] != k[1] and k not in pairs and k[::-1] not in pairs:
            pairs.append(k)
    if not pairs:
        pairs = [(0, 1)]
    flat = {k + (p,): c.array(f'v{q}{p}', shape, dt) for q, k in enumerate(pairs) for p in pols}
    up = {p: (p if c.bool('up' + p) else p.upper()) for p in pols}
    forms = [DataContainer({k[:2] + (up[k[2]],): v.copy() for k, v in flat.items()}),
             DataContainer({k: {up[p]: flat[k + (p,)].copy() for p in pols} for k in pairs}),
             DataContainer({up[p]: {k: flat[k + (p,)].copy() for k in pairs} for p in pols})]
    forms.append(DataContainer(forms[0]))
    for f in forms:
        c.check('same-keys', set(f.keys()) == set(flat))
        c.check('antpairs', f.antpairs() == set(pairs) and f.pols() == set(pols) and len(f) == len(flat))
        for k, v in flat.items():
            c.check_same('flat', f[k], v)
        for p in pols:
            g = f[p.upper()]
            c.check('pol-view-keys', set(g.keys()) == set(pairs))
            for k in pairs:
                c.check_same('pol-view', g[k], flat[k + (p,)])
        for k in pairs:
            g = f[k]
            c.check('pair-view-keys', set(g.keys()) == set(pols))
            for p in pols:
                c.check_same('pair-view', g[p], flat[k + (p,)])
            if all(rp[::-1] in pols for rp in pols):
                g = f[k[::-1]]
                for p in pols:
                    c.check_array('pair-view-reversed', g[p], shape, lambda idx: conjd(c, dt, c.at(flat[k + (p[::-1],)], idx)))
