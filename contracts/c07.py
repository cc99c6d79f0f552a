"""C07: chi^2 is the weighted sum of squared residuals over exactly the unflagged comparisons."""
from pyvc.engine import contract
from pyvc.terms import PathEnd
from contracts.lib import rev, keq, raises, feeds
from hera_cal import utils
from hera_cal.datacontainer import DataContainer
import numpy as np

LEVEL = 'proof'
FN = ['utils.chisq', 'utils.split_pol']
ASSUMPTIONS = ['C07: finite data, model and gains; nonnegative weights; the containers of each contract hold two or three baselines (the accumulation per baseline is the same)']


def add(d, k, v):
    d[k] = v if k not in d else d[k] + v


def pieces(c, keys, d0, m0, w0, g0, f0, split, inmodel, inwgts):
    """per used baseline: (key, value function, count function), straight from the definition"""
    out = []
    for k in keys:
        a, b = feeds(k)
        if k not in inmodel or k not in inwgts or (split and a[1] != b[1]):
            continue

        def w(idx, k=k, a=a, b=b):
            x = c.at(w0[k], idx) if w0 is not None else 1.0
            if w0 is not None and c.is_kind(w0[k], 'b'):
                x = c.ite(x, 1.0, 0.0)
            if f0 is not None:
                return c.ite(c.or_(c.at(f0[a], idx), c.at(f0[b], idx)), 0.0, x)
            return x

        def val(idx, k=k, a=a, b=b, w=w):
            mod, cj = m0[k]
            m = c.conj(c.at(mod, idx)) if cj else c.at(mod, idx)
            if g0 is not None:
                m = m * c.at(g0[a], idx) * c.conj(c.at(g0[b], idx))
            return c.abs2(c.at(d0[k], idx) - m) * w(idx)

        def cnt(idx, w=w):
            x = w(idx)
            return c.ite(x > 0, 1, 0)
        out.append((k, a, b, val, cnt))
    return out


def run(c, split, gainmode, wgts, upd):
    shape = (c.dim('nt'), c.dim('nf'))
    dc = c.choice('containers', [True, False])
    keys = c.choice('keys', [[(0, 1, 'ee'), (1, 0, 'nn')], [(0, 1, 'ee'), (1, 2, 'en')], [(1, 1, 'nn'), (0, 1, 'ne')], [(0, 1, 'ee'), (2, 1, 'ee')]])
    drop = c.choice('drop', ['', 'model', 'wgts'] if wgts else ['', 'model'])
    inmodel = keys[1:] if drop == 'model' else keys
    inw = keys[:1] if drop == 'wgts' else keys
    ants = sorted({a for k in keys for a in feeds(k)})
    data = {k: c.array(f'd{q}', shape, complex) for q, k in enumerate(keys)}
    d0 = {k: c.snapshot(v) for k, v in data.items()}
    flip = dc and c.choice('model-reversed', [False, True])
    model, m0 = {}, {}
    for q, k in enumerate(keys):
        if k in inmodel:
            v = c.array(f'm{q}', shape, complex)
            model[rev(k) if flip else k] = v
            m0[k] = (c.snapshot(v), flip and rev(k) != k)
    w = w0 = None
    if wgts:
        isb = wgts == 'bool'
        w = {k: c.array(f'w{q}', shape, bool if isb else float, **({} if isb else dict(lo=0))) for q, k in enumerate(keys) if k in inw}
        w0 = {k: c.snapshot(v) for k, v in w.items()}
    g = g0 = f = f0 = None
    if gainmode in ('gains', 'both'):
        g = {a: c.array(f'g{q}', shape, complex) for q, a in enumerate(ants)}
        g0 = {a: c.snapshot(v) for a, v in g.items()}
    if gainmode in ('flags', 'both'):
        f = {a: c.array(f'gf{q}', shape, bool) for q, a in enumerate(ants)}
        f0 = {a: c.snapshot(v) for a, v in f.items()}
    kw, acc = {}, {}
    if upd:
        acc = dict(c=c.array('c0', shape, float), n=c.array('n0', shape, int), ca=c.array('ca0', shape, float), na=c.array('na0', shape, int))
        acc0 = {k: c.snapshot(v) for k, v in acc.items()}
        pk = feeds(keys[0])[0]
        if split:
            kw = dict(chisq={pk[1]: acc['c']}, nObs={pk[1]: acc['n']})
        else:
            kw = dict(chisq=acc['c'], nObs=acc['n'])
        kw.update(chisq_per_ant={pk: acc['ca']}, nObs_per_ant={pk: acc['na']})
    wrap = DataContainer if dc else (lambda x: x)
    c.reachable('pre')
    C, N, CA, NA = utils.chisq(wrap(data), wrap(model), data_wgts=wrap(w) if w is not None else None, gains=g, gain_flags=f, split_by_antpol=split, **kw)
    ps = pieces(c, keys, d0, m0, w0, g0, f0, split, inmodel, inw)
    # totals
    exp = {}
    if not split or upd:
        exp[None if not split else pk[1]] = [(lambda idx: c.at(acc0['c'], idx)) if upd else (lambda idx: 0.0), (lambda idx: c.at(acc0['n'], idx)) if upd else (lambda idx: 0)]
    else:
        exp = {}
    for k, a, b, val, cnt in ps:
        kk = a[1] if split else None
        o = exp.get(kk)
        exp[kk] = [val, cnt] if o is None else [_plus(o[0], val), _plus(o[1], cnt)]
    if split:
        c.check('pols', set(C) == set(exp) and set(N) == set(exp))
    for kk, (v, n) in exp.items():
        c.check_array('chisq', C[kk] if split else C, shape, v)
        c.check_array('nObs', N[kk] if split else N, shape, n)
    # per antenna
    ea = {}
    if upd:
        ea[pk] = [lambda idx: c.at(acc0['ca'], idx), lambda idx: c.at(acc0['na'], idx)]
    for k, a, b, val, cnt in ps:
        for x in (a, b):
            o = ea.get(x)
            ea[x] = [val, cnt] if o is None else [_plus(o[0], val), _plus(o[1], cnt)]
    c.check('ants', set(CA) == set(ea) and set(NA) == set(ea))
    for x, (v, n) in ea.items():
        c.check_array('chisq-per-ant', CA[x], shape, v)
        c.check_array('nObs-per-ant', NA[x], shape, n)
    for nm, x, x0 in (('data', data, d0), ('weights', w, w0), ('gains', g, g0), ('gain-flags', f, f0)):
        if x is not None:
            for k in x0:
                c.check_same(nm + '-unchanged', x[k], x0[k])
    for k in m0:
        c.check_same('model-unchanged', model[rev(k) if flip else k], m0[k][0])


def _plus(f, g):
    return lambda idx: f(idx) + g(idx)


def _mk(split, gm, w, upd):
    nm = f"{'split' if split else 'total'}_{gm}_{w or 'unit'}{'_update' if upd else ''}"

    @contract('C07', nm, FN, trials=40, timeout=90, paths=8000)
    def f(c):
        run(c, split, gm, w, upd)


for _s in (False, True):
    for _g, _w, _u in (('none', None, False), ('both', 'float', False), ('gains', 'float', True), ('flags', 'bool', False), ('flags', None, True)):
        _mk(_s, _g, _w, _u)


@contract('C07', 'reds', FN, mode='bounded', bound='two groups of two or three baselines; any shape, data, model and weights', trials=150, timeout=120, paths=4000)
def reds(c):
    """the first baseline of each group supplies the model of all members; the model passed in is not modified"""
    shape = (c.dim('nt'), c.dim('nf'))
    p = c.choice('pol', ['ee', 'en'])
    flip = c.choice('member-reversed', [False, True])
    G = [[(0, 1, p), (2, 1, p) if flip else (1, 2, p)], [(0, 2, p), (1, 3, p)]]
    dkeys = c.choice('data', [[(0, 1, p), (1, 2, p), (0, 2, p)], [(1, 2, p), (1, 3, p)], [(0, 1, p)]])
    extra = c.choice('member-in-model', [False, True])
    dc = c.choice('containers', [True, False])
    if flip and not dc:
        dkeys = [(k if k != (1, 2, p) else (2, 1, p)) for k in dkeys]
    data = {k: c.array(f'd{q}', shape, complex) for q, k in enumerate(dkeys)}
    d0 = {k: c.snapshot(v) for k, v in data.items()}
    model = {G[0][0]: c.array('m0', shape, complex), G[1][0]: c.array('m1', shape, complex)}
    if extra:
        model[(1, 2, p)] = c.array('m2', shape, complex)
    m0 = {k: c.snapshot(v) for k, v in model.items()}
    wrap = DataContainer if dc else (lambda x: x)
    C, N, CA, NA = utils.chisq(wrap(data), wrap(model), reds=G)

    def mod(k, idx):
        for g, q in ((G[0], 0), (G[1], 1)):
            if (k in g or (dc and rev(k) in g)) and (any(x in dkeys or (dc and rev(x) in dkeys) for x in g)):
                return c.conj(c.at(m0[g[0]], idx)) if k not in g else c.at(m0[g[0]], idx)
        if k in m0:
            return c.at(m0[k], idx)
    # (without containers, a reversed member only covers the same spelling)
    used = [k for k in dkeys if any(k in g or (dc and rev(k) in g) for g in G) or k in m0]
    tot = None
    pa = {}
    for k in used:
        v = lambda idx, k=k: c.abs2(c.at(d0[k], idx) - mod(k, idx))
        tot = v if tot is None else _plus(tot, v)
        for a in feeds(k):
            pa[a] = [v, 1] if a not in pa else [_plus(pa[a][0], v), pa[a][1] + 1]
    c.check_array('chisq', C, shape, tot)
    c.check_array('nObs', N, shape, lambda idx: len(used))
    c.check('ants', set(CA) == set(pa))
    for a, (v, n) in pa.items():
        c.check_array('chisq-per-ant', CA[a], shape, v)
        c.check_array('nObs-per-ant', NA[a], shape, lambda idx: n)
    c.check('model-keys', set(model) == set(m0))
    for k in m0:
        c.check_same('model-unchanged', model[k], m0[k])
    for k in d0:
        c.check_same('data-unchanged', data[k], d0[k])


@contract('C07', 'bad_inputs', FN, mode='concrete', bound='fixed', trials=5, timeout=20)
def bad(c):
    d = {(0, 1, 'ee'): np.ones((2, 2), complex)}
    z = np.zeros((2, 2))
    c.check('chisq-alone', raises(ValueError, lambda: utils.chisq(d, d, chisq=z)))
    c.check('nobs-alone', raises(ValueError, lambda: utils.chisq(d, d, nObs=z)))
    c.check('per-ant-alone', raises(ValueError, lambda: utils.chisq(d, d, chisq_per_ant={})))
    c.check('nobs-per-ant-alone', raises(ValueError, lambda: utils.chisq(d, d, nObs_per_ant={})))
