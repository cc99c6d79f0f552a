"""C04: RedundantGroups lookups always reflect the current list of groups."""
from pyvc.engine import contract, Skip
from contracts.lib import rev, keq, same_bl, raises
from hera_cal.red_groups import RedundantGroups
import numpy as np
import copy

LEVEL = 'other'
RG = 'red_groups.RedundantGroups.'
ALLF = [RG + x for x in ('__attrs_post_init__', 'append', 'extend', 'insert', '__getitem__', '__setitem__', '__delitem__', '__contains__', '__add__', '__len__', '__iter__', 'index', 'get_red', 'get_ubl_key',
                         'keyed_on_bls', 'sort', 'filter_reds', 'data_ants', 'data_bls', 'get_reds_in_bl_set')]
ASSUMPTIONS = ['C04: precondition: no baseline appears twice in the list of groups, in either orientation (the class documents that groups are disjoint)']


def seteq(c, got, want):
    got, want = list(got), list(want)
    return c.and_(len(got) == len(want), *[c.or_(*[keq(c, g, w) for w in want]) for g in got], *[c.or_(*[keq(c, g, w) for g in got]) for w in want])


def observe(c, nm, rg, groups, absent=()):
    """every public lookup of rg agrees with the list of groups"""
    c.check(nm + '.len', len(rg) == len(groups))
    got = list(rg)
    c.check(nm + '.groups', len(got) == len(groups) and c.and_(*[seteq(c, a, b) for a, b in zip(got, groups)]))
    if len(got) != len(groups):
        return
    for q, g in enumerate(groups):
        c.check(nm + '.by-position', seteq(c, rg[q], g))
        u = rg.get_ubl_key(g[0])
        c.check(nm + '.key-in-group', c.or_(*[keq(c, u, b) for b in g]))
        for b in g:
            r = rev(b)
            own = bool(keq(c, r, b))
            c.check(nm + '.contains', b in rg)
            c.check(nm + '.contains-reversed', r in rg)
            c.check(nm + '.group-of', seteq(c, rg[b], g))
            c.check(nm + '.red-of', seteq(c, rg.get_red(b), g))
            c.check(nm + '.unique-key', keq(c, rg.get_ubl_key(b), u))
            c.check(nm + '.index', rg.index(b) == q)
            if not own:
                c.check(nm + '.group-of-reversed', seteq(c, rg[r], [rev(x) for x in g]))
                c.check(nm + '.unique-key-reversed', keq(c, rg.get_ubl_key(r), rev(u)))
                c.check(nm + '.index-reversed', rg.index(r) == q)
    flat = [b for g in groups for b in g]
    c.check(nm + '.data_bls', seteq(c, rg.data_bls, flat))
    ants = []
    for b in flat:
        for a in b[:2]:
            if not any(bool(c.eq(a, o)) for o in ants):
                ants.append(a)
    c.check(nm + '.data_ants', seteq(c, [(a,) for a in rg.data_ants], [(a,) for a in ants]))
    for b in absent:
        c.check(nm + '.absent', not (b in rg) and not (rev(b) in rg))
        c.check(nm + '.absent-raises', raises(KeyError, lambda: rg[b]) and raises(KeyError, lambda: rg.get_ubl_key(b)))


# incidence patterns of successive baselines: chain with shared antennas, star, all reversed, all disjoint
PATTERNS = [[(0, 1), (1, 2), (0, 2), (0, 3), (3, 1), (2, 3), (4, 0), (4, 1)],
            [(1, 0), (0, 2), (3, 0), (2, 1), (0, 4), (1, 3), (2, 4), (4, 3)]]


class Pool:
    """distinct baselines (no two equal up to reversal)"""

    def __init__(self, c, pols=None):
        self.c, self.all, self.n = c, [], 0
        self.pols = pols
        if c.symbolic:
            self.pattern = c.choice('pattern', PATTERNS)
            self.ants = [c.ant(f'a{x}') for x in range(1 + max(max(p) for p in self.pattern))]
            for x in range(len(self.ants)):
                for y in range(x):
                    c.assume(c.not_(c.eq(self.ants[x], self.ants[y])))

    def new(self, auto=False, like=None):
        # like: same polarization as this baseline (groups are of one polarization)
        c = self.c
        q = self.n
        self.n += 1
        if c.symbolic:
            # arbitrary pairwise distinct antenna numbers, in a fixed incidence pattern
            i, j = self.pattern[q]
            b = (self.ants[i], self.ants[j]) + (() if not self.pols else tuple(like[2:]) if like else (c.choice(f'pol{q}', self.pols) if len(self.pols) > 1 else self.pols[0],))
            self.all.append(b)
            return b
        for t in range(12):
            i = c.ant(f'b{q}.{t}.i')
            j = c.ant(f'b{q}.{t}.j') if not auto else i
            b = (i, j) + (() if not self.pols else like[2:] if like else (c.choice(f'b{q}.{t}.p', self.pols),))
            if auto and self.pols and b[2][0] != b[2][1]:
                continue  # a group mixes no same-feed with cross-feed autos
            if (auto or i != j) and not any(same_bl(c, b, o) for o in self.all):
                self.all.append(b)
                return b
        raise Skip


    def group(self, n, auto=False, like=None):
        out = []
        for _ in range(n):
            out.append(self.new(auto=auto, like=out[0] if out else like))
        return out


def chooser(c):
    return c.choice('chooser', [None, 'last'])


def make(c, groups, ch):
    kw = {} if ch is None else dict(key_chooser=lambda x: x[-1])
    return RedundantGroups([list(g) for g in groups], **kw)


SYM_OPS = ['none', 'append', 'append-merge', 'append-copy', 'insert', 'extend-copy', 'del-pos', 'del-bl', 'set-pos', 'set-bl', 'keyed', 'add', 'noop-append']


def is_auto(g):
    return any(b[0] is b[1] or (isinstance(b[0], int) and b[0] == b[1]) for b in g)


def apply(c, q, op, rg, groups, pool):
    """apply op to rg and to the reference list; returns (rg, groups)"""
    orig = [list(g) for g in groups]
    def where():
        if not groups:
            raise Skip
        g = c.choice(f'{q}.g', range(len(groups))) if c.symbolic else c.int(f'{q}.g', 0, 60) % len(groups)
        b = groups[g][(c.choice(f'{q}.b', range(len(groups[g]))) if c.symbolic else c.int(f'{q}.b', 0, 60) % len(groups[g]))]
        return g, (rev(b) if c.choice(f'{q}.r', [False, True]) else b)
    def fresh(like=None):
        return pool.group(c.bdim(f'{q}.size', [1, 2], conc=[1, 2, 3]), like=like)
    if op == 'none':
        pass
    elif op in ('append', 'append-copy', 'insert'):
        new = fresh()
        if op == 'insert':
            p = c.choice(f'{q}.pos', range(len(groups) + 1)) if c.symbolic else c.int(f'{q}.pos', 0, 60) % (len(groups) + 1)
            rg.insert(p, list(new))
            groups.insert(p, new)
        elif op == 'append':
            rg.append(list(new))
            groups.append(new)
        else:
            out = rg.append(list(new), inplace=False)
            observe(c, 'original', rg, orig, absent=new)
            rg = out
            groups.append(new)
    elif op == 'append-merge':
        g, b = where()
        new = [pool.new(auto=is_auto(groups[g]), like=b)]
        cp = c.choice(f'{q}.copy', [False, True]) if not c.symbolic else False
        red = [b] + new
        if c.choice(f'{q}.order', [False, True]):
            red = red[::-1]
        out = rg.append(list(red), inplace=not cp)
        if cp:
            observe(c, 'original', rg, orig, absent=new)
            rg = out
        fwd = any(bool(keq(c, b, x)) for x in groups[g])
        groups[g] = (groups[g] if fwd else [rev(x) for x in groups[g]]) + new
    elif op == 'noop-append':
        g, b = where()
        cp = c.choice(f'{q}.copy', [False, True])
        out = rg.append([b], inplace=not cp)
        if cp:
            extra = pool.new()
            out.append([extra])
            observe(c, 'original', rg, orig, absent=[extra])
            rg = out
            groups.append([extra])
    elif op in ('extend', 'extend-copy'):
        news = [fresh(), [pool.new()]]
        if op == 'extend':
            rg.extend([list(x) for x in news])
        else:
            out = rg.extend([list(x) for x in news], inplace=False)
            observe(c, 'original', rg, orig, absent=news[0] + news[1])
            rg = out
        groups.extend(news)
    elif op in ('del-pos', 'del-bl'):
        g, b = where()
        if op == 'del-pos':
            del rg[g]
        else:
            del rg[b]
        groups.pop(g)
    elif op in ('set-pos', 'set-bl'):
        g, b = where()
        keep = [] if is_auto(groups[g]) else groups[g][:c.bdim(f'{q}.keep', [0, 1], conc=[0, 1, 2])]
        new = keep + fresh(like=keep[0] if keep else None)
        if op == 'set-pos':
            rg[g] = list(new)
        else:
            rg[b] = list(new)
        groups[g] = new
    elif op == 'set-new':
        new = fresh()
        rg[new[0]] = list(new)
        groups.append(new)
    elif op == 'keyed':
        bls = []
        for _ in range(c.bdim(f'{q}.nk', [1], conc=[1, 2, 3])):
            if not groups:
                break
            g = c.choice(f'{q}.kg{_}', range(len(groups))) if c.symbolic else c.int(f'{q}.kg{_}', 0, 60) % len(groups)
            b = groups[g][-1]
            bls.append(rev(b) if c.choice(f'{q}.kr{_}', [False, True]) else b)
        inpl = c.choice(f'{q}.inpl', [False, True]) if not c.symbolic else False
        keys0 = [rg.get_ubl_key(g[0]) for g in groups]
        out = rg.keyed_on_bls(bls, inplace=inpl)
        if not inpl:
            observe(c, 'original', rg, orig)
            c.check('original.keys', c.and_(*[keq(c, rg.get_ubl_key(g[0]), k) for g, k in zip(groups, keys0)]))
            rg = out
        for g in groups:
            u = rg.get_ubl_key(g[0])
            cand = [b for b in g if any(bool(same_bl(c, b, k)) for k in bls)]
            if cand:
                c.check('keyed-on-requested', c.or_(*[keq(c, u, b) for b in cand]))
    elif op == 'sort':
        f = c.choice(f'{q}.key', [None, 'len', 'rev'])
        kw = {} if f is None else (dict(key=len) if f == 'len' else dict(reverse=True))
        rg.sort(**kw)
        got = list(rg)
        c.check('sorted', [sorted(g) for g in got] == [sorted(g) for g in sorted([list(x) for x in orig_lists(rg, groups)], **kw)] if f != 'len' else [len(g) for g in got] == sorted(len(g) for g in groups))
        c.check('sort-permutes', sorted(sorted(g) for g in got) == sorted(sorted(g) for g in groups))
        groups[:] = [list(g) for g in got]
    elif op == 'add':
        new = fresh()
        other = RedundantGroups([list(new)])
        out = rg + other
        observe(c, 'original', rg, orig, absent=new)
        observe(c, 'other', other, [new])
        rg = out
        groups.append(new)
    elif op in ('filter', 'filter-inplace'):
        ex = [c.ant(f'{q}.ex')]
        want = [[b for b in g if b[0] not in ex and b[1] not in ex] for g in groups]
        want = [g for g in want if g]
        if op == 'filter':
            out = rg.filter_reds(ex_ants=ex, inplace=False)
            observe(c, 'original', rg, orig)
            rg = out
        else:
            rg.filter_reds(ex_ants=ex, inplace=True)
        groups[:] = want
    return rg, groups


def orig_lists(rg, groups):
    # the actual list order inside each group matters for sorting by content
    return [list(g) for g in rg]


def _sizes(c):
    return c.bdim('sizes', [(1,), (2,), (2, 1)], conc=[(), (1,), (3,), (2, 1), (1, 3, 2), (2, 2, 2, 1)])


for _op in SYM_OPS:
    def _mk(op):
        @contract('C04', 'step_' + op, ALLF, mode='bounded', bound='one operation on at most 2 groups of at most 2 antenna pairs, two incidence patterns of arbitrary pairwise distinct antenna numbers', trials=60, timeout=150, paths=30000)
        def step(c):
            pool = Pool(c)
            groups = [pool.group(n) for n in _sizes(c)]
            if not groups and op not in ('none', 'append', 'append-copy', 'insert', 'extend-copy', 'add'):
                raise Skip
            ch = chooser(c)
            rg = make(c, groups, ch)
            extra = pool.new()
            rg, groups = apply(c, 'op', op, rg, groups, pool)
            observe(c, 'after', rg, groups, absent=[extra])
        return step
    _mk(_op)

OPS = ['append', 'append-merge', 'append-copy', 'noop-append', 'insert', 'extend', 'extend-copy', 'del-pos', 'del-bl', 'set-pos', 'set-bl', 'set-new', 'keyed', 'keyed', 'sort', 'add', 'filter', 'filter-inplace']


@contract('C04', 'histories', ALLF, mode='concrete', bound='random histories of up to 8 operations on up to 7 groups, antenna pairs or baselines with polarization', trials=500, timeout=90)
def histories(c):
    c.small_ints = max(c.small_ints, 8)
    pool = Pool(c, c.choice('pols', [None, ['ee'], ['ee', 'nn'], ['en'], ['en', 'ne', 'ee']]))
    groups = [pool.group(n) for n in _sizes(c)]
    if c.choice('autos', [False, False, True]):
        groups.append(pool.group(2, auto=True))
    rg = make(c, groups, chooser(c))
    extra = pool.new()
    for q in range(c.int('nops', 0, 8)):
        op = c.choice(f'op{q}', OPS)
        if not groups and op not in ('append', 'append-copy', 'insert', 'extend', 'extend-copy', 'add', 'set-new'):
            continue
        if op.startswith('filter') and pool.pols is None:
            continue
        rg, groups = apply(c, f'op{q}', op, rg, groups, pool)
        observe(c, f'after-{op}', rg, groups, absent=[extra])
        if c.failures:
            break


@contract('C04', 'in_bl_set', [RG + 'get_reds_in_bl_set'], mode='concrete', bound='random groups of up to 3 baselines', trials=200, timeout=30)
def in_bl_set(c):
    c.small_ints = max(c.small_ints, 8)
    pool = Pool(c, c.choice('pols', [None, ['ee', 'en']]))
    groups = [pool.group(n) for n in (3, 2)]
    rg = make(c, groups, None)
    flat = [b for g in groups for b in g]
    S = set()
    for q, b in enumerate(flat):
        if c.bool(f's{q}'):
            S.add(b)
        if c.bool(f'r{q}'):
            S.add(rev(b))
    g = groups[c.int('g', 0, 1)]
    b = g[c.int('b', 0, len(g) - 1)]
    if c.bool('flip'):
        b, g = rev(b), [rev(x) for x in g]
    fwd = {x for x in g if x in S}
    bak = {rev(x) for x in g if rev(x) in S}
    c.check('plain', rg.get_reds_in_bl_set(b, S) == fwd)
    c.check('conj', rg.get_reds_in_bl_set(b, S, include_conj=True) == fwd | {rev(x) for x in bak})
    c.check('match', rg.get_reds_in_bl_set(b, S, include_conj=True, match_conj_to_set=True) == fwd | bak)
    c.check('missing', rg.get_reds_in_bl_set(b, S, include_conj=True, match_conj_to_set=True, include_conj_only_if_missing=True) == fwd | {x for x in bak if rev(x) not in fwd})


@contract('C04', 'rejects_overlap', [RG + 'append'], mode='concrete', bound='random groups', trials=80, timeout=20)
def rejects(c):
    c.small_ints = max(c.small_ints, 8)
    pool = Pool(c)
    groups = [pool.group(n) for n in (2, 2)]
    rg = make(c, groups, None)
    red = [groups[0][c.int('a', 0, 1)], groups[1][c.int('b', 0, 1)]]
    if c.bool('new'):
        red.append(pool.new())
    c.check('rejected', raises(ValueError, lambda: rg.append(red)))
    observe(c, 'after-rejection', rg, groups)
