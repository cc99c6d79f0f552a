"""Path-exploring verifier: runs a contract harness (which calls the real functions of /repo)
on symbolic inputs, enumerates every path, and discharges  path-condition => obligation  with z3
(cvc5 as second back end)."""
import os
import sys
import time
import itertools
import random
import math
import traceback
import numpy as np
from fractions import Fraction
from . import terms as T
from . import arr as A
from .arr import SymArray, zi, isint, dim
from .terms import z3, Sym, SymArrayBase, Unsupported, PathEnd, SInt, SBool, lift, is_sym, kind_of_dtype
from . import npshim
from . import ratnorm


class Budget(Unsupported):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'path', 'model', 'detail', 'time', 'backend')

    def __init__(self, name, status, path, model=None, detail='', time=0., backend=''):
        self.name, self.status, self.path, self.model, self.detail, self.time, self.backend = name, status, path, model, detail, time, backend


STATS = {'queries': 0, 'solver_s': 0.0, 'z3_unsat': 0, 'z3_sat': 0, 'z3_unknown': 0, 'cvc5_unsat': 0, 'simplifier': 0}


def _free_consts(e, seen, out):
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        stack.extend(t.children())


def _nonlinear(t, depth=0):
    if depth > 12:
        return True
    k = t.decl().kind()
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        return True
    if k == z3.Z3_OP_MUL:
        return True
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return any(_nonlinear(c, depth + 1) for c in t.children())
    return False


class SymCtx:
    symbolic = True
    const_hash = True

    def __init__(self, decisions, query_timeout=10000, branch_timeout=2000, max_decisions=400, deadline=None):
        self.decisions = list(decisions)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.axioms = []
        self.axiom_keys = set()
        self.used_uf = False
        self.trig_args = {}
        self.counter = itertools.count()
        self.depth = 0
        self.scope = []
        self.sums = {}
        self.sum_keys = {}
        self.inputs = []      # (name, kind, payload)
        self.obls = []
        self.query_timeout = query_timeout
        self.branch_timeout = branch_timeout
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', branch_timeout)
        self._must_cache = {}
        self._ent_cache = {}
        self.dens = {}
        self.sqrt_of = {}     # SQRT term -> its argument, written as a sum of squares
        self._qn_cache = {}
        self._lin = z3.Solver()
        self._lin.set('timeout', 400)
        self._lin_n = [0, 0]
        self._nl_cache = {}
        self._nl_n = [0, 0, False]
        self.uses_quant = False
        self.notes = []
        self.trace = []
        self.canary = True

    # ---- names
    def fresh_name(self, base):
        return f'{base}!{next(self.counter)}'

    def fresh_int(self, base):
        return z3.Int(self.fresh_name(base))

    # ---- path condition
    def _add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        self._must_cache.clear()

    def axiom(self, t, key=None):
        if key is not None:
            if key in self.axiom_keys:
                return
            self.axiom_keys.add(key)
        self.axioms.append(t)
        self.solver.add(t)
        self._must_cache.clear()

    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        t0 = time.time()
        STATS['queries'] += 1
        if extra or self.scope:
            self.solver.push()
            for e in self.scope:
                self.solver.add(e)
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        STATS['solver_s'] += time.time() - t0
        return r

    def must(self, c):
        """is c entailed by the current path? (False when unknown)"""
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = (s.get_id(), tuple(x.get_id() for x in self.scope))
        hit = self._must_cache.get(key)
        if hit is not None and hit[1].eq(s):
            return hit[0]
        if self._has_nl():
            r = self.quick_not(z3.Not(s))
            if not r and not self._intonly(s):
                r = self._check(z3.Not(s)) == z3.unsat
        else:
            r = self._check(z3.Not(s)) == z3.unsat
        self._must_cache[key] = (r, s)
        return r

    def _has_nl(self):
        """are there nonlinear facts on this path?"""
        n = self._nl_n
        while n[0] < len(self.pc) and not n[2]:
            n[2] = self._nl(self.pc[n[0]])
            n[0] += 1
        while n[1] < len(self.axioms) and not n[2]:
            n[2] = self._nl(self.axioms[n[1]])
            n[1] += 1
        return n[2]

    @staticmethod
    def _intonly(t):
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or z3.is_real(x):
                return False
            stack.extend(x.children())
        return True

    def quick_not(self, c):
        """is c refuted by the linear facts of the path? (False when not shown quickly)"""
        s = z3.simplify(c)
        if z3.is_false(s):
            return True
        if self._nl(s):
            return False
        n = (len(self.pc), len(self.axioms), tuple(x.get_id() for x in self.scope))
        key = (s.get_id(), n)
        hit = self._qn_cache.get(key)
        if hit is not None:
            return hit[0]
        while self._lin_n[0] < len(self.pc):
            t = self.pc[self._lin_n[0]]
            self._lin_n[0] += 1
            if not self._nl(t):
                self._lin.add(t)
        while self._lin_n[1] < len(self.axioms):
            t = self.axioms[self._lin_n[1]]
            self._lin_n[1] += 1
            if not self._nl(t):
                self._lin.add(t)
        self._lin.push()
        for x in self.scope:
            self._lin.add(x)
        self._lin.add(s)
        STATS['queries'] += 1
        t0 = time.time()
        r = self._lin.check() == z3.unsat
        STATS['solver_s'] += time.time() - t0
        self._lin.pop()
        self._qn_cache[key] = (r, s)
        return r

    def quick_must(self, c):
        s = z3.simplify(c)
        return z3.is_true(s) or self.must(s)

    def branch(self, c):
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.depth > 0:
            if self.must(s):
                return True
            if self.must(z3.Not(s)):
                return False
            raise Unsupported('data-dependent control flow under a bound index')
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d[0] == 'f':      # forced (not a real choice)
                self._add(s if d[1] else z3.Not(s))
                return d[1]
            self._add(s if d[1] else z3.Not(s))
            return d[1]
        # new decision
        if sum(1 for d in self.decisions if d[0] != 'f') >= self.max_decisions:
            raise Budget('too many decisions on one path')
        nl = self._has_nl()
        if nl and self.quick_not(s):
            rt = z3.unsat
        elif nl and self.quick_not(z3.Not(s)):
            rt = z3.sat
        else:
            rt = self._check(s)
        if rt == z3.unsat:
            self.decisions.append(('f', False)); self.pos += 1
            self._add(z3.Not(s))
            return False
        rf = z3.unsat if nl and self.quick_not(z3.Not(s)) else self._check(z3.Not(s))
        if rf == z3.unsat:
            self.decisions.append(('f', True)); self.pos += 1
            self._add(s)
            return True
        self.pending.append(list(self.decisions) + [('d', False)])
        self.decisions.append(('d', True)); self.pos += 1
        self._add(s)
        return True

    def choose(self, options):
        """n-way nondeterministic choice (no logical condition attached)"""
        if self.depth > 0:
            raise Unsupported('choice under a bound index')
        n = len(options)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return options[d[1]]
        for k in range(n - 1, 0, -1):
            self.pending.append(list(self.decisions) + [('c', k)])
        self.decisions.append(('c', 0)); self.pos += 1
        return options[0]

    def concretize_int(self, e):
        e = z3.simplify(e)
        v = T.zval(e)
        if v is not None:
            return int(v)
        if self.depth > 0:
            raise Unsupported('concretisation under a bound index')
        for _ in range(64):
            # deterministic choice of candidate value: replay uses recorded value
            if self.pos < len(self.decisions) and self.decisions[self.pos][0] == 'v':
                val = self.decisions[self.pos][1]
                self.pos += 1
            else:
                if self.pos < len(self.decisions):
                    raise RuntimeError('replay desync')
                # prefer small non-negative values
                val = None
                for cand in (0, 1, 2, 3):
                    if self._check(e == cand) == z3.sat:
                        val = cand
                        break
                if val is None:
                    self.solver.push()
                    r = self.solver.check()
                    if r != z3.sat:
                        self.solver.pop()
                        raise Unsupported('cannot concretise integer')
                    val = self.solver.model().eval(e, model_completion=True).as_long()
                    self.solver.pop()
                    if self._check(z3.Or(e < -64, e > 64)) != z3.unsat:
                        raise Unsupported('integer with unbounded range used as a concrete value')
                self.decisions.append(('v', val)); self.pos += 1
            if self.branch(e == val):
                return val
        raise Unsupported('cannot concretise integer')

    def assume(self, c):
        c = self._z(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathEnd('assume false')
        self._add(s)
        if self._check() == z3.unsat:
            raise PathEnd('assumption infeasible')

    # ---- folds over symbolic dimensions
    def _bound(self):
        return z3.Int(f'_k{self.depth}')

    def _under(self, n, g):
        k = self._bound()
        self.depth += 1
        self.scope.append(z3.And(k >= 0, k < zi(n)))
        try:
            body = lift(g(SInt(k)))
        finally:
            self.scope.pop()
            self.depth -= 1
        return k, body

    def _depends_on_sum(self, term, k):
        out = {}
        _free_consts(term, set(), out)
        for nm in out:
            if nm in self.sums:
                o2 = {}
                self._all_consts(self.sums[nm][2], o2)
                if k.decl().name() in o2:
                    return True
        return False

    def _all_consts(self, term, out):
        o = {}
        _free_consts(term, set(), o)
        for nm, t in o.items():
            if nm in out:
                continue
            out[nm] = t
            if nm in self.sums:
                self._all_consts(self.sums[nm][2], out)

    def mk_sum(self, n, g, kind=None):
        n = dim(n)
        if isint(n):
            r = None
            for i in range(n):
                v = lift(g(i))
                r = v if r is None else T.s_add(r if r.kind != 'b' else r.to('i'), v if v.kind != 'b' else v.to('i'))
            if r is None:
                return lift({'i': 0, 'f': 0.0, 'c': 0j, 'b': 0, None: 0}[kind])
            return r.to('i') if r.kind == 'b' else r
        k, body = self._under(n, g)
        if body.kind == 'b':
            body = body.to('i')
        inf = None
        if body.inf is not None:
            self.scope.append(z3.And(k >= 0, k < zi(n)))
            try:
                if not self.must(z3.Not(body.inf)):
                    raise Unsupported('sum of possibly infinite terms')
            finally:
                self.scope.pop()
        nan = None
        if body.nan is not None:
            self.scope.append(z3.And(k >= 0, k < zi(n)))
            try:
                if not self.must(z3.Not(body.nan)):
                    nan = self._quant('exists', k, n, body.nan)
            finally:
                self.scope.pop()
        if body.kind == 'c':
            return Sym('c', self._sumsym(n, k, body.re, z3.RealSort()), self._sumsym(n, k, body.im, z3.RealSort()), nan)
        return Sym(body.kind, self._sumsym(n, k, body.re, z3.IntSort() if body.kind == 'i' else z3.RealSort()), None, nan)

    def _sumsym(self, n, k, body, sort):
        b = z3.simplify(body, som=True, sort_sums=True)
        # split top-level sums and pull out numeric / k-free factors
        kn = k.decl().name()

        def has_k(t):
            o = {}
            self._all_consts(t, o)
            return kn in o

        def one(t):
            if not has_k(t):
                nn = zi(n)
                return (z3.ToReal(nn) if sort == z3.RealSort() else nn) * t
            if z3.is_mul(t):
                fac = [c for c in t.children() if not has_k(c)]
                rest = [c for c in t.children() if has_k(c)]
                if fac:
                    r = rest[0]
                    for c in rest[1:]:
                        r = r * c
                    f = fac[0]
                    for c in fac[1:]:
                        f = f * c
                    return f * one(r)
            if z3.is_div(t) and not has_k(t.children()[1]):
                return one(t.children()[0]) / t.children()[1]
            return atom(t)

        def atom(t):
            key = (str(sort), t.sexpr(), zi(n).sexpr(), kn)
            s = self.sum_keys.get(key)
            if s is None:
                nm = self.fresh_name('SUM')
                s = z3.Const(nm, sort)
                self.sum_keys[key] = s
                self.sums[nm] = (n, k, t, s)
            return s
        if z3.is_add(b):
            parts = [one(c) for c in b.children()]
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        return one(b)

    def _quant(self, which, k, n, body):
        if self._depends_on_sum(body, k):
            raise Unsupported('quantifier over a nested fold')
        body = z3.simplify(body)
        rng = z3.And(k >= 0, k < zi(n))
        o = {}
        _free_consts(body, set(), o)
        if k.decl().name() not in o:
            return z3.And(zi(n) > 0, body) if which == 'exists' else z3.Or(zi(n) <= 0, body)
        self.uses_quant = True
        q = z3.Int(self.fresh_name('q'))
        body = z3.substitute(body, (k, q))
        rng = z3.substitute(rng, (k, q))
        return z3.Exists([q], z3.And(rng, body)) if which == 'exists' else z3.ForAll([q], z3.Implies(rng, body))

    def mk_exists(self, n, g):
        n = dim(n)
        if isint(n):
            return SBool(T.zb(T.bor(*[lift(g(i)).as_bool() for i in range(n)])) if n else T.FALSE)
        k, body = self._under(n, g)
        return SBool(self._quant('exists', k, n, body.as_bool()))

    def mk_forall(self, n, g):
        n = dim(n)
        if isint(n):
            xs = [lift(g(i)).as_bool() for i in range(n)]
            return SBool(z3.And(*xs) if xs else T.TRUE)
        k, body = self._under(n, g)
        return SBool(self._quant('forall', k, n, body.as_bool()))

    def mk_extremum(self, n, g, name):
        if self.depth > 0:
            raise Unsupported('nested extremum')
        if not self.must(zi(n) > 0):
            if self.branch(zi(n) == 0):
                raise ValueError('zero-size array to reduction operation')
        k, body = self._under(n, g)
        if body.nan is not None or body.inf is not None:
            raise Unsupported('extremum of possibly non-finite values')
        key = ('ext', name, z3.simplify(body.re).sexpr(), zi(n).sexpr())
        if key in self.sum_keys:
            return Sym(body.kind, self.sum_keys[key])
        m = z3.Const(self.fresh_name('EXT'), body.re.sort())
        w = z3.Int(self.fresh_name('extw'))
        q = z3.Int(self.fresh_name('q'))
        bq = z3.substitute(body.re, (k, q))
        self.uses_quant = True
        self.axiom(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), m <= bq if name == 'min' else m >= bq)))
        self.axiom(z3.And(w >= 0, w < zi(n), z3.substitute(body.re, (k, w)) == m))
        self.sum_keys[key] = m
        return Sym(body.kind, m)

    def generic_index(self, shape):
        if all(isint(d) for d in shape):
            return None
        return tuple(SInt(self.fresh_int('gi')) if not isint(d) else SInt(self.fresh_int('gi')) for d in shape)

    def generic_range(self, idx, shape):
        return z3.And(*[z3.And(zi(i) >= 0, zi(i) < zi(d)) for i, d in zip(idx, shape)])

    # ---- inputs (harness API)
    def int(self, name, lo=None, hi=None, conc=None):
        v = z3.Int(name)
        self.inputs.append((name, 'int', v))
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return SInt(v)

    ant = int

    def dim(self, name, lo=1, hi=None, conc=None):
        """array dimension"""
        v = z3.Int(name)
        self.inputs.append((name, 'dim', v))
        self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return SInt(v)

    def bdim(self, name, options, conc=None):
        """bounded dimension: every value of options is explored"""
        v = self.choose(list(options))
        self.inputs.append((name, 'fixed', v))
        self.bounded = True
        return v

    def real(self, name, lo=None, hi=None, nonzero=False, conc=None):
        v = z3.Real(name)
        self.inputs.append((name, 'real', v))
        if lo is not None:
            self._add(v >= T._rv(lo))
        if hi is not None:
            self._add(v <= T._rv(hi))
        if nonzero:
            self._add(v != 0)
        return Sym('f', v)

    def cplx(self, name, nonzero=False):
        a, b = z3.Real(name + '.re'), z3.Real(name + '.im')
        self.inputs.append((name, 'cplx', (a, b)))
        if nonzero:
            self._add(z3.Or(a != 0, b != 0))
        return Sym('c', a, b)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.append((name, 'bool', v))
        return SBool(v)

    def choice(self, name, options):
        options = list(options)
        v = self.choose(options)
        self.inputs.append((name, 'choice', options.index(v)))
        return v

    def array(self, name, shape, dtype=float, nan=False, inf=False, lo=None, hi=None, nonzero=False, sorted_=False, strict=False):
        a = self._mk_input_array(name, shape, np.dtype(dtype), nan=nan, inf=inf, lo=lo, hi=hi, nonzero=nonzero)
        self.inputs.append((name, 'array', a))
        return a

    def _mk_input_array(self, name, shape, dtype, nan=False, inf=False, lo=None, hi=None, nonzero=False):
        shape = tuple(dim(s) for s in shape)
        kind = kind_of_dtype(dtype)
        nd = len(shape)
        isorts = [z3.IntSort()] * nd

        def uf(suffix, sort):
            if nd == 0:
                c = z3.Const(name + suffix, sort)
                return lambda *a: c
            f = z3.Function(name + suffix, *isorts, sort)
            return f
        ctxself = self
        if kind == 'b':
            f = uf('', z3.BoolSort())
            fn = lambda idx: SBool(f(*[zi(i) for i in idx]))
        elif kind == 'i':
            f = uf('', z3.IntSort())

            def fn(idx):
                t = f(*[zi(i) for i in idx])
                ctxself._range(t, lo, hi, nonzero)
                return SInt(t)
        elif kind == 'f':
            f = uf('', z3.RealSort())
            fnan = uf('.nan', z3.BoolSort()) if nan else None
            finf = uf('.inf', z3.BoolSort()) if inf else None

            def fn(idx):
                z = [zi(i) for i in idx]
                t = f(*z)
                ctxself._range(t, lo, hi, nonzero)
                return Sym('f', t, None, fnan(*z) if nan else None, z3.And(finf(*z), t != 0) if inf else None)
        else:
            f, g = uf('.re', z3.RealSort()), uf('.im', z3.RealSort())
            fnan = uf('.nan', z3.BoolSort()) if nan else None
            finf = uf('.inf', z3.BoolSort()) if inf else None

            def fn(idx):
                z = [zi(i) for i in idx]
                if nonzero:
                    k = ('nz', name) + tuple(x.sexpr() for x in z)
                    ctxself.axiom(z3.Or(f(*z) != 0, g(*z) != 0), key=k)
                return Sym('c', f(*z), g(*z), fnan(*z) if nan else None, finf(*z) if inf else None)
        return SymArray(shape, dtype, fn, name=name)

    def _range(self, t, lo, hi, nonzero):
        if lo is None and hi is None and not nonzero:
            return
        k = ('rng', t.sexpr())
        if k in self.axiom_keys:
            return
        cs = []
        mk = (lambda x: z3.IntVal(x)) if z3.is_int(t) else T._rv
        if lo is not None:
            cs.append(t >= mk(lo))
        if hi is not None:
            cs.append(t <= mk(hi))
        if nonzero:
            cs.append(t != 0)
        self.axiom(z3.And(*cs) if len(cs) > 1 else cs[0], key=k)

    # ---- spec helpers (polymorphic with ConcCtx)
    def _z(self, c):
        if isinstance(c, (bool, np.bool_)) and not is_sym(c):
            return z3.BoolVal(bool(c))
        if is_sym(c):
            return c.as_bool()
        if isinstance(c, SymArrayBase):
            return c.item().as_bool()
        if isinstance(c, z3.BoolRef):
            return c
        raise TypeError(f'not a condition: {type(c)}')

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return SBool(z3.BoolVal(a == b if not (is_sym(a) or is_sym(b)) else False))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b) or type(a) is not type(b):
                return SBool(T.FALSE)
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            return SBool(T.FALSE)
        if isinstance(a, SymArrayBase) and a.ndim == 0:
            a = a.item()
        if isinstance(b, SymArrayBase) and b.ndim == 0:
            b = b.item()
        return SBool(T.s_same(a, b))

    def same_kind(self, a, b):
        return lift(a).kind == lift(b).kind

    def and_(self, *xs): return SBool(z3.And(*[self._z(x) for x in xs]) if xs else T.TRUE)
    def or_(self, *xs): return SBool(z3.Or(*[self._z(x) for x in xs]) if xs else T.FALSE)
    def not_(self, x): return SBool(z3.Not(self._z(x)))
    def implies(self, a, b): return SBool(z3.Implies(self._z(a), self._z(b)))
    def iff(self, a, b): return SBool(self._z(a) == self._z(b))
    def ite(self, c, a, b): return T.s_where(SBool(self._z(c)), lift(a), lift(b))
    def sum(self, n, f): return self.mk_sum(n, f)
    def exists(self, n, f): return self.mk_exists(n, lambda i: SBool(self._z(f(i))))
    def forall(self, n, f): return self.mk_forall(n, lambda i: SBool(self._z(f(i))))
    def finite(self, x): return T.s_isfinite(lift(x))
    def absv(self, x): return T.s_abs(lift(x))
    def abs2(self, x):
        x = lift(x)
        return T.s_mul(x, x) if x.kind != 'c' else Sym('f', x.re * x.re + x.im * x.im, None, x.nan, x.inf, x.is_zero())
    def conj(self, x): return T.s_conj(lift(x))
    def expi(self, x):
        """exp(i x)"""
        return T.s_exp(Sym('c', z3.RealVal(0), lift(x).as_real()))

    def indices(self, *shape):
        """for all indices of shape: one arbitrary (Skolem) index tuple"""
        shape = [dim(s) for s in shape]
        idx = []
        for d in shape:
            if isint(d) and d == 1:
                idx.append(0)
                continue
            if isint(d) and d == 0:
                return
            if not isint(d) and self.must(zi(d) == 1):
                idx.append(0)
                continue
            i = self.fresh_int('ix')
            self._add(z3.And(i >= 0, i < zi(d)))
            idx.append(SInt(i))
        if (self.quick_not(T.TRUE) if self._has_nl() else self._check() == z3.unsat):
            return
        yield tuple(idx)

    def index_in(self, name, n):
        """an arbitrary in-range index (declared input, so it is part of counter-models)"""
        v = z3.Int(name)
        self.inputs.append((name, 'int', v))
        self._add(z3.And(v >= 0, v < zi(dim(n))))
        if self._check() == z3.unsat:
            raise PathEnd('empty')
        return SInt(v)

    def at(self, a, idx):
        return A.asarr(a).at(tuple(idx)) if not isinstance(a, A.MaskSel) else None

    def shape_is(self, name, a, shape):
        shape = tuple(dim(s) for s in shape)
        a = A.asarr(a)
        if a.ndim != len(shape):
            return self.check(name, False)
        self.check(name, self.and_(*[SBool(zi(x) == zi(y)) for x, y in zip(a._shape, shape)]))

    def check_array(self, name, a, shape, spec):
        """a has the shape and a[idx] == spec(idx) for every idx"""
        self.shape_is(name + '.shape', a, shape)
        a = A.asarr(a)
        for idx in self.indices(*shape):
            self.check(name, self.eq(a.at(idx), spec(idx)))

    def check_same(self, name, a, b):
        """arrays identical"""
        b = A.asarr(b)
        self.check_array(name, a, b._shape, lambda idx: b.at(idx))

    def snapshot(self, a):
        return a.copy()

    def is_kind(self, a, k):
        return A.asarr(a).kind == k

    def reachable(self, name):
        """vacuity guard: this point must be reachable with the current assumptions"""
        r = self._check()
        self.trace.append((name, str(r)))

    def note(self, s):
        self.notes.append(s)

    # ---- obligations
    def _lemmas(self, goal):
        """congruence / sign lemmas for the fold symbols that occur in the goal or the path"""
        names = {}
        for t in [goal] + self.pc:
            self._all_consts(t, names)
        syms = [nm for nm in names if nm in self.sums]
        lem = []
        if not syms:
            return lem
        sv = z3.Solver()
        sv.set('timeout', 3000)
        for t in self.pc + self.axioms:
            sv.add(t)
        t0 = time.time()
        # innermost first: sums whose bodies mention no other sum come first
        depth = lambda nm: int(self.sums[nm][1].decl().name()[2:])
        syms.sort(key=depth, reverse=True)

        def valid(f, n, k):
            sv.push()
            sv.add(k >= 0, k < zi(n), z3.Not(f))
            for l in lem:
                sv.add(l)
            STATS['queries'] += 1
            r = sv.check() == z3.unsat
            sv.pop()
            return r
        for x, nm in enumerate(syms):
            n, k, b, s = self.sums[nm]
            if time.time() - t0 > 30:
                break
            if valid(b >= 0, n, k):
                lem.append(s >= 0)
                if self.witness and not self._depends_on_sum(b, k):
                    # a fold of nonnegative terms is at least each of its terms
                    q = z3.Int(self.fresh_name('w'))
                    lem.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), s >= z3.substitute(b, (k, q)))))
                    lem.append(z3.Implies(zi(n) > 0, s >= z3.substitute(b, (k, z3.IntVal(0)))))
            if valid(b == 0, n, k):
                lem.append(s == 0)
            elif valid(b == 1, n, k):
                lem.append(s == (zi(n) if z3.is_int(s) else z3.ToReal(zi(n))))
            # instantiate: nonneg sum is >= each of its terms; and is zero only if all are
            for y in range(x):
                n2, k2, b2, s2 = self.sums[syms[y]]
                if not k.eq(k2) or s.sort() != s2.sort():
                    continue
                if not self.must(zi(n) == zi(n2)):
                    continue
                if valid(b == b2, n, k):
                    lem.append(s == s2)
                elif valid(b == -b2, n, k):
                    lem.append(s == -s2)
                elif z3.is_arith(b) and valid(b <= b2, n, k):
                    lem.append(s <= s2)
                elif valid(b2 <= b, n, k):
                    lem.append(s2 <= s)
        STATS['solver_s'] += time.time() - t0
        return lem

    witness = False

    def use_witness(self):
        """also instantiate: a fold of nonnegative terms is at least each of its terms (non-negativity is discharged first)"""
        self.witness = True

    def sum_witness(self, S, n, f, i):
        """lemma (nonneg terms): a fold of nonnegative terms is >= its i-th term. Checked before use."""
        k, body = self._under(n, f)
        self.scope.append(z3.And(k >= 0, k < zi(n)))
        try:
            ok = self.must(body.as_real() >= 0)
        finally:
            self.scope.pop()
        if ok:
            self.axiom(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(n)), lift(S).as_real() >= lift(f(i)).as_real()))
        return ok

    def check(self, name, cond):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        g0 = self._z(cond)
        g = z3.simplify(g0)
        path = list(self.decisions[:self.pos])
        if z3.is_true(g):
            STATS['simplifier'] += 1
            self.obls.append(Obligation(name, 'proved', path, backend='simplifier'))
            return
        t0 = time.time()
        lem = self._lemmas(g) if self.sums else []
        g0 = self._resolve(g0, lem)
        g = z3.simplify(g0)
        if z3.is_true(g):
            self.obls.append(Obligation(name, 'proved', path, backend='z3', time=time.time() - t0))
            return
        done = self._rational(g0, lem)
        if done:
            g = z3.simplify(z3.substitute(g0, *[(e, T.TRUE) for e in done]))
            if z3.is_true(g):
                STATS['solver_s'] += time.time() - t0
                self.obls.append(Obligation(name, 'proved', path, backend='rational-normal-form', time=time.time() - t0))
                return
        if self._nl(g0) and self._cases(g0, lem, 0, [0]):
            STATS['solver_s'] += time.time() - t0
            self.obls.append(Obligation(name, 'proved', path, backend='case-split+rational-normal-form', time=time.time() - t0))
            return
        if any(self._nl(t) for t in self.axioms + self.pc) and self._lin_unsat(g, lem, 1500):
            STATS['solver_s'] += time.time() - t0
            STATS['z3_unsat'] += 1
            self.obls.append(Obligation(name, 'proved', path, backend='z3' if not done else 'rational-normal-form+z3', time=time.time() - t0))
            return
        s = z3.Solver()
        s.set('timeout', self.query_timeout)
        for t in self.pc + self.axioms + lem:
            s.add(t)
        s.add(z3.Not(g))
        STATS['queries'] += 1
        r = s.check()
        backend = 'z3'
        dt = time.time() - t0
        if r == z3.unknown:
            r2 = self._poly(g)
            if r2:
                r, backend = z3.unsat, 'polynomial-normal-form'
        if r == z3.unknown:
            r2 = self._cvc5(s)
            if r2 == 'unsat':
                r, backend = z3.unsat, 'cvc5'
                STATS['cvc5_unsat'] += 1
        dt = time.time() - t0
        STATS['solver_s'] += dt
        if r == z3.unsat:
            STATS['z3_unsat'] += backend == 'z3'
            self.obls.append(Obligation(name, 'proved', path, time=dt, backend=backend))
        elif r == z3.sat:
            STATS['z3_sat'] += 1
            m = s.model()
            ev = None
            try:
                ev = self._extract(s, m)
            except Exception as e:  # noqa
                ev = {'__error__': repr(e)}
            self.obls.append(Obligation(name, 'refuted', path, model=ev, time=dt, backend='z3',
                                        detail=f'goal: {str(g)[:2000]}'))
        else:
            STATS['z3_unknown'] += 1
            self.obls.append(Obligation(name, 'unknown', path, time=dt, backend='z3', detail=f'{s.reason_unknown()}; goal: {str(g)[:600]}'))

    def _resolve(self, g, lem, known=None):
        """replace conditional subterms whose condition the (linear) path facts decide by the branch taken"""
        if not any(self._nl(t) for t in [g]):
            return g
        cache, asked = {}, [0]

        def ask(q):
            if asked[0] > 60:
                return None
            asked[0] += 1
            q = z3.simplify(q)
            if z3.is_true(q) or z3.is_false(q):
                return z3.is_true(q)
            if self._nl(q):
                return None
            k = ('dec', q.get_id(), len(self.pc), len(self.axioms))
            h = self._ent_cache.get(k)
            if h is None:
                h = (False if self._lin_unsat(z3.Not(q), lem, 500) else True if self._lin_unsat(q, lem, 500) else None, q)
                self._ent_cache[k] = h
            return h[0]

        def go(t):
            h = cache.get(t.get_id())
            if h is not None:
                return h[0]
            r = t
            if known and t.get_id() in known:
                r = known[t.get_id()][1]
            elif z3.is_app(t) and t.num_args():
                ch = t.children()
                if t.decl().kind() == z3.Z3_OP_ITE:
                    q = z3.simplify(go(ch[0]))
                    d = ask(q)
                    if d is not None:
                        r = go(ch[1] if d else ch[2])
                    else:
                        r = z3.If(q, go(ch[1]), go(ch[2]))
                else:
                    nc = [go(x) for x in ch]
                    if any(not a.eq(b) for a, b in zip(nc, ch)):
                        k = t.decl().kind()
                        if k == z3.Z3_OP_ADD:
                            r = z3.Sum(nc)
                        elif k == z3.Z3_OP_MUL:
                            r = z3.Product(nc)
                        elif k == z3.Z3_OP_AND:
                            r = z3.And(nc)
                        elif k == z3.Z3_OP_OR:
                            r = z3.Or(nc)
                        else:
                            r = t.decl()(*nc)
                        e = self.dens.get(t.get_id())
                        if e is not None and r.get_id() not in self.dens:
                            self.dens[r.get_id()] = (r,) + tuple(e[1:])
            cache[t.get_id()] = (r, t)
            return r
        try:
            return go(g)
        except (RecursionError, z3.Z3Exception):
            return g

    def _cases(self, g, lem, depth, n, known=None):
        """prove g by splitting on the conditions of its conditional subterms, each case by the rational normal form"""
        n[0] += 1
        if n[0] > 1000 or (self.deadline is not None and time.time() > self.deadline):
            return False
        if depth:
            g = self._resolve(g, lem, known)
            s = z3.simplify(g)
            if z3.is_true(s):
                return True
            if not z3.is_false(s) and self._nl(g):
                done = self._rational(g, lem)
                if done:
                    s = z3.simplify(z3.substitute(g, *[(e, T.TRUE) for e in done]))
                    if z3.is_true(s):
                        return True
            if self._lin_unsat(z3.BoolVal(False), lem, 500):
                return True       # the case is impossible
            if not self._nl(s):
                if self._lin_unsat(s, lem, 500):
                    return True
        if depth >= 12:
            return False
        c = self._ite_cond(g)
        if c is None:
            return False
        for fact in (c, z3.Not(c)):
            keep, self._ent_cache = self._ent_cache, {}
            self.pc.append(fact)
            try:
                ok = self._cases(g, lem, depth + 1, n, {**(known or {}), c.get_id(): (c, z3.BoolVal(fact is c))})
            finally:
                self.pc.pop()
                self._ent_cache = keep
            if not ok:
                return False
        return True

    def _ite_cond(self, g):
        """a linear condition of some conditional subterm (innermost boolean atom)"""
        stack, seen = [g], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                a = t.children()[0]
                while z3.is_and(a) or z3.is_or(a) or z3.is_not(a):
                    a = a.children()[0]
                if not self._nl(a) and not (z3.is_true(a) or z3.is_false(a)):
                    return a
            stack.extend(t.children())
        return None

    def _rational(self, g, lem):
        """facts: real equalities in the goal that hold as identities of rational functions"""
        eqs, out = [], []
        ratnorm.equalities(g, eqs)
        for e in eqs[:12]:
            a, b = e.children()
            if not (_nonlinear(a) or _nonlinear(b)):
                continue
            n = ratnorm.Norm(lambda d: self._nonzero(d, lem), lambda t: self._entails(t >= 0, lem),
                             lambda q: self._decide(q, lem), self.sqrt_of)
            try:
                if n.equal(a, b):
                    out.append(e)
                    STATS['rational'] = STATS.get('rational', 0) + 1
                elif os.environ.get('VERIF_DEBUG'):
                    print('RATNORM not equal', e, n.norm(a), n.norm(b), {v: k for k, v in n.atoms.items()}, file=sys.stderr)
            except ratnorm.Fail as ex:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    print('RATNORM fail', str(e)[:3000], traceback.format_exc(), file=sys.stderr)
        return out

    def _decide(self, q, lem):
        if not self._nl(q):
            k = ('dec', z3.simplify(q).get_id(), len(self.pc), len(self.axioms))
            h = self._ent_cache.get(k)
            if h is None:
                q = z3.simplify(q)
                h = (True if z3.is_true(q) else False if z3.is_false(q) else False if self._lin_unsat(z3.Not(q), lem, 500) else True if self._lin_unsat(q, lem, 500) else None, q)
                self._ent_cache[k] = h
            return h[0]
        return False if self._entails(z3.Not(q), lem) else True if self._entails(q, lem) else None

    def _nonzero(self, d, lem):
        if d.get_id() in self.dens:
            return self._entails(z3.Not(self.dens[d.get_id()][1]), lem)
        if d.decl().kind() == z3.Z3_OP_MUL:
            return all(self._nonzero(x, lem) for x in {c.get_id(): c for c in d.children()}.values())
        v = T.zval(d)
        if v is not None:
            return v != 0
        if d.decl().kind() == z3.Z3_OP_ADD and T._sumsq(d):
            return self._entails(z3.Or([(x != 0) if T.zval(x) is None else (x > 0) for x in (c if T.zval(c) is not None else c.children()[0] for c in d.children())]), lem)
        return self._entails(d != 0, lem)

    def _entails(self, f, lem):
        k = ('ent', f.get_id(), len(self.pc), len(self.axioms))
        h = self._ent_cache.get(k)
        if h is not None:
            return h[0]
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        r = self._lin_unsat(f, lem, 1000)
        if not r:
            s = z3.Solver()
            s.set('timeout', 3000)
            for t in self.pc + self.axioms + lem:
                s.add(t)
            s.add(z3.Not(f))
            STATS['queries'] += 1
            r = s.check() == z3.unsat
        self._ent_cache[k] = (r, f)
        return r

    def _lin_unsat(self, f, lem, tmo):
        """does f follow from the linear facts alone? (fast; those facts are a subset, so a yes is sound)"""
        s = z3.Solver()
        s.set('timeout', tmo)
        for t in self.pc + self.axioms + lem:
            if not self._nl(t):
                s.add(t)
        s.add(z3.Not(f))
        STATS['queries'] += 1
        return s.check() == z3.unsat

    def _nl(self, t):
        h = self._nl_cache.get(t.get_id())
        if h is not None:
            return h[0]
        r = False
        stack, seen = [t], set()
        while stack and not r:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                r = True
                break
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_MUL and sum(1 for q in ch if T.zval(q) is None) > 1:
                r = True
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and T.zval(ch[1]) is None:
                r = True
            elif k == z3.Z3_OP_POWER:
                r = True
            stack.extend(ch)
        self._nl_cache[t.get_id()] = (r, t)
        return r

    def _poly(self, g):
        """prove (conjunctions of) rational-function equalities by cross-multiplication"""
        gs = g.children() if z3.is_and(g) else [g]
        for e in gs:
            if not (z3.is_eq(e) and z3.is_real(e.children()[0])):
                return False
            a, b = e.children()
            d = z3.simplify(a - b, som=True)
            v = T.zval(d)
            if v is None or v != 0:
                return False
        return True

    def _cvc5(self, s):
        try:
            import subprocess
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--tlimit', str(self.query_timeout), '--nl-ext-tplanes', '-'], input=txt, capture_output=True, text=True, timeout=self.query_timeout / 1000 + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:  # noqa
            return 'unknown'

    def _extract(self, s, m):
        """concrete inputs from a counter-model; shrink dimensions first"""
        dims = [p for (_, k, p) in self.inputs if k == 'dim']
        if dims:
            for b in (2, 3, 5, 9):
                s.push()
                for d in dims:
                    s.add(d <= b)
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                    s.pop()
                    break
                s.pop()
        ints = [p for (_, k, p) in self.inputs if k == 'int']
        if ints:
            for b in (5, 50, 500):
                s.push()
                for d in dims:
                    s.add(d == m.eval(d, model_completion=True))
                for d in ints:
                    s.add(d <= b, d >= -1)
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    break
                s.pop()
        # keep values moderate for float replay, when possible
        def num(t):
            v = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                f = v.as_fraction()
                return float(f)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return 0
        out = {}
        for name, k, p in self.inputs:
            if k in ('int', 'dim'):
                out[name] = int(num(p))
            elif k == 'real':
                out[name] = float(num(p))
            elif k == 'cplx':
                out[name] = complex(num(p[0]), num(p[1]))
            elif k == 'bool':
                out[name] = bool(num(p))
            elif k in ('choice', 'fixed'):
                out[name] = p
            elif k == 'array':
                sh = tuple(int(num(zi(d))) for d in p._shape)
                if int(np.prod(sh)) > 20000:
                    raise Unsupported('model too large')
                a = np.zeros(sh, dtype=p.dtype)
                f0 = p.orig_fn if hasattr(p, 'orig_fn') else None
                for ii in np.ndindex(*sh):
                    e = self._orig[name](tuple(int(x) for x in ii))
                    if e.kind == 'b':
                        a[ii] = bool(num(e.re))
                    elif e.kind == 'c':
                        v = complex(num(e.re), num(e.im))
                        if e.nan is not None and num(e.nan):
                            v = complex(np.nan, np.nan)
                        elif e.inf is not None and num(e.inf):
                            v = complex(np.inf, 0)
                        a[ii] = v
                    else:
                        v = num(e.re)
                        if e.nan is not None and num(e.nan):
                            v = np.nan
                        elif e.inf is not None and num(e.inf):
                            v = np.inf if v >= 0 else -np.inf
                        a[ii] = v
                out[name] = a
        return out

    @property
    def _orig(self):
        if not hasattr(self, '_orig_d'):
            self._orig_d = {}
        for name, k, p in self.inputs:
            if k == 'array' and name not in self._orig_d:
                raise RuntimeError('missing original')
        return self._orig_d


_orig_array = SymCtx.array


def _array(self, name, shape, dtype=float, **kw):
    a = _orig_array(self, name, shape, dtype, **kw)
    if not hasattr(self, '_orig_d'):
        self._orig_d = {}
    self._orig_d[name] = a._store.fn
    return a


SymCtx.array = _array


# --------------------------------------------------------------------------- concrete context
class Skip(BaseException):
    """concrete input does not satisfy the precondition"""


class ContractFailure(Exception):
    pass


class ConcCtx:
    """Same harness API on concrete values: random inputs (bounded run) or a given model (replay)."""
    symbolic = False

    def __init__(self, seed=0, values=None, big=False):
        self.rng = random.Random(seed)
        self.nrng = np.random.default_rng(seed)
        self.values = values
        self.record = {}
        self.failures = []
        self.checks = 0
        self.big = big
        self.rtol = 1e-8
        # style of this run: how often ints collide, how wild the values are
        self.small_ints = self.rng.choice([2, 3, 4, 8, 350])
        self.flag_p = self.rng.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0])
        self.val_style = self.rng.choice(['normal', 'normal', 'small', 'ints', 'zeros'])
        self.counter = itertools.count()

    def fresh_name(self, base):
        return f'{base}!{next(self.counter)}'

    def _given(self, name):
        return self.values is not None and name in self.values

    def _rec(self, name, v):
        self.record[name] = v
        return v

    def int(self, name, lo=None, hi=None, conc=None):
        if self._given(name):
            v = int(self.values[name])
        else:
            a, b = conc if conc is not None else ((lo if lo is not None else 0), (hi if hi is not None else (lo or 0) + self.small_ints))
            v = self.rng.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip
        return self._rec(name, v)

    ant = int

    def dim(self, name, lo=1, hi=None, conc=None):
        if self._given(name):
            v = int(self.values[name])
        else:
            a, b = conc if conc is not None else (lo, min(hi, lo + 5) if hi is not None else lo + self.rng.choice([1, 3, 5]))
            v = self.rng.randint(a, b)
        return self._rec(name, v)

    def bdim(self, name, options, conc=None):
        if self._given(name):
            return self._rec(name, self.values[name])
        opts = list(conc) if conc is not None else list(options)
        return self._rec(name, self.rng.choice(opts))

    def _realv(self):
        s = self.val_style
        r = self.rng
        if s == 'ints':
            return float(r.randint(-3, 3))
        if s == 'zeros':
            return r.choice([0.0, 0.0, 1.0, -1.0, r.gauss(0, 1)])
        if s == 'small':
            return r.choice([r.gauss(0, 1e-3), r.gauss(0, 1)])
        return r.gauss(0, 1) * r.choice([1, 1, 10])

    def real(self, name, lo=None, hi=None, nonzero=False, conc=None):
        if self._given(name):
            v = float(self.values[name])
        elif conc is not None:
            v = conc(self.rng) if callable(conc) else self.rng.uniform(*conc)
        else:
            v = self._bounded(lo, hi, nonzero)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonzero and v == 0):
            raise Skip
        return self._rec(name, v)

    def _bounded(self, lo, hi, nonzero):
        for _ in range(50):
            if lo is not None and hi is not None:
                v = self.rng.choice([lo, hi, self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)])
            elif lo is not None:
                v = lo + abs(self._realv())
            elif hi is not None:
                v = hi - abs(self._realv())
            else:
                v = self._realv()
            if not (nonzero and v == 0):
                return v
        return 1.0

    def cplx(self, name, nonzero=False):
        if self._given(name):
            v = complex(self.values[name])
        else:
            v = complex(self._realv(), self._realv())
        if nonzero and v == 0:
            raise Skip
        return self._rec(name, v)

    def bool(self, name):
        v = bool(self.values[name]) if self._given(name) else self.rng.random() < 0.5
        return self._rec(name, v)

    def choice(self, name, options):
        options = list(options)
        i = self.values[name] if self._given(name) else self.rng.randrange(len(options))
        self.record[name] = i
        return options[i]

    def array(self, name, shape, dtype=float, nan=False, inf=False, lo=None, hi=None, nonzero=False):
        shape = tuple(int(s) for s in shape)
        if self._given(name):
            a = np.array(self.values[name], dtype=dtype).reshape(shape)
            self.record[name] = a.copy()
            return a
        k = kind_of_dtype(dtype)
        n = int(np.prod(shape))
        if k == 'b':
            vals = [self.rng.random() < self.flag_p for _ in range(n)]
        elif k == 'i':
            vals = [self.rng.randint(lo if lo is not None else -3, hi if hi is not None else (lo or 0) + 6) for _ in range(n)]
            if nonzero:
                vals = [v or 1 for v in vals]
        elif k == 'f':
            vals = [self._bounded(lo, hi, nonzero) for _ in range(n)]
            if nan:
                vals = [np.nan if self.rng.random() < 0.1 else v for v in vals]
        else:
            vals = [complex(self._bounded(lo, hi, nonzero), self._realv()) for _ in range(n)]
            if nan:
                vals = [complex(np.nan, np.nan) if self.rng.random() < 0.1 else v for v in vals]
        a = np.array(vals, dtype=dtype).reshape(shape)
        if nonzero and k == 'c' and a.size:
            a[a == 0] = 1
        self.record[name] = a.copy()
        return a

    def assume(self, c):
        if not bool(c):
            raise Skip

    # spec helpers
    def eq(self, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray):
            a = a.item() if a.size == 1 else a
        if isinstance(b, np.ndarray):
            b = b.item() if b.size == 1 else b
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.shape(a) == np.shape(b) and all(self.eq(x, y) for x, y in zip(np.ravel(a), np.ravel(b)))
        if isinstance(a, (bool, np.bool_, int, np.integer)) and isinstance(b, (bool, np.bool_, int, np.integer)):
            return bool(a == b)
        a, b = complex(a), complex(b)
        na, nb = (math.isnan(a.real) or math.isnan(a.imag)), (math.isnan(b.real) or math.isnan(b.imag))
        if na or nb:
            return na == nb
        ia, ib = (math.isinf(a.real) or math.isinf(a.imag)), (math.isinf(b.real) or math.isinf(b.imag))
        if ia or ib:
            return ia == ib and (a == b or a.imag != 0 or b.imag != 0)
        return abs(a - b) <= self.rtol * max(1.0, abs(a), abs(b))

    def same_kind(self, a, b): return np.asarray(a).dtype.kind == np.asarray(b).dtype.kind
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def sum(self, n, f):
        t = 0
        for i in range(int(n)):
            v = f(i)
            t = t + (int(v) if isinstance(v, (bool, np.bool_)) else v)
        return t
    def exists(self, n, f): return any(bool(f(i)) for i in range(int(n)))
    def forall(self, n, f): return all(bool(f(i)) for i in range(int(n)))
    def finite(self, x): return bool(np.isfinite(x))
    def absv(self, x): return abs(x)
    def abs2(self, x): return abs(x) ** 2
    def conj(self, x): return np.conj(x)
    def expi(self, x): return np.exp(1j * x)
    def sum_witness(self, *a): return True
    def use_witness(self): pass

    def indices(self, *shape):
        for ii in np.ndindex(*[int(s) for s in shape]):
            yield ii

    def index_in(self, name, n):
        if int(n) <= 0:
            raise Skip
        if self._given(name):
            return self._rec(name, min(max(0, int(self.values[name])), int(n) - 1))
        return self._rec(name, self.rng.randrange(int(n)))

    def at(self, a, idx): return np.asarray(a)[tuple(idx)]

    def shape_is(self, name, a, shape):
        self.check(name, tuple(np.shape(a)) == tuple(int(s) for s in shape))

    def check_array(self, name, a, shape, spec):
        sh = tuple(int(s) for s in shape)
        if tuple(np.shape(a)) != sh:
            self.check(name + '.shape', False, f'shape {np.shape(a)} != {sh}')
            return
        for idx in self.indices(*sh):
            got = np.asarray(a)[idx]
            want = spec(idx)
            if not self.eq(got, want):
                self.check(name, False, f'at {idx}: got {got!r}, want {want!r}')
                return
        self.check(name, True)

    def check_same(self, name, a, b):
        b = np.asarray(b)
        self.check_array(name, a, b.shape, lambda idx: b[idx])

    def snapshot(self, a): return np.array(a, copy=True)
    def is_kind(self, a, k): return kind_of_dtype(np.asarray(a).dtype) == k
    def reachable(self, name): pass
    def note(self, s): pass

    def check(self, name, cond, detail=''):
        self.checks += 1
        if not bool(cond):
            self.failures.append((name, detail))


# --------------------------------------------------------------------------- contracts
class Contract:
    def __init__(self, prop, name, fn, functions, mode, bound, trials, tmo, paths, assumptions, extra_patches, slow, raises_ok):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.mode, self.bound, self.trials, self.tmo, self.paths = mode, bound, trials, tmo, paths
        self.assumptions = assumptions
        self.extra_patches = extra_patches
        self.slow = slow
        self.raises_ok = raises_ok


REGISTRY = []


def contract(prop, name, functions, mode='proof', bound=None, trials=60, timeout=60, paths=4000, assumptions=(), patches=None, slow=False, raises_ok=()):
    """mode: 'proof' (all inputs), 'bounded' (symbolic values, bounded sizes), 'concrete' (run-time contract only)"""
    def deco(fn):
        REGISTRY.append(Contract(prop, name, fn, list(functions), mode, bound, trials, timeout, paths, list(assumptions), patches, slow, raises_ok))
        return fn
    return deco


def run_symbolic(con, budget):
    """-> dict(status, obligations, paths, ...)"""
    res = {'obls': [], 'paths': 0, 'status': 'ok', 'reason': '', 'reach': 0, 'exceptions': []}
    work = [[]]
    deadline = time.time() + budget
    t0 = time.time()
    while work:
        dec = work.pop()
        if res['paths'] >= con.paths:
            res['status'], res['reason'] = 'unsupported', f'path limit {con.paths}'
            break
        if time.time() > deadline:
            res['status'], res['reason'] = 'unsupported', f'time budget {budget:.0f}s after {res["paths"]} paths'
            break
        c = SymCtx(dec, deadline=deadline)
        T.set_ctx(c)
        ended = 'done'
        try:
            extra = con.extra_patches(c) if con.extra_patches else None
            with npshim.patched(extra):
                con.fn(c)
        except PathEnd:
            ended = 'pruned'
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f'{f.filename.split("/")[-1]}:{f.lineno}' for f in reversed(tb) if '/repo/' in f.filename), '')
            res['status'], res['reason'] = 'unsupported', f'{type(e).__name__}: {e} @ {loc}'
            ended = 'unsupported'
        except Exception as e:  # the code (or a model) raised: candidate violation, must be replayed
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f'{f.filename.split("/")[-1]}:{f.lineno}' for f in reversed(tb) if '/repo/' in f.filename), tb[-1].name + ':' + str(tb[-1].lineno) if tb else '')
            ev = None
            try:
                s = z3.Solver(); s.set('timeout', 5000)
                for t in c.pc + c.axioms:
                    s.add(t)
                r = s.check()
                if r == z3.sat:
                    ev = c._extract(s, s.model())
            except BaseException:  # noqa
                ev = None
            c.obls.append(Obligation('no-unexpected-exception', 'raised', list(c.decisions), model=ev, detail=f'{type(e).__name__}: {e} @ {loc}\n' + ''.join(traceback.format_exception(e))[-1500:]))
        finally:
            T.set_ctx(None)
        res['paths'] += ended != 'pruned'
        res['obls'].extend(c.obls)
        res['reach'] += sum(1 for _, r in c.trace if r == 'sat')
        if ended == 'unsupported':
            break
        if any(o.status in ('refuted', 'raised') for o in c.obls):
            if sum(1 for o in res['obls'] if o.status in ('refuted', 'raised')) >= 3:
                break
        work.extend(reversed(c.pending))
    res['time'] = time.time() - t0
    return res


def run_concrete(con, seed, values=None):
    """-> (status, failures, record, nchecks); status in ok/skip/fail"""
    c = ConcCtx(seed=seed, values=values)
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            con.fn(c)
        except Skip:
            return ('skip' if not c.failures else 'fail'), c.failures, c.record, c.checks
        except Unsupported as e:
            return 'skip', [('unsupported', str(e))], c.record, c.checks
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            c.failures.append(('no-unexpected-exception', f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_exception(e))[-1500:]))
    return ('fail' if c.failures else 'ok'), c.failures, c.record, c.checks
