#!/opt/venv/bin/python
"""Usage: check.py PROPERTY [--tier quick|thorough] [--only NAME] [-v]   |   check.py --replay FILE

Discharges the contracts of one property against the current /repo sources.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: checker error.
"""
import os
import sys
for _k, _v in dict(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu',
                   XDG_CONFIG_HOME='/opt/vp/astropy-config').items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import argparse  # noqa: E402
import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import multiprocessing as mp  # noqa: E402
import pickle  # noqa: E402
import base64  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
warnings.simplefilter('ignore')

T_START = time.time()


def blank(con):
    return dict(name=con.name, mode=con.mode, functions=con.functions, bound=con.bound, assumptions=con.assumptions,
                obligations=0, discharged=0, unknown=0, refuted=0, raised=0, paths=0, reach=0, status='', reason='', violation=None,
                trials=0, trial_checks=0, skipped=0, distinct=0, sample=None, backends={}, undecided=[], wall_s=0., stats=dict(solver_s=0., queries=0))


class Bad:
    """a failed obligation, in a form that travels between processes"""
    def __init__(self, o):
        self.name, self.status, self.detail, self.model = o.name, o.status, o.detail, None


def stage_sym(idx, tier, seed):
    """symbolic obligations of one contract, counter-models replayed on the real code"""
    from pyvc import engine as E
    con = E.REGISTRY[idx]
    out = blank(con)
    bad = []
    t0 = time.time()
    for k in E.STATS:
        E.STATS[k] = 0
    try:
        if con.mode != 'concrete':
            budget = con.tmo * (1 if tier == 'quick' else 4)
            r = E.run_symbolic(con, budget)
            out['paths'], out['reach'] = r['paths'], r['reach']
            for o in r['obls']:
                out['obligations'] += 1
                if o.status == 'proved':
                    out['discharged'] += 1
                    out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
                elif o.status == 'unknown':
                    out['unknown'] += 1
                    out['undecided'].append(f'{o.name}: {o.detail[:300]}')
                elif o.status == 'refuted':
                    out['refuted'] += 1
                    bad.append(o)
                else:
                    out['raised'] += 1
                    bad.append(o)
            out['status'], out['reason'] = r['status'], r['reason']
            if r['status'] == 'ok' and out['obligations'] == 0:
                out['status'], out['reason'] = 'unsupported', 'vacuous: no obligation generated'
            out['sym_s'] = round(time.time() - t0, 2)
            # replay counter-models on the real code
            for o in bad[:40]:
                if o.model and '__error__' not in o.model:
                    st, fl, rec, n = E.run_concrete(con, seed, values=o.model)
                    if st == 'fail':
                        out['violation'] = dict(kind='counterexample', obligation=o.name, failures=[list(f) for f in fl[:3]], values=rec, seed=seed, verifier=o.detail)
                        break
        else:
            out['status'] = 'concrete'
    except BaseException as e:  # noqa
        out['status'], out['reason'] = 'unsupported', f'engine: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}'
    out['stats'] = dict(E.STATS)
    out['wall_s'] = round(time.time() - t0, 2)
    keep = []
    for o in bad[:50]:
        k = Bad(o)
        try:
            pickle.dumps(o.model)
            k.model = o.model
        except Exception:  # noqa
            pass
        keep.append(k)
    out['bad'] = keep
    return out


def stage_conc(idx, tier, seed, scale, out):
    """the same contract evaluated at run time: cross-check of the engine when proved, stand-in otherwise"""
    from pyvc import engine as E
    con = E.REGISTRY[idx]
    t0 = time.time()
    bad = out.pop('bad', [])
    proved = out['status'] == 'ok' and not bad and out['unknown'] == 0
    try:
        n = con.trials * scale
        if not proved:
            n *= 4
        if bad:
            n *= 4
        cap = (20 if proved else 60) * (1 if tier == 'quick' else 5) * (1 if scale <= 1 else 2)
        if con.mode == 'concrete':
            cap = con.tmo * (1 if tier == 'quick' else 5)
        seen = set()
        for k in range(n):
            if time.time() - t0 > cap:
                break
            sd = seed * 1000003 + k
            st, fl, rec, nc = E.run_concrete(con, sd)
            if st == 'skip':
                out['skipped'] += 1
                continue
            out['trials'] += 1
            out['trial_checks'] += nc
            seen.add(hashlib.md5(repr(sorted((a, str(b)) for a, b in rec.items())).encode()).hexdigest())
            if out['sample'] is None:
                out['sample'] = str({a: (b.tolist() if hasattr(b, 'tolist') and b.size < 13 else (str(b)[:60])) for a, b in list(rec.items())[:8]})[:600]
            if st == 'fail':
                out['violation'] = dict(kind='failing-input', obligation=fl[0][0], failures=[list(f) for f in fl[:3]], values=rec, seed=sd,
                                        verifier=('; '.join(f'{o.name}: {o.status} {o.detail}' for o in bad[:2])) if bad else '')
                break
        out['distinct'] = len(seen)
    except BaseException as e:  # noqa
        out['reason'] += f' run-time stage: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}'
    if out['violation'] is None and bad:
        hard = [o for o in bad if o.status == 'refuted' and not _abstract(o)]
        if hard:
            o = hard[0]
            out['violation'] = dict(kind='obligation', obligation=o.name, failures=[], values=o.model, seed=seed, verifier=o.detail)
        else:
            out['undecided'] += [f'{o.name}: {o.status}, not reproduced: {o.detail[:400]}' for o in bad[:10]]
    out['wall_s'] = round(out['wall_s'] + time.time() - t0, 2)
    return out


def child(conn, idx, tier, seed, scale, out):
    try:
        if out is None:
            out = stage_sym(idx, tier, seed)
            conn.send(('sym', out))
            if out['violation'] is not None:
                out.pop('bad', None)
                conn.send(('done', out))
                return
        conn.send(('done', stage_conc(idx, tier, seed, scale, out)))
    except BaseException as e:  # noqa
        traceback.print_exc()
        try:
            conn.send(('crash', repr(e)))
        except Exception:  # noqa
            pass
    finally:
        conn.close()


def schedule(jobs, tier, seed, scale, nproc, report):
    """every contract in its own process, with a hard limit per stage (a solver call may ignore its timeout)"""
    from pyvc import engine as E
    from multiprocessing.connection import wait
    ctxm = mp.get_context('fork')
    mul = 1 if tier == 'quick' else 4
    total = 780 if tier == 'quick' else 3300
    t_end = T_START + total
    todo = [(i, None) for i in jobs]
    run, results = {}, []

    def start(i, out):
        con = E.REGISTRY[i]
        a, b = ctxm.Pipe(duplex=False)
        late = time.time() > t_end - con.tmo * mul - 60
        if out is None:
            gone = missing(con.functions)
            if gone:
                # the function under contract is not there any more (renamed or inlined): nothing to decide here
                out = blank(con)
                out['status'], out['reason'] = 'unsupported', f'absent from the current tree: {gone}'
                finish(out)
                return
            if late and con.mode != 'concrete':
                out = blank(con)
                out['status'], out['reason'] = 'unsupported', 'no time left for the symbolic stage'
        p = ctxm.Process(target=child, args=(b, i, tier, seed, scale, out))
        p.start()
        b.close()
        lim = (con.tmo * mul * 1.2 + 20) if out is None else 150 * (1 if tier == 'quick' else 10)
        run[a] = [i, p, time.time() + lim, out]

    def finish(out):
        out.pop('bad', None)
        results.append(out)
        report(out)

    while todo or run:
        while todo and len(run) < nproc:
            start(*todo.pop(0))
        if not run:
            continue
        for a in wait(list(run), timeout=1.0):
            i, p, lim, out = run[a]
            try:
                kind, r = a.recv()
            except EOFError:
                kind, r = 'crash', 'process ended'
            if kind == 'sym':
                run[a][3] = r
                run[a][2] = time.time() + 150 * (1 if tier == 'quick' else 10)
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            del run[a]
            if kind == 'done':
                finish(r)
            elif out is None:
                o = blank(E.REGISTRY[i])
                o['status'], o['reason'] = 'unsupported', f'engine process died: {r}'
                todo.insert(0, (i, o))
            else:
                out['reason'] += f' run-time stage died: {r}'
                finish(out)
        now = time.time()
        for a in list(run):
            i, p, lim, out = run[a]
            if now > lim or (now > t_end and out is None) or now > t_end + 60:
                p.kill()
                p.join()
                del run[a]
                if out is None:
                    o = blank(E.REGISTRY[i])
                    o['status'], o['reason'] = 'unsupported', 'solver exceeded its time limit'
                    o['wall_s'] = round(now - lim, 2)
                    todo.insert(0, (i, o))
                else:
                    out['reason'] += ' run-time stage exceeded its time limit'
                    finish(out)
    return results


def missing(functions):
    import hera_cal
    gone = []
    for f in functions:
        o = hera_cal
        for part in f.split('.'):
            if not hasattr(o, part):
                try:
                    importlib.import_module(f'{o.__name__}.{part}')
                except Exception:  # noqa
                    pass
            if not hasattr(o, part):
                gone.append(f)
                break
            o = getattr(o, part)
    return gone


def _abstract(o):
    """the refuted goal mentions abstractions (folds, transcendental functions): refutation may be spurious"""
    d = o.detail
    return any(w in d for w in ('SUM!', 'EXT!', 'COS(', 'SIN(', 'EXP(', 'SQRT(', 'ATAN2(', 'LOG(', 'Exists', 'ForAll')) or o.detail == '' or len(o.detail) >= 2000


def load(prop):
    from pyvc import engine as E
    mod = importlib.import_module('contracts.' + prop.lower())
    return E, mod, [i for i, c in enumerate(E.REGISTRY) if c.prop == prop]


def enc(v):
    return base64.b64encode(pickle.dumps(v)).decode()


def write_replay(prop, r):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    v = r['violation']
    body = dict(property=prop, contract=r['name'], functions=r['functions'], kind=v['kind'], failed_obligation=v['obligation'], failures=v['failures'],
                inputs={k: str(x)[:2000] for k, x in (v['values'] or {}).items()}, verifier_output=v['verifier'], seed=v['seed'], values_pickle=enc(v['values']),
                how='/verif/check.py --replay <this file>')
    h = hashlib.md5(json.dumps(body, sort_keys=True).encode()).hexdigest()[:8]
    p = os.path.join(d, f'{prop}_{r["name"].replace("/", "_").replace(" ", "_")}_{h}.json')
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def replay(path):
    b = json.load(open(path))
    E, mod, idxs = load(b['property'])
    con = next(E.REGISTRY[i] for i in idxs if E.REGISTRY[i].name == b['contract'])
    st, fl, rec, n = E.run_concrete(con, b['seed'], values=pickle.loads(base64.b64decode(b['values_pickle'])))
    print(f'replay {b["property"]}/{b["contract"]}: {st}')
    for f in fl:
        print('  failed:', f[0], f[1])
    return 1 if st == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    E, mod, idxs = load(prop)
    import hera_cal
    src = os.path.dirname(os.path.abspath(hera_cal.__file__))
    if not src.startswith(os.path.abspath(REPO)):
        print(f'error: hera_cal imported from {src}, not {REPO}')
        return 2
    if a.only:
        idxs = [i for i in idxs if a.only in E.REGISTRY[i].name]
    scale = 1 if a.tier == 'quick' else 20
    jobs = sorted(idxs, key=lambda i: -E.REGISTRY[i].tmo)
    t_import = time.time() - T_START

    def report(r):
        if not a.v:
            return
        print(f'  [{r["wall_s"]:6.1f}s] {r["name"]:50s} {r["mode"]:8s} {r["status"]:11s} obl {r["discharged"]}/{r["obligations"]} paths {r["paths"]} reach {r["reach"]} trials {r["trials"]}({r["skipped"]} skipped) {r["reason"][:300]}', flush=True)
        for u in r['undecided'][:3]:
            print('      undecided:', u[:500])
        if r['violation']:
            v = r['violation']
            print('      VIOLATION', v['kind'], v['obligation'], v['failures'][:2], v['verifier'][:600])
            print('      inputs:', {k: str(x)[:200] for k, x in (v['values'] or {}).items()})

    results = schedule(jobs, a.tier, seed, scale, a.j, report)
    results.sort(key=lambda r: r['name'])
    errs = [r for r in results if r['status'] == 'error']
    viol = [r for r in results if r['violation']]
    agg = lambda k: sum(r[k] for r in results)
    proved_fns, bounded_fns, standin = set(), set(), set()
    for r in results:
        ok = r['status'] == 'ok' and r['discharged'] == r['obligations'] and r['obligations'] > 0
        tgt = proved_fns if ok and r['mode'] == 'proof' else bounded_fns if ok and r['mode'] == 'bounded' else standin
        tgt.update(r['functions'])
    back = {}
    for r in results:
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
    proof_res = [r for r in results if r['mode'] == 'proof']
    bnd_res = [r for r in results if r['mode'] == 'bounded']
    ev = dict(property=prop, tier=a.tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  explanation='obligations/discharged count contracts proved without a size bound; bounded_* count contracts whose collection sizes are bounded as stated per contract (contents symbolic): those are never counted as proved; contracts listed as run-time are evaluated on concrete inputs only',
                  obligations=sum(r['obligations'] for r in proof_res), discharged=sum(r['discharged'] for r in proof_res),
                  bounded_obligations=sum(r['obligations'] for r in bnd_res), bounded_discharged=sum(r['discharged'] for r in bnd_res),
                  checker_cmd=f'/opt/venv/bin/python /verif/check.py {prop} --tier {a.tier} -v',
                  trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
                  functions_proved_unbounded=sorted(proved_fns), functions_bounded_symbolic=sorted(bounded_fns - proved_fns),
                  functions_bounded_concrete=sorted(standin - proved_fns - bounded_fns),
                  paths=agg('paths'), reachability_witnesses=agg('reach'),
                  backends=back, solver_s=round(sum(r['stats']['solver_s'] for r in results), 2), solver_queries=sum(r['stats']['queries'] for r in results),
                  evaluations=agg('trials'), distinct_nontrivial=agg('distinct'),
                  rule='run-time evaluation of the same contracts on pseudo-random inputs (VERIF_SEED); distinct by input values; precondition-failing inputs are not counted',
                  samples=[r['sample'] for r in results if r['sample']][:5],
                  contracts=[dict(name=r['name'], mode=r['mode'], bound=r['bound'], status=('proved' if r['status'] == 'ok' and r['discharged'] == r['obligations'] and r['mode'] == 'proof' else
                                                                                          'discharged within bound' if r['status'] == 'ok' and r['discharged'] == r['obligations'] and r['mode'] == 'bounded' else
                                                                                          'bounded run-time check' if r['mode'] == 'concrete' else 'undecided: bounded run-time stand-in'),
                                  reason=r['reason'], functions=r['functions'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], trials=r['trials'],
                                  undecided=r['undecided'][:3], wall_s=r['wall_s']) for r in results]),
              assumptions=ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({x for r in results for x in r['assumptions']}),
              wall_s=round(time.time() - T_START, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for x in getattr(mod, 'KNOWN', []):
        print(f'KNOWN-FINDING: property={prop} {x}')
    und = [r for r in results if r['mode'] != 'concrete' and not (r['status'] == 'ok' and r['discharged'] == r['obligations'])]
    print(f'{prop}: contracts {len(results)}; obligations {agg("discharged")}/{agg("obligations")} discharged ({sum(r["discharged"] for r in proof_res)} unbounded, '
          f'{sum(r["discharged"] for r in bnd_res)} size-bounded); paths {agg("paths")}; run-time evaluations {agg("trials")}; undecided contracts {len(und)}; '
          f'{time.time() - T_START:.0f}s (import {t_import:.0f}s)')
    for r in und:
        print(f'  undecided: {r["name"]}: {r["reason"][:200]} {r["undecided"][:1]}')
    if viol:
        for r in viol[:5]:
            p = write_replay(prop, r)
            v = r['violation']
            print(f'  contract {r["name"]} ({", ".join(r["functions"])}): obligation {v["obligation"]} fails: {str(v["failures"][:1])[:400]}')
            print(f'VIOLATION property={prop} replay={p}' + (' no-failing-input-found' if v['kind'] == 'obligation' else ''))
        return 1
    if errs:
        for r in errs:
            print(f'  checker error in {r["name"]}: {r["reason"]}')
        return 2
    return 0


TRUSTED = ['CPython 3.12 executing the unmodified functions of /repo on proxy values', 'pyvc engine (/verif/pyvc): path enumeration, proxy semantics of numpy operations',
           'z3 5.3.2', 'cvc5 (second back end for unknown queries)']
ASSUME = ['floating-point numbers are treated as exact (extended) reals: no rounding', 'machine integers are treated as mathematical integers',
          'numpy operations behave as modelled in /verif/pyvc/arr.py and npshim.py (cross-checked at run time on concrete inputs)']

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
