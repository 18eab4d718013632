"""Contract registry, job runner, verdict, replay and evidence."""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('PYVC_OUT', ROOT)      # where evidence and replay files go
REPO = os.environ.get('PYVC_REPO', '/repo')

MODE_TEXT = {
    'U': 'proved, unbounded (loops cut by invariants)',
    'F': 'proved, all inputs (no loop over the input size)',
    'S': 'proved for every content at the listed sizes (bounded in size)',
    'B': 'run-time contract evaluation (bounded stand-in)',
}


class Skip(Exception):
    """The harness cannot be run on this tree (an internal name is gone)."""


class Harness:
    def __init__(self, func, fn, mode, sizes, rsizes, mods, samples, builtin, keep, extra,
                 budget, timeout_ms, needs, assumes, known, tier, replay=True):
        self.func = func
        self.name = func.__name__
        self.fn = fn
        self.mode = mode
        self.sizes = sizes
        self.rsizes = rsizes if rsizes is not None else sizes
        self.mods = mods
        self.samples = samples
        self.builtin = builtin
        self.keep = keep
        self.extra = extra
        self.budget = budget
        self.timeout_ms = timeout_ms
        self.needs = needs
        self.assumes = assumes
        self.known = known
        self.tier = tier
        self.replay = replay
        self.doc = (func.__doc__ or '').strip()


class Registry:
    def __init__(self, prop):
        self.prop = prop
        self.harnesses = []
        self.assumptions = []

    def contract(self, fn, mode='B', sizes=({},), rsizes=None, mods=(), samples=10, builtin=(),
                 keep=(), extra=None, budget=100, timeout_ms=20000, needs=(), assumes=(), known=None,
                 tier='quick', replay=True):
        """declare a contract harness.
        fn       the function(s) of /repo under contract
        mode     U / F / S / B (see MODE_TEXT)
        sizes    parameter sets proved symbolically; rsizes: those run concretely
        mods     repo modules whose numpy is rebound in a symbolic run
        samples  concrete samples per parameter set (quick tier)
        needs    dotted names that must exist (else the harness is skipped)
        replay   False: the harness needs stand-ins that exist in the symbolic run only"""
        def deco(f):
            self.harnesses.append(Harness(f, fn, mode, list(sizes),
                                          None if rsizes is None else list(rsizes), list(mods),
                                          samples, builtin, keep, extra, budget, timeout_ms,
                                          needs, assumes, known, tier, replay))
            return f
        return deco


def resolve(dotted):
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            obj = getattr(obj, p)
        return obj
    raise AttributeError(dotted)


def rng_for(*key):
    h = hashlib.sha256('/'.join(map(str, key)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def seed_all(rng):
    import numpy as np
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))


def run_concrete(h, params, values=None, rng=None):
    """one run-time evaluation of the contract on the real function.
    returns ('ok'|'discard'|'fail'|'skip', info)"""
    from . import core
    rng = rng or random.Random(0)
    ctx = core.ConcCtx(values, rng)
    st = rng.getstate()
    seed_all(rng)
    rng.setstate(st)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h.func(ctx, **params)
    except core.Discard:
        return 'discard', None
    except Skip as e:
        return 'skip', str(e)
    except core.ContractViolation as e:
        return 'fail', {'clause': e.clause, 'detail': e.detail, 'values': jsonable(ctx.used)}
    except (Timeout, MemoryError):
        raise
    except RecursionError as e:
        return 'fail', {'clause': 'no-unexpected-exception', 'detail': 'RecursionError',
                        'values': jsonable(ctx.used)}
    except Exception as e:
        m = misfit(e)
        if m:
            return 'skip', m
        return 'fail', {'clause': 'no-unexpected-exception', 'detail': traceback.format_exc()[-3000:],
                        'values': jsonable(ctx.used)}
    finally:
        ctx.restore()
    return 'ok', {'clauses': ctx.clauses, 'values': ctx.used}


def own(x):
    """a class or function of the contracts"""
    return (getattr(x, '__module__', None) or '').startswith(('contracts.', 'pyvc.')) and not issubclass(type(x), (str, int))


def misfit(e):
    """the harness itself used an internal name of the package that is gone or has
    another signature (raised in the harness, about a name with an underscore)"""
    import re
    m = re.match(r'(\S+)\(\) (missing|takes|got an unexpected|got multiple|got some)', str(e)) if isinstance(e, TypeError) else None
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if own(o if isinstance(o, type) else type(o)):
            return 'outside the stand-in: %s' % e
    if m:
        top = m.group(1).split('.')[0]
        for k, mod in list(sys.modules.items()):
            if k.startswith('contracts.') and own(getattr(mod, top, None)):
                return 'call outside the stand-in: %s' % e
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    if not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(ROOT, '')):
        return None
    if isinstance(e, (AttributeError, ImportError)) and (getattr(e, 'name', None) or '').startswith('_'):
        return 'internal name: %s' % e
    if m:
        if m.group(1).split('.')[-1].startswith('_') and not m.group(1).split('.')[-1].startswith('__'):
            return 'internal signature: %s' % e
    return None


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def prove_job(h, params, budget):
    from . import core, shim
    old = sys.getrecursionlimit()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with shim.patched(h.mods, extra=h.extra, keep_dtype=h.keep, builtin=h.builtin):
                r = core.explore(h.func, params, timeout_ms=h.timeout_ms, budget_s=budget)
    except Skip as e:
        return {'skip': str(e)}
    except (Timeout, MemoryError):
        return {'clauses': {}, 'undecided': 'time or memory budget', 'paths': 0, 'queries': 0, 'solver_s': 0.0,
                'assumptions': []}
    finally:
        sys.setrecursionlimit(old)
    if h.mode == 'U':
        # sums over sequences of arbitrary length are uninterpreted: only proofs count in this mode
        for c in r['clauses'].values():
            if c['status'] == 'refuted':
                c['status'] = 'unknown'
        return r
    # replay refutations on the real code
    for clause, c in r['clauses'].items():
        if c['status'] == 'refuted' and c['model'] is not None:
            c['replay'] = run_concrete(h, params, values=c['model']) if h.replay else ('skip', 'symbolic stand-ins')
    return r


def run_job(args):
    prop, hi, kind, params, tier, seed = args
    reg = load(prop)
    h = reg.harnesses[hi]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    budget = h.budget * (3 if tier == 'thorough' else 1)
    res = {'h': hi, 'kind': kind, 'params': params}
    try:
        try:
            for d in h.needs:
                resolve(d)
        except AttributeError as e:
            res['skip'] = 'missing %s' % e
            return res
        signal.alarm(int(budget) + 30)
        if kind == 'prove':
            res['prove'] = prove_job(h, params, budget)
        else:
            # at least h.samples, more while there is time
            n = h.samples * (10 if tier == 'thorough' else 1)
            nmax, extra_s = n * 10, (20.0 if tier == 'thorough' else 2.0)
            if h.samples == 1:
                nmax = n
            ok = disc = clauses = 0
            seen = set()
            samples = []
            fail = None
            t1 = time.time()
            for i in range(nmax):
                if i >= n and time.time() - t1 > extra_s:
                    break
                st, info = run_concrete(h, params, rng=rng_for(seed, prop, h.name, sorted(params.items(), key=str), i))
                if st == 'ok':
                    ok += 1
                    clauses += info['clauses']
                    seen.add(repr(sorted(info['values'].items(), key=lambda kv: kv[0])))
                    if len(samples) < 1:
                        samples.append(jsonable(info['values']))
                elif st == 'discard':
                    disc += 1
                elif st == 'skip':
                    res['skip'] = info
                    break
                else:
                    fail = info
                    break
                if time.time() - t0 > budget:
                    break
            res['run'] = {'ok': ok, 'discard': disc, 'clauses': clauses, 'distinct': len(seen),
                          'samples': samples, 'fail': fail}
    except (Timeout, MemoryError):
        res['timeout'] = True
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        res['wall'] = time.time() - t0
    return res


WORKER_GB = 3.5            # address space of a worker: memory exhausted = undecided
LIMIT_S = {'quick': 780, 'thorough': 6 * 3600}


def worker(conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(WORKER_GB * 2**30),) * 2)
    except (ValueError, OSError):
        pass
    while True:
        w = conn.recv()
        if w is None:
            return
        conn.send(run_job(w))


def run_all(work, nproc, reg, tier, t0):
    """the jobs, on nproc processes.  A worker that dies, hangs or exceeds its memory leaves
    its job undecided; after LIMIT_S all open jobs are undecided"""
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(work))
    results = []
    slots = []

    def lost(w, why):
        results.append({'h': w[1], 'kind': w[2], 'params': w[3], 'timeout': True, 'why': why, 'wall': 0.0})

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return {'p': p, 'c': a, 'w': None, 'n': 0, 't': 0.0}

    def give(s):
        s['w'] = todo.pop()
        s['t'] = time.time()
        s['n'] += 1
        s['c'].send(s['w'])

    def stop(s):
        slots.remove(s)
        s['p'].kill()
        s['p'].join()
        s['c'].close()

    def refill():
        while todo and len(slots) < nproc:
            s = start()
            slots.append(s)
            give(s)
    refill()
    while slots:
        ready = multiprocessing.connection.wait([s['c'] for s in slots], timeout=5)
        now = time.time()
        for s in list(slots):
            if s['c'] in ready:
                try:
                    r = s['c'].recv()
                except (EOFError, OSError):
                    lost(s['w'], 'worker ended')
                    stop(s)
                    continue
                results.append(r)
                if not todo or s['n'] >= 20:
                    stop(s)
                else:
                    give(s)
            elif now - s['t'] > reg.harnesses[s['w'][1]].budget * (3 if tier == 'thorough' else 1) + 60:
                lost(s['w'], 'worker hung')
                stop(s)
        if now - t0 > LIMIT_S.get(tier, LIMIT_S['quick']):
            for s in list(slots):
                lost(s['w'], 'time limit of the check')
                stop(s)
            while todo:
                lost(todo.pop(), 'time limit of the check')
        refill()
    return results


_loaded = {}


def load(prop):
    if prop not in _loaded:
        mod = importlib.import_module('contracts.' + prop.lower())
        _loaded[prop] = mod.reg
    return _loaded[prop]


def known_findings(prop):
    """id -> text of the findings listed for this property"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                kid, text = rest.split(' ', 1)
                out[kid] = text
    return out


def check(prop, tier='quick', seed=1, jobs=None, only=None, verbose=False):
    t0 = time.time()
    reg = load(prop)
    work = []
    for hi, h in enumerate(reg.harnesses):
        if only and h.name not in only:
            continue
        if h.tier == 'thorough' and tier != 'thorough':
            continue
        if h.mode != 'B':
            for p in h.sizes:
                if p.get('_t') and tier != 'thorough':
                    continue
                work.append((prop, hi, 'prove', {k: x for k, x in p.items() if k != '_t'}, tier, seed))
        if h.samples:
            for p in h.rsizes:
                if p.get('_t') and tier != 'thorough':
                    continue
                work.append((prop, hi, 'run', {k: x for k, x in p.items() if k != '_t'}, tier, seed))
    if not work:
        raise SystemExit('no obligations for ' + prop)
    nproc = jobs or min(8, os.cpu_count() or 1)
    results = []
    if nproc == 1 or len(work) == 1:
        results = [run_job(w) for w in work]
    else:
        results = run_all(work, nproc, reg, tier, t0)
    results.sort(key=lambda r: (r['h'], r['kind'], str(r['params'])))
    return report(prop, reg, results, tier, seed, time.time() - t0, verbose, only)


def report(prop, reg, results, tier, seed, wall, verbose, only):
    kf = known_findings(prop)
    obligations = discharged = unbounded = 0
    evals = distinct = 0
    solver_s = 0.0
    queries = paths = 0
    undecided = []
    violations = []
    known_hits = {}
    samples = []
    per = {}
    skipped = []
    assumptions = set(reg.assumptions)
    for r in results:
        h = reg.harnesses[r['h']]
        d = per.setdefault(h.name, {'function': h.fn, 'mode': MODE_TEXT[h.mode], 'contract': h.doc,
                                    'sizes': [], 'obligations': 0, 'discharged': 0, 'evaluations': 0,
                                    'solver_s': 0.0})
        for a in h.assumes:
            assumptions.add(a)
        if 'skip' in r or 'skip' in r.get('prove', {}):
            skipped.append('%s %s: %s' % (h.name, r['params'], r.get('skip') or r['prove']['skip']))
            continue
        if r.get('timeout') or r.get('error'):
            undecided.append('%s %s %s: %s' % (h.name, r['kind'], r['params'],
                                               r.get('error') or 'time limit'))
            if r['kind'] == 'prove':
                obligations += 1
                d['obligations'] += 1
            continue
        if r['kind'] == 'prove':
            p = r['prove']
            d['sizes'].append(r['params'])
            solver_s += p['solver_s']
            d['solver_s'] = round(d['solver_s'] + p['solver_s'], 3)
            queries += p['queries']
            paths += p['paths']
            assumptions |= set(p['assumptions'])
            if p['undecided']:
                undecided.append('%s %s: %s' % (h.name, r['params'], p['undecided']))
                obligations += 1
                d['obligations'] += 1
            elif p['paths'] == 0 or not p['clauses']:
                # vacuity guard: a contract with no feasible path proves nothing
                undecided.append('%s %s: vacuous (no feasible path / no clause)' % (h.name, r['params']))
                obligations += 1
                d['obligations'] += 1
            for clause, c in p['clauses'].items():
                obligations += 1
                d['obligations'] += 1
                if c['status'] == 'proved':
                    if not p['undecided']:
                        discharged += 1
                        d['discharged'] += 1
                        if h.mode in 'UF':
                            unbounded += 1
                elif c['status'] == 'unknown':
                    undecided.append('%s %s / %s: solver gave no answer' % (h.name, r['params'], clause))
                elif clause == 'no-unexpected-exception' and c.get('replay', (None,))[0] in ('ok', 'skip', 'discard'):
                    # raised only with symbolic values: a limit of the engine
                    undecided.append('%s %s: exception in the symbolic run only: %s'
                                     % (h.name, r['params'], p.get('exceptions', ['?'])[0][-300:]))
                else:
                    st, info = c.get('replay', (None, None))
                    v = {'harness': h.name, 'function': h.fn, 'params': r['params'], 'clause': clause,
                         'values': jsonable(c['model']), 'kind': 'prove',
                         'exceptions': p.get('exceptions', [])[:2]}
                    if st == 'fail':
                        v['clause'] = info['clause']
                        v['detail'] = info['detail']
                        v['replayed'] = True
                    else:
                        v['replayed'] = False
                        v['detail'] = 'z3 model refutes the clause; replay on the real code: %s' % (st,)
                    violations.append((h, v))
        else:
            q = r['run']
            evals += q['ok']
            d['evaluations'] += q['ok']
            distinct += q['distinct']
            if q['samples'] and len(samples) < 12:
                samples.append({'contract': h.name, 'params': r['params'], 'inputs': q['samples'][0]})
            if q['fail']:
                f = q['fail']
                violations.append((h, {'harness': h.name, 'function': h.fn, 'params': r['params'],
                                       'clause': f['clause'], 'detail': f['detail'],
                                       'values': f['values'], 'kind': 'run', 'replayed': True}))
    real = []
    for h, v in violations:
        if h.known and h.known in kf:
            known_hits[h.known] = kf[h.known]
        else:
            real.append((h, v))
    # prefer violations with a concrete failing input
    real.sort(key=lambda hv: not hv[1]['replayed'])
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    lines = []
    for k, text in sorted(known_hits.items()):
        lines.append('KNOWN-FINDING: property=%s %s %s' % (prop, k, text))
    printed = set()
    nviol = 0
    for h, v in real:
        if h.name in printed:
            continue
        printed.add(h.name)
        nviol += 1
        path = os.path.join(OUT, 'replay', '%s-%s.json' % (prop, h.name))
        v = dict(v, property=prop, seed=seed, tier=tier,
                 how='cd /verif && ./check %s --replay %s' % (prop, path))
        with open(path, 'w') as f:
            json.dump(jsonable(v), f, indent=1)
        lines.append('  failed obligation: %s :: %s  [%s] %s' % (h.fn, v['clause'], h.name, v['params']))
        lines.append('    ' + str(v.get('detail', ''))[-600:].replace('\n', '\n    '))
        if v['replayed'] or not real[0][1]['replayed']:
            lines.append('VIOLATION property=%s replay=%s%s'
                         % (prop, path, '' if v['replayed'] else ' no-failing-input-found'))
        else:       # a violation with a failing input is reported above
            lines.append('    output of the verifier: %s' % path)
    level = getattr(reg, 'level', 'proof')
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'discharged_without_size_bound': unbounded,
        'discharged_bounded_in_size': discharged - unbounded,
        'checker_cmd': './check %s (pyvc obligations discharged by z3 %s)' % (prop, z3_version()),
        'trusted_base': ['z3', 'pyvc engine (/verif/pyvc)', 'CPython and numpy object arrays',
                         'contracts in /verif/contracts/%s.py' % prop.lower()],
        'functions_under_contract': sorted(set(x['function'] for x in per.values())),
        'per_contract': per,
        'solver_queries': queries, 'paths': paths, 'solver_s': round(solver_s, 3),
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'run-time evaluations of the same contracts on the real functions with seeded inputs '
                'satisfying the precondition; distinct = different input assignments',
        'samples': samples, 'undecided': undecided, 'skipped': skipped,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions), 'wall_s': round(wall, 2), 'violations': nviol}
    if not only:
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(jsonable(ev), f, indent=1)
    print('%s %s: %d obligations, %d discharged (%d without size bound), %d run-time evaluations, '
          '%d undecided, %d skipped, solver %.1fs, wall %.1fs'
          % (prop, tier, obligations, discharged, unbounded, evals, len(undecided), len(skipped),
             solver_s, wall))
    for u in undecided + skipped:
        print('  undecided/skipped:', u[-500:])
    if verbose:
        for n, d in per.items():
            print('   %-40s obl %3d/%3d eval %4d solver %.2fs' % (n, d['discharged'], d['obligations'],
                                                            d['evaluations'], d['solver_s']))
        for r in sorted(results, key=lambda r: -r.get('wall', 0))[:6]:
            print('   slow: %s %s %s %.1fs' % (reg.harnesses[r['h']].name, r['kind'], r['params'], r['wall']))
    for l in lines:
        print(l)
    return 1 if nviol else 0


def z3_version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay(prop, path):
    v = json.load(open(path))
    reg = load(prop)
    for h in reg.harnesses:
        if h.name == v['harness']:
            st, info = run_concrete(h, v['params'], values=v['values'])
            print(st, json.dumps(jsonable(info), indent=1))
            return 1 if st == 'fail' else 0
    print('no such contract')
    return 2
