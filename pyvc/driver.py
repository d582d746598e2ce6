"""Runs the units of one property in parallel, then the CPython cross-check, writes evidence."""
import json
import os
import random
import signal
import sys
import time
import traceback
import multiprocessing as mp
from . import core

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    """one verification unit.  body(ctx) generates the obligations; `functions` names the functions of
    /repo it puts under contract; `bounded` states a bound when the unit is not a proof for all inputs"""

    def __init__(self, name, body, functions=(), budget=120, bounded=None, timeout_ms=10000, dep=None,
                 max_paths=200000):
        self.name, self.body, self.functions = name, body, list(functions)
        self.budget, self.bounded, self.timeout_ms = budget, bounded, timeout_ms
        self.dep = dep
        self.max_paths = max_paths


_UNITS = []


def _run_unit(i):
    u = _UNITS[i]
    t0 = time.time()
    keep = {}

    def body(c):
        keep['c'] = c
        return u.body(c)
    try:
        r = core.explore(body, timeout_ms=u.timeout_ms, budget_s=u.budget, max_paths=u.max_paths)
    except BaseException as e:          # engine trouble is never a verdict
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(name=u.name, index=i, error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-1500:],
                    obligations=[], paths=0, unsupported=['engine: %r' % (e,)], solver_time=0.0, queries=0,
                    contracts=[], inlined=[], assumptions=[], witnesses=[], wall=time.time() - t0)
    c = keep.get('c')
    by = {}
    for o in r.obligations:
        by[o.backend] = by.get(o.backend, 0) + 1
    failed = [o.as_dict() for o in r.obligations if o.status == 'failed'][:20]
    unknown = [o.as_dict() for o in r.obligations if o.status == 'unknown'][:20]
    names = sorted({o.name for o in r.obligations})
    return dict(name=u.name, index=i, error=None, total=len(r.obligations),
                discharged=sum(o.status == 'discharged' for o in r.obligations),
                nfailed=sum(o.status == 'failed' for o in r.obligations),
                nunknown=sum(o.status == 'unknown' for o in r.obligations),
                failed=failed, unknown=unknown, names=names[:50], backends=by, paths=r.paths,
                unsupported=r.unsupported, solver_time=r.solver_time, queries=r.queries,
                contracts=sorted(r.used_contracts), inlined=sorted(r.inlined),
                assumptions=sorted(r.assumptions), witnesses=(c.static.get('witnesses', []) if c else []),
                wall=time.time() - t0)


def run_units(units, deadline, procs=None):
    global _UNITS
    _UNITS = list(units)
    if not _UNITS:
        return []
    procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    out = [None] * len(_UNITS)
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=40) as pool:
        it = [(i, pool.apply_async(_run_unit, (i,))) for i in range(len(_UNITS))]
        for i, a in it:
            left = max(1.0, deadline - time.time())
            try:
                out[i] = a.get(timeout=left)
            except Exception as e:
                out[i] = dict(name=_UNITS[i].name, index=i, error='no result: %r' % (e,), unsupported=['no result within the time budget'],
                              obligations=[], paths=0, solver_time=0.0, queries=0, contracts=[], inlined=[],
                              assumptions=[], witnesses=[], wall=0.0)
        pool.terminate()
    for r in out:
        r.setdefault('total', 0)
        r.setdefault('discharged', 0)
        r.setdefault('nfailed', 0)
        r.setdefault('nunknown', 0)
        r.setdefault('failed', [])
        r.setdefault('unknown', [])
        r.setdefault('backends', {})
        r.setdefault('names', [])
    return out


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return dict(findings=[], fixed=[])


class CaseTimeout(Exception):
    """one run of the real code used CASE_CPU seconds of processor time: it counts as no result (like a rejection)"""


CASE_CPU = 10


def watch(on):
    """processor time of this process, so that a loaded machine does not matter"""
    def fire(*a):
        raise CaseTimeout('no result after %d s of processor time' % CASE_CPU)
    signal.signal(signal.SIGVTALRM, fire if on else signal.SIG_IGN)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU if on else 0, CASE_CPU if on else 0)


class Concrete:
    """collects the results of running the real code against the specification"""

    def __init__(self, prop, known):
        self.prop = prop
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.known = [k for k in known.get('findings', []) if k['property'] == prop]
        self.known_hit = {}
        self.nontrivial = 0

    def case(self, inp, expected, observed, key=None, trivial=False, ok=None):
        """key: stable identification of the input (for known findings)"""
        self.n += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU, CASE_CPU)
        k = key if key is not None else json.dumps(inp, sort_keys=True, default=str)
        if not trivial and k not in self.distinct:
            self.distinct.add(k)
            if len(self.samples) < 12 and (len(self.distinct) % 97 == 1):
                self.samples.append(dict(input=inp, expected=repr(expected)[:300], observed=repr(observed)[:300]))
        good = (expected == observed) if ok is None else ok
        if good:
            return True
        for f in self.known:
            if f['key'] == k:
                self.known_hit.setdefault(f['key'], f)
                return True
        if len(self.failures) < 200:
            self.failures.append(dict(key=k, input=inp, expected=repr(expected)[:2000], observed=repr(observed)[:2000]))
        return False


def main(prop, mod, argv=()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    limit = 640 if tier == 'quick' else 3000
    deadline = t0 + limit
    known = load_known()
    units = mod.units(tier)
    only = [a for a in argv if not a.startswith('-')]
    if only:
        units = [u for u in units if any(o in u.name for o in only)]
    results = run_units(units, t0 + limit * 0.75)
    conc = Concrete(prop, known)
    wits = [(units[r['index']], w) for r in results for w in r['witnesses']]
    conc_error = None
    watch(True)
    try:
        mod.concrete(conc, tier, random.Random(seed), wits, deadline)
    except Exception:
        conc_error = traceback.format_exc()
    finally:
        watch(False)
    # ---- verdict
    total = sum(r['total'] for r in results)
    disch = sum(r['discharged'] for r in results)
    nfail = sum(r['nfailed'] for r in results)
    undecided = [dict(unit=r['name'], why=r['unsupported'] or r['error'] or 'unknown obligations',
                      unknown=r['unknown'][:3])
                 for r in results if r['unsupported'] or r['error'] or r['nunknown'] or r['total'] == 0]
    failed_units = [r for r in results if r['nfailed']]
    kf_obl = [k for k in known.get('findings', []) if k['property'] == prop and k.get('obligation')]
    unexpected = []
    for r in failed_units:
        for o in r['failed']:
            hit = [k for k in kf_obl if k['obligation'] == o['name'] and
                   (not k.get('contains') or k['contains'] in json.dumps(o.get('detail'), default=str))]
            if hit:
                conc.known_hit.setdefault(hit[0]['key'], hit[0])
            else:
                unexpected.append((r, o))
    violations = 0
    lines = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if conc.failures:
        violations += len(conc.failures)
        path = os.path.join(rdir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind='failing input replayed on the real code',
                           failures=conc.failures[:50],
                           failed_obligations=[o for _, o in unexpected][:20]), f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif unexpected:
        violations += len(unexpected)
        path = os.path.join(rdir, '%s-obligation.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind='failed obligation, no failing input found',
                           failed_obligations=[dict(unit=r['name'], **o) for r, o in unexpected][:20]), f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for k in conc.known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    bounded = sorted({'%s: %s' % (u.name, u.bounded) for u in units if u.bounded})
    for r in results:
        for a in r['assumptions']:
            if a.startswith('bounded'):
                bounded.append('%s: %s' % (r['name'], a))
    bunits = {b.split(':')[0] for b in bounded}
    fns = sorted({f for u in units for f in u.functions} | {f for r in results for f in r['inlined']})
    backends = {}
    for r in results:
        for b, n in r['backends'].items():
            backends[b] = backends.get(b, 0) + n
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for r in results for a in r['assumptions']})
    # obligations of bounded units are never counted as proved
    b_ob = sum(r['total'] for r in results if r['name'] in bunits)
    b_di = sum(r['discharged'] for r in results if r['name'] in bunits)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=total - b_ob, discharged=disch - b_di,
                  bounded_obligations=b_ob, bounded_discharged=b_di,
                  checker_cmd='python3-vt /verif/check.py %s' % prop,
                  trusted_base=['pyvc (this repository: /verif/pyvc): interpreter of the Python AST and models of builtins',
                                'z3 5.3 / cvc5 1.1.2', 'CPython ast module'] + list(getattr(mod, 'TRUSTED', [])),
                  paths=sum(r['paths'] for r in results), units=len(results),
                  functions_under_contract=fns,
                  contracts_used=sorted({f for r in results for f in r['contracts']}),
                  backends=backends, solver_time_s=round(sum(r['solver_time'] for r in results), 2),
                  solver_queries=sum(r['queries'] for r in results),
                  undecided_units=undecided, failed_obligations=nfail,
                  bounded_units=bounded,
                  evaluations=conc.n, distinct_nontrivial=len(conc.distinct),
                  rule='CPython cross-check: the real code of /repo run on concrete inputs (a witness of every verified path, '
                       'plus generated inputs) and compared with the same specification; distinct by input',
                  samples=conc.samples or [dict(note='no concrete cases')],
                  unit_walltimes={r['name']: round(r['wall'], 2) for r in sorted(results, key=lambda r: -r['wall'])[:12]},
              ),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    if conc_error:
        ev['coverage']['cross_check_error'] = conc_error[-2000:]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d units, %d obligations, %d discharged, %d failed, %d undecided units, %d paths, cross-check %d cases (%d distinct), %.1fs'
          % (prop, len(results), total, disch, nfail, len(undecided), ev['coverage']['paths'], conc.n, len(conc.distinct), time.time() - t0))
    if '-v' in argv:
        for u in undecided:
            print('  undecided', u)
        for r, o in unexpected[:int(os.environ.get('PYVC_N', '8'))]:
            print("  failed", r['name'], o['name'], json.dumps(o.get('detail', {}), default=str)[:int(os.environ.get("PYVC_W","300"))])
        for f in conc.failures[:int(os.environ.get('PYVC_N', '8'))]:
            print('  input', json.dumps(f, default=str)[:int(os.environ.get("PYVC_W","300"))])
        for r in results:
            if r['error']:
                print('  error', r['name'], r['error'], (r.get('tb') or '')[-300:])
    if conc_error:
        print('cross-check error:\n' + conc_error)
    for l in lines:
        print(l)
    if lines:
        return 1
    if total == 0 and conc.n == 0:
        print('nothing was checked')
        return 2
    if conc_error and not conc.n:
        return 2
    return 0
