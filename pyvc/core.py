"""pyvc core: symbolic execution context, path exploration and obligations.

A verification unit is a python callable `body(ctx)` which (re-)executes the real
code (through pyvc.interp) on symbolic values and states obligations with
ctx.prove().  explore() runs it once per feasible path (decision-prefix
re-execution), so obligations are generated and discharged path-wise for all
inputs.  Integers are mathematical integers, which is exactly what Python has.
"""
import time
import z3

from . import bits

z3.set_param('smt.random_seed', 7)


class Unsupported(BaseException):
    """the construct is outside the engine's reach: the unit is NOT verified"""


class PathKill(BaseException):
    """current path is infeasible"""


class Impure(BaseException):
    pass


CTX = None


def ctx():
    return CTX


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'path')

    def __init__(self, name, status, backend, t, detail=None, path=None):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.detail, self.path = detail, path

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    time=round(self.time, 4), detail=self.detail)


class Ctx:
    def __init__(self, timeout_ms=10000, max_paths=200000, prefix=()):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.decisions = []
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.model = None
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.max_paths = max_paths
        self.paths = 0
        self.path_log = []
        self.store = {}          # per-path scratch (tokens etc.)
        self.static = {}         # per-exploration caches
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions = set()
        self.merging = 0
        self.fresh_n = 0
        self.seen_axioms = set()
        self.unknown_branches = 0
        self.failure_info = []
        self.deadline = None

    # -- names ----------------------------------------------------------
    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    # -- solver ---------------------------------------------------------
    def _check(self, *assume):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for this unit exhausted')
        t = time.time()
        self.queries += 1
        r = self.solver.check(*assume)
        self.solver_time += time.time() - t
        return r

    def add(self, term):
        """assert a fact on the current path"""
        if isinstance(term, bool):
            if not term:
                raise PathKill()
            return
        self.solver.add(term)
        if self.model is not None:
            v = self.model.eval(term, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def define(self, term):
        """a definition of abstract symbols: no reason to doubt a counterexample that does not depend on them"""
        self.store.setdefault('definitions', {})[term.get_id()] = term
        self.add(term)

    def axiom(self, term, key=None):
        if key is not None:
            if key in self.seen_axioms:
                return
            self.seen_axioms.add(key)
        self.add(term)

    def assume(self, cond):
        """assume a precondition; kills the path when it is inconsistent"""
        from .vals import SBool
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise PathKill()
            return
        self.add(cond)

    def feasible(self):
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
        return r != z3.unsat

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise PathKill()
                if r == z3.sat:
                    self.model = self.solver.model()
                else:
                    self.unknown_branches += 1
            side = None
            if self.model is not None:
                v = self.model.eval(cond, model_completion=True)
                if z3.is_true(v):
                    side = True
                elif z3.is_false(v):
                    side = False
            if side is None:
                rt = self._check(cond)
                rf = self._check(z3.Not(cond))
                ft, ff = rt != z3.unsat, rf != z3.unsat
            elif side:
                ft = True
                ff = self._check(z3.Not(cond)) != z3.unsat
            else:
                ff = True
                ft = self._check(cond) != z3.unsat
            if ft and ff:
                d = True
                self.pending.append(self.decisions + [False])
            elif ft:
                d = True
            elif ff:
                d = False
            else:
                raise PathKill()
        self.decisions.append(d)
        self.add(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """non-deterministic choice among n alternatives (all explored)"""
        for k in range(n - 1):
            i = self.pos
            self.pos += 1
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                d = True
                self.pending.append(self.decisions + [False])
            self.decisions.append(d)
            if d:
                return k
        return n - 1

    def entails(self, cond):
        """pure query: does the path condition entail cond?"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_false(v):
                return False
        return self._check(z3.Not(cond)) == z3.unsat

    # -- obligations ----------------------------------------------------
    def prove(self, name, goal, info=None):
        """generate and discharge one obligation; records and returns bool"""
        from .vals import SBool
        if isinstance(goal, SBool):
            goal = goal.t
        t0 = time.time()
        if isinstance(goal, bool):
            st = 'discharged' if goal else None
            if not goal:
                # a literally false goal is only a violation if path is feasible
                r = self._check()
                backend, model = 'eval', None
                if r == z3.sat:
                    model = self.solver.model()
                elif r == z3.unknown:
                    r, backend, model = self._retry()
                if r == z3.sat:
                    self.solver.push()
                    r, backend, model = self._confirm(z3.BoolVal(False), backend, model)
                    self.solver.pop()
                st = 'discharged' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
            else:
                backend, model = 'eval', None
        else:
            g = z3.simplify(goal)
            model = None
            if z3.is_true(g):
                st, backend = 'discharged', 'simplify'
            else:
                self.solver.push()
                self.solver.add(z3.Not(g))
                self.solver.set('timeout', min(self.timeout_ms, 1500))
                r = self._check()
                self.solver.set('timeout', self.timeout_ms)
                backend = 'z3'
                if r == z3.unknown:
                    t1 = time.time()
                    if bits.proves(list(self.solver.assertions())[:-1], g, self.timeout_ms):
                        r, backend = z3.unsat, 'z3-bv'
                    self.solver_time += time.time() - t1
                if r == z3.sat:
                    model = self.solver.model()
                if r == z3.unknown:
                    r, backend, model = self._retry()
                if r == z3.sat:
                    r, backend, model = self._confirm(g, backend, model)
                self.solver.pop()
                st = 'discharged' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
        detail = None
        if st != 'discharged':
            detail = {}
            if callable(info):
                try:
                    detail['info'] = info(model)
                except Exception as e:      # diagnostics only
                    detail['info'] = 'diagnostics failed: %r' % (e,)
            elif info is not None:
                detail['info'] = str(info)
            if model is not None:
                detail['model'] = str(model)[:4000]
            detail['goal'] = str(goal)[:2000]
        self.obligations.append(Obligation(name, st, backend, time.time() - t0,
                                           detail, list(self.decisions)))
        if st != 'discharged':
            self.failure_info.append((name, model))
        return st == 'discharged'

    def fail(self, name, why):
        """an obligation that the current (feasible) path violates outright"""
        return self.prove(name, False, info=why)

    def _confirm(self, goal, backend, model):
        """a counterexample counts only when it respects the meaning of the functions that the encoding
        leaves uninterpreted: the mismatching points are added as facts and the query is repeated; symbols of a
        loop contract that was not applied on this path make the answer 'unknown'"""
        meaning = self.static.setdefault('meaning', {})
        meaning.update(MEANING)
        abstract = self.static.get('abstract', {})
        attached = self.store.get('attached', ())
        first = True
        for _ in range(40):
            facts = list(self.solver.assertions())
            apps, _ = collect(facts + [goal], meaning, {})
            defs = self.store.get('definitions', {})
            _, names = collect([t for t in facts if t.get_id() not in defs] + [goal], {}, abstract)
            if any(abstract[n] not in attached for n in names):
                return z3.unknown, backend, model
            facts = []
            for a in apps:
                f = meaning[a.decl().name()]
                args = [model.eval(x, model_completion=True) for x in a.children()]
                val = model.eval(a, model_completion=True)
                try:
                    want = f(*[x.as_long() for x in args])
                except Exception:
                    want = None
                if want is None:
                    return z3.unknown, backend, model
                wt = z3.BoolVal(want) if isinstance(want, bool) else z3.IntVal(want)
                if not z3.is_true(z3.simplify(val == wt)):
                    facts.append(z3.Implies(z3.And([x == y for x, y in zip(a.children(), args)]), a == wt))
            if not facts:
                return z3.sat, backend, model
            if first:
                first = False
                g = self._guided(apps, meaning)
                if g is not None:
                    return z3.sat, backend, g
                if bits.proves(list(self.solver.assertions())[:-1], goal, self.timeout_ms):
                    return z3.unsat, 'z3-bv', None
            self.solver.add(facts)
            r = self._check()
            if r == z3.unsat:
                return r, backend, None
            if r != z3.sat:
                return z3.unknown, backend, None
            model = self.solver.model()
        return z3.unknown, backend, model

    def _guided(self, apps, meaning):
        """a counterexample where one argument of the bit functions is zero"""
        for side in (1, 0):
            fix = []
            for a in apps:
                n, ch = a.decl().name(), a.children()
                if n in ('bor', 'bxor', 'band') and len(ch) == 2:
                    x, y = ch[side], ch[1 - side]
                    fix += [x == 0, a == (0 if n == 'band' else y)]
            if not fix:
                return None
            self.solver.push()
            try:
                self.solver.add(fix)
                if self._check() != z3.sat:
                    continue
                m = self.solver.model()
                ok = True
                for a in apps:
                    try:
                        want = meaning[a.decl().name()](*[m.eval(x, model_completion=True).as_long() for x in a.children()])
                    except Exception:
                        want = None
                    wt = None if want is None else z3.BoolVal(want) if isinstance(want, bool) else z3.IntVal(want)
                    if wt is None or not z3.is_true(z3.simplify(m.eval(a, model_completion=True) == wt)):
                        ok = False
                        break
                if ok:
                    return m
            finally:
                self.solver.pop()
        return None

    def _retry(self):
        s = z3.Solver()
        s.set('timeout', self.timeout_ms * 2)
        s.add(*self.solver.assertions())
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.sat:
            return r, 'z3-fresh', s.model()
        if r == z3.unsat:
            return r, 'z3-fresh', None
        r2 = cvc5_check(s.to_smt2(), self.timeout_ms * 3)
        if r2 == 'unsat':
            return z3.unsat, 'cvc5', None
        return z3.unknown, 'z3+cvc5', None

    # -- merging --------------------------------------------------------
    def merge(self, fn, kinds=(bool,)):
        """Run a pure computation over all its paths and return one value:
        a Bool/Int term (ite over the paths).  Raises Impure when it cannot."""
        from .vals import SBool, SInt, lift_bool, lift_int, ones_of
        outer = (self.decisions, self.prefix, self.pos, self.pending, self.model)
        results = []
        work = [[]]
        seen_ax_outer = self.seen_axioms
        self.merging += 1
        axioms = []
        forced = set()
        try:
            while work:
                pfx = work.pop()
                self.decisions, self.prefix, self.pos, self.pending = [], pfx, 0, []
                self.model = None
                self.solver.push()
                self.seen_axioms = set(seen_ax_outer)
                conds = []
                real_add = self.add
                n0 = len(self.solver.assertions())
                self._merge_conds = conds
                ok = True
                orig_branch = self.branch

                def br(cond, _c=conds, _ob=orig_branch):
                    c2 = z3.simplify(cond)
                    if z3.is_true(c2):
                        return True
                    if z3.is_false(c2):
                        return False
                    key = tuple(self.decisions)
                    replay, np = self.pos < len(self.prefix), len(self.pending)
                    d = _ob(c2)
                    if not replay and len(self.pending) == np:
                        forced.add(key)
                    if key not in forced:       # entailed decisions say nothing new
                        _c.append(c2 if d else z3.Not(c2))
                    return d

                def ax(term, key=None, _s=self):
                    if key is not None:
                        if key in _s.seen_axioms:
                            return
                        _s.seen_axioms.add(key)
                    axioms.append((term, key))
                    real_add(term)
                self.branch = br
                self.axiom = ax
                try:
                    v = fn()
                    results.append((list(conds), v))
                except PathKill:
                    pass
                except Exception as e:
                    raise Impure('exception %r in merged computation' % (e,))
                finally:
                    del self.branch
                    del self.axiom
                    self.solver.pop()
                work.extend(self.pending)
                if len(results) > 2000:
                    raise Unsupported('merge too large')
        finally:
            self.merging -= 1
            (self.decisions, self.prefix, self.pos, self.pending, self.model) = outer
            self.seen_axioms = seen_ax_outer
        for term, key in axioms:
            self.axiom(term, key)
        if not results:
            raise PathKill()
        if len(results) == 1 and not results[0][0]:
            return results[0][1]
        vals = [v for _, v in results]
        if all(isinstance(v, (bool, SBool)) or v is None for v in vals):
            term = z3.Or([z3.And(c + [lift_bool(bool(v) if v is None else v)])
                          for c, v in results])
            return SBool(z3.simplify(term))
        if all(isinstance(v, (int, SInt)) for v in vals):
            t = lift_int(vals[-1])
            for c, v in results[:-1]:
                t = z3.If(z3.And(c), lift_int(v), t)
            ones = 0
            for v in vals:
                ones |= ones_of(v)
            return SInt(t, ones)
        first = vals[0]
        if all(type(v) is type(first) and v == first for v in vals
               if not hasattr(v, '_sym')) and not any(hasattr(v, '_sym') for v in vals):
            return first
        raise Impure('unmergeable results')


MEANING = {'bor': lambda a, b: a | b, 'band': lambda a, b: a & b, 'bxor': lambda a, b: a ^ b,
           'pow2': lambda n: 1 << n if 0 <= n < 4096 else None}


def collect(terms, meaning, abstract):
    """applications of the functions with a meaning, and the abstract symbols, that occur in terms"""
    seen, apps, names, keep = set(), [], set(), []
    work = list(terms)
    while work:
        t = work.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        keep.append(t)
        if z3.is_quantifier(t):
            work.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in abstract:
                    names.add(n)
                if n in meaning and t.num_args() and not any(z3.is_var(x) for x in t.children()):
                    apps.append(t)
            work.extend(t.children())
    return apps, names


def cvc5_check(smt2, timeout_ms):
    import subprocess
    import tempfile
    import os
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        name = f.name
    try:
        p = subprocess.run([exe, '--strings-exp', '--tlimit=%d' % timeout_ms, name],
                           capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)


class Result:
    def __init__(self):
        self.obligations = []
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.unsupported = []
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions = set()
        self.failures = []

    @property
    def ok(self):
        return not self.unsupported and all(o.status == 'discharged' for o in self.obligations)


def explore(body, timeout_ms=10000, max_paths=100000, budget_s=None, stop_on_fail=False):
    """run body(ctx) on every feasible path"""
    global CTX
    res = Result()
    work = [[]]
    saved = CTX
    c = Ctx(timeout_ms, max_paths)
    if budget_s:
        c.deadline = time.time() + budget_s
    CTX = c
    try:
        while work:
            pfx = work.pop()
            c.decisions, c.prefix, c.pos, c.pending = [], pfx, 0, []
            c.model = None
            c.store = {}
            c.seen_axioms = set()
            c.fresh_n = 0
            c.solver.push()
            try:
                body(c)
            except PathKill:
                pass
            except Unsupported as e:
                res.unsupported.append(str(e))
                c.solver.pop()
                break
            c.solver.pop()
            work.extend(c.pending)
            c.paths += 1
            if c.paths >= max_paths:
                res.unsupported.append('path limit %d reached' % max_paths)
                break
            if stop_on_fail and any(o.status != 'discharged' for o in c.obligations):
                break
    finally:
        CTX = saved
    res.obligations = c.obligations
    res.paths = c.paths
    res.solver_time = c.solver_time
    res.queries = c.queries
    res.used_contracts = c.used_contracts
    res.inlined = c.inlined
    res.assumptions = c.assumptions
    res.failures = c.failure_info
    return res
