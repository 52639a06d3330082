"""Path-exploring symbolic execution engine.

The implementation's Python functions are executed on z3-backed proxy values
(symx.values).  Every branch on a symbolic condition is decided by z3: both
outcomes are explored when both are satisfiable under the path condition.  An
assertion is decided by asking z3 for a model of  path_condition AND NOT assertion.
"""
import time
from fractions import Fraction
import z3


class PathInfeasible(BaseException):
    """the current path's assumptions are unsatisfiable"""


class PathTruncated(BaseException):
    """a concretisation bound was reached; the path is abandoned and counted"""


class Inconclusive(BaseException):
    """the solver answered unknown, or a budget was exhausted"""


class Violation(BaseException):
    def __init__(self, label, model_values, detail=''):
        self.label = label
        self.values = model_values
        self.detail = detail


_current = None


def current():
    if _current is None:
        raise RuntimeError('no symbolic engine active')
    return _current


def active():
    return _current is not None


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.truncated = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.decided = 0
        self.violating = 0
        self.undecided = 0
        self.reached = {}

    def merge(self, o):
        for k in ('paths', 'infeasible', 'branches', 'truncated', 'queries', 'obligations'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.solver_s += o.solver_s
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class Engine:
    def __init__(self, solver_timeout_ms=60000, max_paths=200000, deadline=None):
        self.timeout = solver_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.collect_models = 4
        self.witnesses = []       # concrete inputs of passing paths
        self.cases = []           # (values, observations)

    # ---- per path -----------------------------------------------------
    def _reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.inputs = {}
        self.observed = {}
        self.fresh = 0
        self.path_checks = 0
        self.cache_model = None
        self.axioms_atan = []
        self.atan_points = {}
        self.tokens = {}
        self.known = {}
        self.kept = {}

    def intern(self, t):
        """id of the simplified term; the term is kept alive so that ids are not reused"""
        t = z3.simplify(t)
        i = t.get_id()
        self.kept[i] = t
        return i

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        return r

    def add(self, c):
        self.solver.add(c)
        if self.cache_model is not None:
            try:
                if not z3.is_true(self.cache_model.eval(c, model_completion=True)):
                    self.cache_model = None
            except z3.Z3Exception:
                self.cache_model = None

    def _sat(self, c):
        """is path condition and c satisfiable?"""
        if self.cache_model is not None:
            try:
                if z3.is_true(self.cache_model.eval(c, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r = self._check(c)
        if r == z3.sat:
            self.cache_model = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        raise Inconclusive('solver unknown on branch: %s' % self.solver.reason_unknown())

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        hit = self.known.get(cond.get_id())
        if hit is not None:
            return hit[1]
        d = self._decide(cond)
        neg = z3.simplify(z3.Not(cond))
        self.known[cond.get_id()] = (cond, d)
        self.known[neg.get_id()] = (neg, not d)
        return d

    def _decide(self, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        t = self._sat(cond)
        f = self._sat(z3.Not(cond))
        if not t and not f:
            raise PathInfeasible()
        self.stats.branches += 1
        if t and f:
            self.worklist.append(self.decisions + [False])
            d = True
        else:
            d = t
        self.pos += 1
        self.decisions.append(d)
        if t and f:
            self.add(cond if d else z3.Not(cond))
        return d

    def assume(self, cond):
        self.solver.add(cond)
        self.cache_model = None
        if self.pos >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                self.cache_model = self.solver.model()
            else:
                raise Inconclusive('solver unknown on assume')

    def values_from(self, m):
        out = {}
        for name, t in self.inputs.items():
            out[name] = model_value(m, t)
        return out

    def check(self, cond, label, clear=None):
        """clear: a violation of this is one by far, its model survives the rounding of floating point numbers"""
        self.stats.obligations += 1
        self.path_checks += 1
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.decided += 1
            return
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.stats.decided += 1
            return
        if r == z3.sat:
            self.stats.decided += 1
            m = self.solver.model()
            if clear is not None and self._check(z3.Not(clear)) == z3.sat:
                m = self.solver.model()
            raise Violation(label, self.values_from(m), str(cond)[:400])
        raise Inconclusive('solver unknown on assertion %s: %s' % (label, self.solver.reason_unknown()))

    def model(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self.solver.model()

    # ---- exploration --------------------------------------------------
    def explore(self, fn):
        global _current
        self.worklist = [[]]
        while self.worklist:
            prefix = self.worklist.pop()
            self._reset(prefix)
            _current = self
            try:
                ok = fn(self)
                self.stats.paths += 1
                if ok is not False and len(self.cases) < 4 * self.collect_models and (
                        len(self.cases) < self.collect_models or self.stats.paths % 37 == 0):
                    m = self.model()
                    if m is not None:
                        obs = {}
                        for k, v in self.observed.items():
                            obs[k] = concretize(m, v)
                        self.cases.append((self.values_from(m), obs))
            except PathInfeasible:
                self.stats.infeasible += 1
            except PathTruncated:
                self.stats.truncated += 1
            finally:
                _current = None
            if self.stats.paths + self.stats.infeasible > self.max_paths:
                raise Inconclusive('path budget exhausted')
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive('time budget exhausted')


def concretize(m, v):
    """evaluate an observation (nested python structure with proxies) under model m"""
    from . import values as V
    if isinstance(v, V.SymBase):
        return v._concretize(m)
    if isinstance(v, (list, tuple)):
        return [concretize(m, x) for x in v]
    if isinstance(v, dict):
        return {concretize(m, k): concretize(m, x) for k, x in v.items()}
    return v
