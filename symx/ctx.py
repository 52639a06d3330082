"""Harness context: the same harness runs symbolically and, for replay, concretely."""
import math
import z3
from fractions import Fraction
from . import engine as E
from . import values as V
from . import strings as S
from .limits import own


class Reject(Exception):
    """concrete inputs do not satisfy the harness's assumptions"""


class CheckFailed(Exception):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class SymCtx:
    sym = True
    own = staticmethod(own)
    pins = {}      # debugging: fixed input values

    def __init__(self, eng, world, params):
        self.eng = eng
        self.world = world
        self.params = params
        self.kdb = world.kdb

    # inputs
    def _reg(self, name, t):
        assert name not in self.eng.inputs, name
        self.eng.inputs[name] = t
        if name in self.pins:
            v = Fraction(self.pins[name]) if not isinstance(self.pins[name], bool) else self.pins[name]
            self.eng.add(t == (v if isinstance(v, bool) else z3.Q(v.numerator, v.denominator) if t.is_real() else v.numerator))

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._reg(name, t)
        if lo is not None:
            self.eng.add(t >= lo)
        if hi is not None:
            self.eng.add(t <= hi)
        return V.SymInt(t)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self._reg(name, t)
        if lo is not None:
            self.eng.add(t >= V.rational(V.snap(float(lo))))
        if hi is not None:
            self.eng.add(t <= V.rational(V.snap(float(hi))))
        return V.SymReal(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._reg(name, t)
        return V.SymBool(t)

    def flag(self, name):
        """a boolean decided (forked) immediately"""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    def str(self, name, n, lo=33, hi=126, exclude=''):
        """text of exactly n symbolic characters with code points in [lo, hi]"""
        items = []
        for k in range(n):
            t = z3.Int('%s#%d' % (name, k))
            self._reg('%s#%d' % (name, k), t)
            self.eng.add(z3.And(t >= lo, t <= hi))
            for c in exclude:
                self.eng.add(t != ord(c))
            items.append(S.SymChar(t))
        return S.SymStr(items) if items else ''

    # logic
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise E.PathInfeasible()
            return
        self.eng.assume(V.bterm(c))

    def check(self, c, label):
        self.eng.check(V.bterm(c), label)

    def close(self, a, b, tol=1e-9):
        """equality of two real quantities"""
        return V.SymBool(V.real_term(a) == V.real_term(b)) if V.is_sym(a) or V.is_sym(b) else \
            math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)

    def check_close(self, a, b, label, tol=1e-9):
        if not (V.is_sym(a) or V.is_sym(b)):
            self.eng.check(z3.BoolVal(abs(a - b) <= 1e-6 * abs(b) + 1e-8), label)
            return
        ta, tb = V.real_term(a), V.real_term(b)
        d = z3.simplify(ta - tb, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            self.eng.check(z3.BoolVal(True), label)
            return
        # a difference below the tolerance used when replaying on floats is not a difference
        ab = z3.If(tb >= 0, tb, -tb)
        eps = ab * V.rational(Fraction(1, 10**6)) + V.rational(Fraction(1, 10**8))
        self.eng.check(z3.And(ta - tb <= eps, tb - ta <= eps), label, clear=z3.And(ta - tb <= 50 * eps, tb - ta <= 50 * eps))

    def eq(self, a, b):
        r = a == b
        return r if isinstance(r, (bool, V.SymBool)) else bool(r)

    def implies(self, a, b):
        return V.SymBool(z3.Implies(V.bterm(a), V.bterm(b)))

    def all(self, xs):
        return V.SymBool(z3.And([V.bterm(x) for x in xs])) if xs else True

    def any(self, xs):
        return V.SymBool(z3.Or([V.bterm(x) for x in xs])) if xs else False

    def not_(self, x):
        return V.SymBool(z3.Not(V.bterm(x)))

    def ite(self, c, a, b):
        return V.ite(c, a, b)

    def atan(self, x):
        return V.atan(x)

    def observe(self, name, v):
        self.eng.observed[name] = v

    def text(self, s):
        return S.decode(s)

    def num(self, s):
        """the number written in a text"""
        s = S.decode(s)
        return S.parse_float(s) if isinstance(s, S.SymStr) else float(s)

    def mod(self, name):
        return self.world.module(name)

    def pb(self, name):
        return self.world.module('klayout_pex_protobuf.kpex.' + name + '_pb2')


class ConcCtx:
    sym = False
    own = staticmethod(own)

    def __init__(self, values, world, params):
        self.values = values
        self.world = world
        self.params = params
        self.kdb = world.kdb
        self.observed = {}
        self.failed = []
        self.checked = 0

    def int(self, name, lo=None, hi=None):
        return int(self.values[name])

    def real(self, name, lo=None, hi=None):
        v = self.values[name]
        return float(Fraction(v)) if isinstance(v, str) else float(v)

    def bool(self, name):
        return bool(self.values[name])

    flag = bool

    def choice(self, name, options):
        return list(options)[int(self.values[name])]

    def str(self, name, n, lo=33, hi=126, exclude=''):
        return ''.join(chr(int(self.values['%s#%d' % (name, k)])) for k in range(n))

    def assume(self, c):
        if not c:
            raise Reject()

    def check(self, c, label):
        self.checked += 1
        if not c:
            raise CheckFailed(label)

    def close(self, a, b, tol=1e-6):
        return math.isclose(a, b, rel_tol=tol, abs_tol=1e-9)

    def check_close(self, a, b, label, tol=1e-6):
        self.check(abs(a - b) <= 1e-6 * abs(b) + 1e-8, label)

    def eq(self, a, b):
        return a == b

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, xs):
        return all(xs)

    def any(self, xs):
        return any(xs)

    def not_(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def atan(self, x):
        return math.atan(x)

    def observe(self, name, v):
        self.observed[name] = v

    def text(self, s):
        return s

    def num(self, s):
        return float(s)

    def mod(self, name):
        return self.world.module(name)

    def pb(self, name):
        return self.world.module('klayout_pex_protobuf.kpex.' + name + '_pb2')
