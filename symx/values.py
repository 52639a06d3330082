"""z3-backed proxies for Python bool/int/float/str values."""
import math as _math
import operator
from fractions import Fraction
import z3
from . import engine as E


class Unsupported(Exception):
    """an operation the engine has no model for"""


class SymHashError(TypeError):
    """a symbolic value was used as a native hash key"""


def snap(f):
    """Python float -> exact rational, reading it as the decimal number it denotes
    (15 significant digits), i.e. float arithmetic is modelled as real arithmetic."""
    if f != f or f in (_math.inf, -_math.inf):
        raise Unsupported('non-finite float in symbolic arithmetic')
    return Fraction('%.15g' % f)


def is_sym(x):
    return isinstance(x, SymBase)


def any_sym(x, depth=3):
    if isinstance(x, SymBase):
        return True
    if depth and isinstance(x, (tuple, list)):
        return any(any_sym(y, depth - 1) for y in x)
    return False


class SymBase:
    __slots__ = ()

    def __hash__(self):
        raise SymHashError(type(self).__name__)


# ---------------------------------------------------------------------------
class SymBool(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.current().branch(self.t)

    __hash__ = SymBase.__hash__

    def _concretize(self, m):
        return z3.is_true(m.eval(self.t, model_completion=True))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.t))
        return _num(self) == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(o, (SymBool, bool)) else _num(self) != o

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(z3.And(self.t, bterm(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(z3.Or(self.t, bterm(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(z3.Xor(self.t, bterm(o)))
        return NotImplemented

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return _num(self) + o
    def __radd__(self, o): return o + _num(self)
    def __sub__(self, o): return _num(self) - o
    def __rsub__(self, o): return o - _num(self)
    def __mul__(self, o): return _num(self) * o
    def __rmul__(self, o): return o * _num(self)

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    __repr__ = __str__


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


def _num(b):
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
    return b


# ---------------------------------------------------------------------------
def rational(fr):
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 \
        else z3.RealVal(fr.numerator)


def to_term(x):
    """-> (z3 term, is_int) or None"""
    if isinstance(x, SymInt):
        return x.t, True
    if isinstance(x, SymReal):
        return x.t, False
    if isinstance(x, SymBool):
        return _num(x).t, True
    if isinstance(x, bool):
        return z3.IntVal(int(x)), True
    if isinstance(x, int):
        return z3.IntVal(x), True
    if isinstance(x, float):
        return rational(snap(x)), False
    if isinstance(x, Fraction):
        return rational(x), False
    return None


def real_term(x):
    t = to_term(x)
    if t is None:
        raise Unsupported('not a number: %r' % (x,))
    return z3.ToReal(t[0]) if t[1] else t[0]


def _inf_cmp(o, op):
    """comparison of a finite symbolic number with +-inf"""
    inf = o > 0
    return {'lt': inf, 'le': inf, 'gt': not inf, 'ge': not inf, 'eq': False, 'ne': True}[op]


_CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
        'eq': operator.eq, 'ne': operator.ne}


class SymNum(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __hash__ = SymBase.__hash__

    def _concretize(self, m):
        return E.model_value(m, self.t)

    def _cmp(self, o, op):
        if isinstance(o, float) and o != o:
            return op == 'ne'
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return _inf_cmp(o, op)
        ot = to_term(o)
        if ot is None:
            if op == 'eq':
                return NotImplemented if not (o is None or isinstance(o, (str, tuple, list))) else False
            if op == 'ne':
                return NotImplemented if not (o is None or isinstance(o, (str, tuple, list))) else True
            return NotImplemented
        a, ai = to_term(self)
        b, bi = ot
        if ai != bi:
            if ai:
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return SymBool(_CMP[op](a, b))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def _arith(self, o, f, rev=False):
        if isinstance(o, float) and (o != o or o in (_math.inf, -_math.inf)):
            raise Unsupported('inf/nan arithmetic with a symbolic number')
        ot = to_term(o)
        if ot is None:
            return NotImplemented
        a, ai = to_term(self)
        b, bi = ot
        if ai and bi:
            return SymInt(f(b, a) if rev else f(a, b))
        if ai:
            a = z3.ToReal(a)
        if bi:
            b = z3.ToReal(b)
        return SymReal(f(b, a) if rev else f(a, b))

    def __add__(self, o): return self._arith(o, operator.add)
    def __radd__(self, o): return self._arith(o, operator.add, True)
    def __sub__(self, o): return self._arith(o, operator.sub)
    def __rsub__(self, o): return self._arith(o, operator.sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return NotImplemented
        return self._arith(o, operator.mul)

    def __rmul__(self, o):
        return self._arith(o, operator.mul, True)

    def __neg__(self): return type(self)(-self.t)
    def __pos__(self): return self
    def __abs__(self): return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return E.current().branch(self.t != 0)

    @staticmethod
    def _div(a, b):
        if E.current().branch(b == 0):
            raise ZeroDivisionError('division by zero')
        if not z3.is_rational_value(b):
            q = z3.simplify(a, som=True)
            if z3.is_rational_value(q):
                if q.numerator_as_long() == 0:
                    return 0.0
                return SymReal(a / b)
            for q, r in ((a - b, 1.0), (a + b, -1.0)):
                q = z3.simplify(q, som=True)
                if z3.is_rational_value(q) and q.numerator_as_long() == 0:
                    return r
        return SymReal(a / b)

    def __truediv__(self, o):
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return 0.0
        if to_term(o) is None:
            return NotImplemented
        return self._div(real_term(self), real_term(o))

    def __rtruediv__(self, o):
        if to_term(o) is None:
            return NotImplemented
        return self._div(real_term(o), real_term(self))

    def __floordiv__(self, o):
        if to_term(o) is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        if to_term(o) is None:
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        if to_term(o) is None:
            return NotImplemented
        return self - _floordiv(self, o) * o

    def __rmod__(self, o):
        if to_term(o) is None:
            return NotImplemented
        return o - _floordiv(o, self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            r = self ** int(n)
            return SymReal(real_term(r)) if is_sym(r) else float(r)
        if isinstance(n, float) and n == 0.5:
            return sqrt(self)
        if isinstance(n, int) and not isinstance(n, bool):
            if n == 0:
                return 1
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else 1 / r
        raise Unsupported('symbolic power')

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __int__(self):
        return realise_int(trunc(self))

    def __index__(self):
        return realise_int(self) if isinstance(self, SymInt) else operator.index(0.5)

    def __float__(self):
        raise Unsupported('native float() of a symbolic number')

    def __round__(self, n=None):
        return sx_round(self, n)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    # text
    def __format__(self, spec):
        from .strings import num_token
        return num_token(self, spec)

    def __str__(self):
        from .strings import num_token
        return num_token(self, '')

    def __repr__(self):
        if not E.active():
            return '<sym %s>' % self.t
        return self.__str__()

    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0


class SymInt(SymNum):
    __slots__ = ()

    def is_integer(self): return True
    def __and__(self, o): return NotImplemented
    def __invert__(self): return -self - 1
    def __lshift__(self, n): return self * (1 << int(n))
    def __rshift__(self, n): return self // (1 << int(n))


class SymReal(SymNum):
    __slots__ = ()

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))


def _floordiv(a, b):
    at, ai = to_term(a)
    bt, bi = to_term(b)
    if E.current().branch(bt == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if ai and bi:
        # z3 div is Euclidean; Python floors
        q = at / bt
        if z3.is_int_value(bt) and bt.as_long() > 0:
            return SymInt(q)
        r = at % bt
        return SymInt(z3.If(z3.And(bt < 0, r != 0), q - 1, q))
    q = z3.ToInt(real_term(a) / real_term(b))
    return SymReal(z3.ToReal(q))


def realise_int(x, limit=64):
    """turn a symbolic integer into a concrete one, forking over its values"""
    if not is_sym(x):
        return int(x)
    eng = E.current()
    t = z3.simplify(x.t)
    if z3.is_int_value(t):
        return t.as_long()
    for _ in range(limit):
        if eng.pos < len(eng.prefix):
            # the value chosen on this prefix must be deterministic
            v = _candidate(eng, t)
        else:
            v = _candidate(eng, t)
        if eng.branch(t == v):
            return v
    raise E.PathTruncated()


def _candidate(eng, t):
    """smallest feasible value close to 0: deterministic for a given path condition"""
    # deterministic: search small values first, then binary-search the minimum >= 0
    key = ('cand', t.get_id())
    s = eng.solver
    r = eng._check()
    if r != z3.sat:
        raise E.PathInfeasible()
    v = s.model().eval(t, model_completion=True).as_long()
    # minimise |v| deterministically by bisection on t >= 0 first
    lo_ok = eng._check(t >= 0) == z3.sat
    if lo_ok:
        hi = s.model().eval(t, model_completion=True).as_long()
        lo = 0
        while lo < hi:
            mid = (lo + hi) // 2
            if eng._check(t >= 0, t <= mid) == z3.sat:
                hi = s.model().eval(t, model_completion=True).as_long()
            else:
                lo = mid + 1
        return lo
    hi = -1
    lo = v
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid == lo:
            mid = hi
        if eng._check(t <= -1, t >= mid) == z3.sat:
            lo = s.model().eval(t, model_completion=True).as_long()
        else:
            hi = mid - 1
    return lo


def _whole(t):
    """t as (integer term, fraction in [0, 1)) if that is visible, else None"""
    def rec(u):
        if z3.is_rational_value(u):
            q = u.as_fraction()
            n = _math.floor(q)
            return z3.IntVal(n), Fraction(q.numerator, q.denominator) - n
        k = u.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return u.arg(0), Fraction(0)
        if k == z3.Z3_OP_ADD:
            s, f = z3.IntVal(0), Fraction(0)
            for x in u.children():
                r = rec(x)
                if r is None:
                    return None
                s, f = s + r[0], f + r[1]
            n = _math.floor(f)
            return s + n, f - n
        if k == z3.Z3_OP_MUL:
            c, rest = 1, []
            for x in u.children():
                if z3.is_rational_value(x):
                    q = x.as_fraction()
                    if q.denominator != 1:
                        return None
                    c *= q.numerator
                else:
                    rest.append(x)
            s = z3.IntVal(c)
            for x in rest:
                r = rec(x)
                if r is None or r[1] != 0:
                    return None
                s = s * r[0]
            return s, Fraction(0)
        if k == z3.Z3_OP_UMINUS:
            r = rec(u.arg(0))
            return None if r is None or r[1] != 0 else (-r[0], Fraction(0))
        return None
    r = rec(z3.simplify(t, som=True))
    return None if r is None else (z3.simplify(r[0]), r[1])


def trunc(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        w = _whole(x.t)
        if w is not None and w[1] == 0:
            return SymInt(w[0])
        f = z3.ToInt(x.t)
        return SymInt(z3.If(x.t >= 0, f, -z3.ToInt(-x.t)))
    return _math.trunc(x)


def floor(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        w = _whole(x.t)
        if w is not None:
            return SymInt(w[0])
        return SymInt(z3.ToInt(x.t))
    return _math.floor(x)


def ceil(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        w = _whole(x.t)
        if w is not None:
            return SymInt(w[0] if w[1] == 0 else w[0] + 1)
        return SymInt(-z3.ToInt(-x.t))
    return _math.ceil(x)


def fresh_real(name='r'):
    eng = E.current()
    eng.fresh += 1
    return z3.Real('%s!%d' % (name, eng.fresh))


def fresh_int(name='i'):
    eng = E.current()
    eng.fresh += 1
    return z3.Int('%s!%d' % (name, eng.fresh))


def sx_round(x, n=None):
    """round(): the result lies within half a unit of the last digit and is monotone;
    ties are not resolved (over-approximation)"""
    if not is_sym(x):
        return round(x) if n is None else round(x, n)
    if isinstance(x, SymInt) and (n is None or n >= 0):
        return x
    t = real_term(x)
    if n is None or n == 0:
        w = _whole(t)
        if w is not None and w[1] == 0:
            return SymInt(w[0]) if n is None else SymReal(z3.ToReal(w[0]))
        i = fresh_int('round')
        d = z3.ToReal(i) - t
        E.current().add(z3.And(d <= rational(Fraction(1, 2)), d >= rational(Fraction(-1, 2))))
        return SymInt(i) if n is None else SymReal(z3.ToReal(i))
    i = fresh_int('round')
    sc = Fraction(10) ** n
    d = z3.ToReal(i) - t * rational(sc)
    E.current().add(z3.And(d <= rational(Fraction(1, 2)), d >= rational(Fraction(-1, 2))))
    r = SymReal(z3.ToReal(i) / rational(sc))
    return r


def _square_root(t):
    """u if t is syntactically u*u (times a square constant)"""
    fs, todo = [], [t]
    while todo:
        u = todo.pop()
        if z3.is_mul(u):
            todo += u.children()
        elif u.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) and u.arg(1).as_fraction().denominator == 1 \
                and u.arg(1).as_fraction() > 0:
            todo += [u.arg(0)] * int(u.arg(1).as_fraction())
        else:
            fs.append(u)
    const = Fraction(1)
    cnt = {}
    for u in fs:
        if z3.is_rational_value(u):
            const *= u.as_fraction()
        else:
            cnt.setdefault(u.get_id(), []).append(u)
    if not cnt or const <= 0 or any(len(v) % 2 for v in cnt.values()):
        return None
    n, d = _math.isqrt(const.numerator), _math.isqrt(const.denominator)
    if n * n != const.numerator or d * d != const.denominator:
        return None
    r = rational(Fraction(n, d))
    for v in cnt.values():
        for _ in range(len(v) // 2):
            r = r * v[0]
    return r


def sqrt(x):
    if not is_sym(x):
        return _math.sqrt(x)
    t = z3.simplify(real_term(x), som=True)
    if z3.is_rational_value(t):
        return _math.sqrt(float(t.as_fraction()))
    root = _square_root(t)
    if root is None:
        t = z3.simplify(real_term(x))
        root = _square_root(t)
    if root is not None:
        return SymReal(root if E.current().branch(root >= 0) else -root)
    if E.current().branch(t < 0):
        raise ValueError('math domain error')
    r = fresh_real('sqrt')
    E.current().add(z3.And(r >= 0, r * r == t))
    return SymReal(r)


_ATAN = z3.Function('atan', z3.RealSort(), z3.RealSort())
PI2 = snap(_math.pi / 2)


def atan(x):
    """uninterpreted, with the axioms: odd sign, strictly monotone over the points used,
    bounded by +-pi/2"""
    if not is_sym(x):
        r = _math.atan(x)
        if E.active() and x == x and abs(x) != _math.inf:
            eng = E.current()
            key = ('pt', x)
            if key not in eng.atan_points:
                eng.atan_points[key] = True
                _atan_axioms(eng, rational(snap(float(x))), rational(snap(r)))
        return r
    eng = E.current()
    t = real_term(x)
    a = _ATAN(t)
    for c in (a < rational(PI2), a > rational(-PI2), (t > 0) == (a > 0), (t < 0) == (a < 0), z3.Implies(t >= 0, a <= t)):
        eng.add(c)
    _atan_axioms(eng, t, a)
    return SymReal(a)


def _atan_axioms(eng, t, a):
    for u, b in eng.axioms_atan:
        eng.add((t < u) == (a < b))
        eng.add((t == u) == (a == b))
    eng.axioms_atan.append((t, a))


def ite(c, a, b):
    """symbolic if-then-else over numbers/bools"""
    if isinstance(c, bool):
        return a if c else b
    ct = bterm(c)
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(ct, bterm(a), bterm(b)))
    at, ai = to_term(a)
    bt, bi = to_term(b)
    if ai and bi:
        return SymInt(z3.If(ct, at, bt))
    return SymReal(z3.If(ct, real_term(a), real_term(b)))
