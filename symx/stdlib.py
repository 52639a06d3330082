"""Stand-ins for standard-library modules used by the code under test."""
import builtins
import csv as _csv
import io as _io
import math as _math
import collections as _collections
import functools as _functools
import types
import z3
from . import values as V
from . import strings as S
from . import engine as E
from .containers import SymDict, SymDefaultDict, SymSet
from .restr import ReModule


class Passthru:
    def __init__(self, native, **over):
        self.__dict__['_native'] = native
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._native, n)


class MathModule:
    pi = _math.pi
    inf = _math.inf
    nan = _math.nan
    e = _math.e
    tau = _math.tau
    atan = staticmethod(V.atan)
    sqrt = staticmethod(V.sqrt)
    floor = staticmethod(V.floor)
    ceil = staticmethod(V.ceil)
    trunc = staticmethod(V.trunc)

    @staticmethod
    def fabs(x): return abs(x)

    @staticmethod
    def hypot(*xs):
        if V.any_sym(xs):
            return V.sqrt(builtins.sum(x * x for x in xs))
        return _math.hypot(*xs)

    @staticmethod
    def pow(a, b):
        return a ** b if V.any_sym((a, b)) else _math.pow(a, b)

    @staticmethod
    def isnan(x): return False if V.is_sym(x) else _math.isnan(x)

    @staticmethod
    def isinf(x): return False if V.is_sym(x) else _math.isinf(x)

    @staticmethod
    def isfinite(x): return True if V.is_sym(x) else _math.isfinite(x)

    @staticmethod
    def fsum(xs): return builtins.sum(xs)

    @staticmethod
    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def copysign(a, b):
        if V.any_sym((a, b)):
            return V.ite(b >= 0, abs(a), -abs(a))
        return _math.copysign(a, b)

    @staticmethod
    def atan2(y, x):
        if V.any_sym((y, x)):
            if bool(x > 0):
                return V.atan(y / x)
            raise V.Unsupported('atan2')
        return _math.atan2(y, x)

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if V.any_sym((a, b)):
            d = abs(a - b)
            m = V.ite(abs(a) > abs(b), abs(a), abs(b)) if not isinstance(abs(a) > abs(b), bool) else max(abs(a), abs(b))
            return (d <= m * rel_tol) | (d <= abs_tol) if V.is_sym(d) else _math.isclose(a, b)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, n):
        f = getattr(_math, n)
        if callable(f):
            def g(*a, **k):
                if V.any_sym(a):
                    raise V.Unsupported('math.%s on symbolic values' % n)
                return f(*a, **k)
            return g
        return f


class Counter(SymDefaultDict):
    def __init__(self, xs=()):
        super().__init__(int)
        for x in xs:
            self[x] = self[x] + 1

    def __missing__(self, k):
        return 0


def _nocache(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class StringIO:
    def __init__(self, initial='', newline='\n'):
        self.parts = []
        self.left = None
        self.initial = initial

    def write(self, s):
        self.parts.append(s)
        return 0

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return S.sjoin('', [self.initial] * (not self.parts) + self.parts)

    def read(self):
        return self.getvalue()

    def __iter__(self):
        v = self.getvalue()
        return iter(v.splitlines(True) if isinstance(v, S.SymStr) else S.SymStr(list(v)).splitlines(True))

    def readlines(self):
        return list(self)

    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class CsvWriter:
    def __init__(self, f, dialect='excel', delimiter=',', quotechar='"', lineterminator='\r\n', quoting=0, **k):
        if dialect != 'excel' or k or quoting not in (_csv.QUOTE_MINIMAL, _csv.QUOTE_ALL):
            raise V.Unsupported('csv dialect')
        self.f, self.delimiter, self.quote, self.end, self.all = f, delimiter, quotechar, lineterminator, quoting == _csv.QUOTE_ALL

    def _cell(self, x, single):
        x = S.decode(x) if builtins.isinstance(x, (builtins.str, S.SymStr)) else '' if x is None else \
            S.SymStr([S.NumTok(x, 'r')]) if V.is_sym(x) else builtins.repr(x) if builtins.isinstance(x, builtins.float) else S.to_text(x)
        it = S.items_of(x)
        special = [(ord(c), ord(c)) for c in self.delimiter + self.quote + '\r\n' + ''.join(self.end)]
        if self.all or (single and not it) or any(bool(S.code_in(i, special)) for i in it):
            x = S.sjoin('', [self.quote, S.SymStr(it).replace(self.quote, self.quote * 2) if it else '', self.quote])
        return x

    def writerow(self, row):
        row = builtins.list(row)
        self.f.write(S.sjoin('', [S.sjoin(self.delimiter, [self._cell(x, len(row) == 1) for x in row]), self.end]))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def default_modules():
    return {
        'io': Passthru(_io, StringIO=StringIO),
        'csv': Passthru(_csv, writer=CsvWriter),
        'math': MathModule(),
        're': ReModule(),
        'collections': Passthru(_collections, defaultdict=SymDefaultDict, OrderedDict=SymDict, Counter=Counter),
        'functools': Passthru(_functools, lru_cache=_nocache, cache=_nocache),
    }
