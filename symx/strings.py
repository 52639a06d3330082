"""Symbolic text: a sequence of concrete characters, symbolic characters (z3 Int code
points) and atomic formatted numbers."""
import re
import types
import z3
from fractions import Fraction
from . import engine as E
from .values import (SymBase, SymBool, SymNum, SymInt, SymReal, Unsupported, is_sym,
                     to_term, real_term, sx_round, bterm)

WS = ' \t\n\r\x0b\x0c'
TOK_A, TOK_B = '\uE000', '\uE001'


class NumTok:
    """the text of a number; contains no whitespace and none of , ; : quotes"""
    __slots__ = ('value', 'spec')

    def __init__(self, value, spec):
        self.value = value
        self.spec = spec

    CHARS = set('0123456789.eE+-')


class SymChar:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


def _register(obj):
    eng = E.current()
    k = len(eng.tokens)
    eng.tokens[k] = obj
    return '%s%d%s' % (TOK_A, k, TOK_B)


def num_token(v, spec):
    if not E.active():
        return '<sym>'
    return _register(SymStr([NumTok(v, spec)]))


def decode(s):
    """native str possibly holding tokens -> SymStr or str"""
    if not isinstance(s, str) or TOK_A not in s:
        return s
    items = []
    i = 0
    while i < len(s):
        if s[i] == TOK_A:
            j = s.index(TOK_B, i)
            items += E.current().tokens[int(s[i + 1:j])].items
            i = j + 1
        else:
            items.append(s[i])
            i += 1
    return SymStr(items)


def items_of(s):
    if isinstance(s, SymStr):
        return s.items
    if isinstance(s, str):
        if TOK_A in s:
            return items_of(decode(s))
        return list(s)
    raise TypeError('expected str, got %s' % type(s).__name__)


def mk(items):
    """SymStr, or a native str when everything is concrete"""
    if all(type(i) is str for i in items):
        return ''.join(items)
    return SymStr(items)


def item_eq(a, b):
    """-> True/False/z3 Bool"""
    if type(a) is str and type(b) is str:
        return a == b
    if isinstance(a, NumTok) or isinstance(b, NumTok):
        if a is b:
            return True
        if isinstance(a, NumTok) and isinstance(b, NumTok):
            if a.spec == b.spec:
                x, y = a.value, b.value
                return bterm(x == y)
            raise Unsupported('comparison of differently formatted numbers')
        o = b if isinstance(a, NumTok) else a
        if type(o) is str and o not in NumTok.CHARS:
            return False
        raise Unsupported('comparison of number text with characters')
    ta = a.t if isinstance(a, SymChar) else z3.IntVal(ord(a))
    tb = b.t if isinstance(b, SymChar) else z3.IntVal(ord(b))
    return ta == tb


def code_in(item, pred_ranges):
    """is the item's code point in one of the ranges -> SymBool/bool"""
    if type(item) is str:
        c = ord(item)
        return any(lo <= c <= hi for lo, hi in pred_ranges)
    if isinstance(item, NumTok):
        ins = [any(lo <= ord(c) <= hi for lo, hi in pred_ranges) for c in NumTok.CHARS]
        if all(ins):
            return True
        if not any(ins):
            return False
        raise Unsupported('character class splits a formatted number')
    return SymBool(z3.Or([z3.And(item.t >= lo, item.t <= hi) for lo, hi in pred_ranges]))


WS_R = [(32, 32), (9, 13)]
UP_R = [(65, 90)]
LO_R = [(97, 122)]
DIG_R = [(48, 57)]


def num_text_eq(tok, text):
    """is the formatted number exactly this concrete text"""
    if not text or any(ch not in NumTok.CHARS for ch in text):
        return False
    try:
        q = Fraction(text)
    except (ValueError, ZeroDivisionError):
        return False
    v = tok.value
    if isinstance(v, SymInt):
        if q.denominator != 1:
            return False
        q = int(q)
    elif tok.spec not in ('', '.17g', '%.17g', 'r'):
        raise Unsupported('comparison of rounded number text')      # not one value per text
    if fmt_number(q, tok.spec) != text:
        return False
    return bterm(v == q)


def one_tok_eq(a, b):
    """a holds exactly one formatted number, b none -> True/False/z3 Bool"""
    k = next(i for i, x in enumerate(a) if isinstance(x, NumTok))
    tail = len(a) - k - 1
    if len(b) < len(a):
        return False
    mid = b[k:len(b) - tail]
    if not all(type(x) is str for x in mid):
        raise Unsupported('equality of texts with formatted numbers')
    terms = [num_text_eq(a[k], ''.join(mid))]
    terms += [item_eq(x, y) for x, y in zip(a[:k], b[:k])]
    terms += [item_eq(x, y) for x, y in zip(a[k + 1:], b[len(b) - tail:])]
    if any(t is False for t in terms):
        return False
    terms = [t for t in terms if t is not True]
    return True if not terms else SymBool(z3.And(terms) if len(terms) > 1 else terms[0])


def eq_items(a, b):
    ka, kb = [sum(isinstance(i, NumTok) for i in x) for x in (a, b)]
    if (ka, kb) in ((1, 0), (0, 1)):
        x, y = (a, b) if ka else (b, a)
        k = next(i for i, t in enumerate(x) if isinstance(t, NumTok))
        if all(type(t) is str for t in y[k:len(y) - (len(x) - k - 1)]):
            return one_tok_eq(x, y)
    if len(a) != len(b):
        na = any(isinstance(i, NumTok) for i in a)
        nb = any(isinstance(i, NumTok) for i in b)
        if na or nb:
            # compare token-wise from both ends as far as lengths allow
            for x, y in zip(a, b):
                if isinstance(x, NumTok) or isinstance(y, NumTok):
                    break
                e = item_eq(x, y)
                if e is False:
                    return False
            if not (na and nb) and not _maybe_num(b if na else a):
                return False
            raise Unsupported('equality of texts with formatted numbers')
        return False
    terms = []
    for x, y in zip(a, b):
        e = item_eq(x, y)
        if e is False:
            return False
        if e is not True:
            terms.append(e)
    if not terms:
        return True
    return SymBool(z3.And(terms) if len(terms) > 1 else terms[0])


def _maybe_num(items):
    return any((type(i) is str and i in NumTok.CHARS) or isinstance(i, SymChar) for i in items)


class SymStr(SymBase):
    __slots__ = ('items', '_len')
    __hash__ = SymBase.__hash__

    def __init__(self, items):
        self.items = list(items)

    # --- basics
    def _concretize(self, m):
        out = []
        for i in self.items:
            if type(i) is str:
                out.append(i)
            elif isinstance(i, SymChar):
                out.append(chr(E.model_value(m, i.t)))
            else:
                v = i.value._concretize(m) if is_sym(i.value) else i.value
                out.append(fmt_number(v, i.spec))
        return ''.join(out)

    def __len__(self):
        if any(isinstance(i, NumTok) for i in self.items):
            raise Unsupported('length of text with a formatted number')
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter([self._one(i) for i in self.items])

    @staticmethod
    def _one(i):
        return i if type(i) is str else SymStr([i])

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, st = k.start, k.stop, k.step
            if any(isinstance(i, NumTok) for i in self.items):
                if st not in (None, 1):
                    raise Unsupported('slice of number text')
                # indices must not count across a number
                def safe(n):
                    if n is None:
                        return True
                    seg = self.items[:n] if n >= 0 else self.items[n:]
                    return not any(isinstance(i, NumTok) for i in seg)
                if not (safe(a) and safe(b)):
                    raise Unsupported('slice across number text')
            return mk(self.items[k])
        k = k if isinstance(k, int) else k.__index__()
        seg = self.items[:k + 1] if k >= 0 else self.items[k:]
        if any(isinstance(i, NumTok) for i in seg):
            raise Unsupported('index into number text')
        return self._one(self.items[k])

    def __add__(self, o):
        o = decode(o)
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk(self.items + items_of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk(items_of(o) + self.items)

    def __mul__(self, n):
        return mk(self.items * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return eq_items(self.items, items_of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _lt(self, o, strict):
        a, b = self.items, items_of(o)
        if any(isinstance(i, NumTok) for i in a + b):
            raise Unsupported('order of number text')
        def code(i):
            return i.t if isinstance(i, SymChar) else z3.IntVal(ord(i))
        # lexicographic
        res = z3.BoolVal(len(a) < len(b) if strict else len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            cx, cy = code(x), code(y)
            res = z3.Or(cx < cy, z3.And(cx == cy, res))
        return SymBool(res)

    def __lt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._lt(o, True)

    def __le__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else ~r

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else ~r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __str__(self):
        return _register(self) if E.active() else '<symstr>'

    def __format__(self, spec):
        if spec:
            raise Unsupported('format spec on symbolic text')
        return self.__str__()

    def __repr__(self):
        return self.__str__()

    def __mod__(self, args):
        raise Unsupported('% on symbolic text')

    def __int__(self):
        return parse_int(self).__int__()

    def __float__(self):
        raise Unsupported('native float() of symbolic text')

    # --- searching
    def _match_at(self, pat, i):
        if i + len(pat) > len(self.items):
            return False
        for x, y in zip(self.items[i:i + len(pat)], pat):
            e = item_eq(x, y)
            if e is False:
                return False
            if e is True:
                continue
            if not E.current().branch(e):
                return False
        return True

    def find(self, sub, start=0, end=None):
        pat = items_of(sub)
        n = len(self.items) if end is None else end
        for i in range(start, n - len(pat) + 1):
            if self._match_at(pat, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        pat = items_of(sub)
        n = len(self.items) if end is None else end
        for i in range(n - len(pat), start - 1, -1):
            if self._match_at(pat, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        pat = items_of(sub)
        n = i = 0
        while i + len(pat) <= len(self.items):
            if self._match_at(pat, i):
                n += 1
                i += max(1, len(pat))
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        return self._match_at(items_of(p), start)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        pat = items_of(p)
        if len(pat) > len(self.items):
            return False
        return self._match_at(pat, len(self.items) - len(pat))

    def removeprefix(self, p):
        return self[len(items_of(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(items_of(p))
        return self[:-n] if n and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        pat, rep = items_of(old), items_of(new)
        out = []
        i = 0
        n = 0
        while i < len(self.items):
            if pat and (count < 0 or n < count) and self._match_at(pat, i):
                out += rep
                i += len(pat)
                n += 1
            else:
                out.append(self.items[i])
                i += 1
        return mk(out)

    # --- splitting
    def _is_ws(self, i):
        return bool(code_in(i, WS_R))

    def split(self, sep=None, maxsplit=-1):
        out, cur, n = [], [], 0
        it = self.items
        if sep is None:
            i = 0
            while i < len(it):
                if self._is_ws(it[i]):
                    if cur:
                        out.append(mk(cur))
                        cur = []
                        n += 1
                    i += 1
                    if maxsplit >= 0 and n >= maxsplit:
                        while i < len(it) and self._is_ws(it[i]):
                            i += 1
                        if i < len(it):
                            out.append(mk(it[i:]))
                        return out
                else:
                    cur.append(it[i])
                    i += 1
            if cur:
                out.append(mk(cur))
            return out
        pat = items_of(sep)
        if not pat:
            raise ValueError('empty separator')
        i = 0
        while i < len(it):
            if (maxsplit < 0 or n < maxsplit) and self._match_at(pat, i):
                out.append(mk(cur))
                cur = []
                n += 1
                i += len(pat)
            else:
                cur.append(it[i])
                i += 1
        out.append(mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        parts = self.split(sep)
        if maxsplit < 0 or len(parts) <= maxsplit + 1:
            return parts
        if sep is None:
            raise Unsupported('rsplit')
        head = parts[:len(parts) - maxsplit]
        return [sjoin(sep, head)] + parts[len(parts) - maxsplit:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return mk(self.items[:i]), sep, mk(self.items[i + len(items_of(sep)):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return mk(self.items[:i]), sep, mk(self.items[i + len(items_of(sep)):])

    def splitlines(self, keepends=False):
        out, cur = [], []
        for i in self.items:
            if bool(code_in(i, [(10, 10), (13, 13)])):
                if keepends:
                    cur.append(i)
                out.append(mk(cur))
                cur = []
            else:
                cur.append(i)
        if cur:
            out.append(mk(cur))
        return out

    def _strip(self, chars, left, right):
        def hit(i):
            if chars is None:
                return self._is_ws(i)
            return bool(code_in(i, [(ord(c), ord(c)) for c in chars]))
        a, b = 0, len(self.items)
        if left:
            while a < b and hit(self.items[a]):
                a += 1
        if right:
            while b > a and hit(self.items[b - 1]):
                b -= 1
        return mk(self.items[a:b])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    # --- case (ASCII)
    def _map(self, lo, hi, d):
        out = []
        for i in self.items:
            if type(i) is str:
                out.append(i.lower() if d > 0 else i.upper())
            elif isinstance(i, SymChar):
                out.append(SymChar(z3.If(z3.And(i.t >= lo, i.t <= hi), i.t + d, i.t)))
            else:
                out.append(i)
        return mk(out)

    def lower(self): return self._map(65, 90, 32)
    casefold = lower
    def upper(self): return self._map(97, 122, -32)

    def _all(self, ranges):
        if not self.items:
            return False
        return all(bool(code_in(i, ranges)) for i in self.items)

    def isdigit(self): return self._all(DIG_R)
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all(UP_R + LO_R)
    def isalnum(self): return self._all(UP_R + LO_R + DIG_R)
    def isspace(self): return self._all(WS_R)
    def isidentifier(self):
        return bool(self.items) and not bool(code_in(self.items[0], DIG_R)) and \
            self._all(UP_R + LO_R + DIG_R + [(95, 95)])

    def join(self, xs): return sjoin(self, xs)

    def encode(self, *a, **k):
        raise Unsupported('encode of symbolic text')


def sjoin(sep, xs):
    out = []
    sp = items_of(sep)
    for k, x in enumerate(xs):
        if k:
            out += sp
        out += items_of(x)
    return mk(out)


def fmt_number(v, spec):
    if isinstance(v, Fraction):
        v = float(v)
    if spec.startswith('%'):
        return spec % v
    return format(v, spec)


def to_text(x):
    """str(x) for a possibly symbolic value"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymNum):
        return SymStr([NumTok(x, '')])
    return decode(_str(x))


def _str(x):
    f = type(x).__str__
    if isinstance(f, types.FunctionType) and type(x).__module__ != __name__:
        return f(x)         # may be symbolic text, which str() would refuse
    return str(x)


def to_fmt(x, spec):
    if isinstance(x, SymStr):
        if spec in ('', 's'):
            return x
        raise Unsupported('format spec %r' % spec)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    if isinstance(x, SymNum):
        return SymStr([NumTok(x, spec)])
    if spec == '' and type(x).__format__ is object.__format__:
        return to_text(x)
    return decode(format(x, spec))


def parse_float(s):
    """float(text)"""
    if isinstance(s, str):
        return float(s)
    it = s.strip()
    it = items_of(it)
    if len(it) == 1 and isinstance(it[0], NumTok):
        return tok_value(it[0])
    if any(isinstance(i, NumTok) for i in it):
        if len(it) == 2 and type(it[0]) is str and it[0] in '+-' and isinstance(it[1], NumTok):
            v = tok_value(it[1])
            if bool(v < 0):
                raise ValueError('could not convert string to float')
            return v if it[0] == '+' else -v
        if any(type(i) is str and i not in NumTok.CHARS and i not in '_ ' for i in it):
            raise ValueError('could not convert string to float')
        raise Unsupported('float() of mixed number text')
    return parse_int(s, as_float=True)


def significant(sp):
    """number of significant digits a %g or %e format keeps (None: all that matter)"""
    m = re.fullmatch(r'%?[-+ #0]*\d*(?:\.(\d+))?([geGE])', sp)
    if not m:
        return None
    n = int(m.group(1)) if m.group(1) is not None else 6
    return n + 1 if m.group(2) in 'eE' else max(n, 1)


def tok_value(t):
    """the number that is read back from a formatted number"""
    v = t.value
    sp = t.spec
    if not is_sym(v):
        return float(fmt_number(v, sp)) if sp else float(v)
    if sp.endswith('f') and '.' in sp:
        return sx_round(v, int(sp.split('.')[1][:-1]))
    if sp.endswith('f'):
        return sx_round(v, 6)
    n = significant(sp)
    v = v if isinstance(v, SymReal) else SymReal(real_term(v))
    if n is None or n >= 9:
        return v      # differs by less than any tolerance in use
    a = abs(v)
    if bool(a == 0):
        return v
    e = 0
    while bool(a >= Fraction(10) ** (e + 1)):
        e += 1
        if e > 30:
            raise Unsupported('magnitude of a formatted number')
    while bool(a < Fraction(10) ** e):
        e -= 1
        if e < -30:
            raise Unsupported('magnitude of a formatted number')
    return sx_round(v, n - 1 - e)


def parse_int(s, as_float=False):
    """int(text) for decimal digit strings of symbolic characters"""
    if isinstance(s, str):
        return int(s)
    it = items_of(s.strip())
    if len(it) == 1 and isinstance(it[0], NumTok):
        v = it[0].value
        if isinstance(v, (SymInt, int)):
            return v
        raise ValueError('invalid literal for int()')
    if any(isinstance(i, NumTok) for i in it):
        raise Unsupported('int() of mixed number text')
    neg = False
    if it and bool(code_in(it[0], [(45, 45), (43, 43)])):
        neg = bool(code_in(it[0], [(45, 45)]))
        it = it[1:]
    if not it:
        raise ValueError('invalid literal')
    acc = z3.IntVal(0)
    if as_float:
        scale = 0
        for i in it:
            if scale == 0 and bool(code_in(i, [(46, 46)])):
                scale = 1
                continue
            if not bool(code_in(i, DIG_R)):
                if bool(code_in(i, [(32, 122)])) and not bool(code_in(i, [(43, 43), (45, 46), (69, 69), (95, 95), (101, 101), (65, 65), (70, 70), (73, 73),
                                                                          (78, 78), (84, 84), (89, 89), (97, 97), (102, 102), (105, 105), (110, 110), (116, 116), (121, 121)])):
                    raise ValueError('could not convert string to float')
                raise Unsupported('float() of symbolic characters')
            acc = acc * 10 + ((i.t if isinstance(i, SymChar) else z3.IntVal(ord(i))) - 48)
            scale *= 10
        if len(it) == 1 and scale == 1:
            raise ValueError('could not convert string to float')
        r = z3.ToReal(-acc if neg else acc)
        return SymReal(r / max(scale, 1))
    for i in it:
        if not bool(code_in(i, DIG_R)):
            if as_float:
                raise Unsupported('float() of symbolic characters')
            raise ValueError('invalid literal for int() with base 10')
        acc = acc * 10 + ((i.t if isinstance(i, SymChar) else z3.IntVal(ord(i))) - 48)
    r = SymInt(-acc if neg else acc)
    return SymReal(real_term(r)) if as_float else r


def percent(fmt, args):
    """fmt % args with symbolic arguments"""
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    k = 0
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while fmt[j] in '0123456789.+-# ':
            j += 1
        conv = fmt[j]
        spec = fmt[i:j + 1]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        a = args[k]
        k += 1
        if is_sym(a):
            if conv in 'sr':
                out += items_of(to_text(a))
            else:
                if conv in 'di':
                    from .values import trunc
                    a = trunc(a)
                out.append(NumTok(a, spec))
        else:
            out += items_of(decode(spec % a))
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mk(out)
