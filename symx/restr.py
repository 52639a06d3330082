"""A backtracking regular-expression matcher over symbolic text, driven by the parse tree
that Python's own `re` module produces for the pattern."""
import re as _re
import re._parser as _p
import re._constants as C
from . import engine as E
from . import strings as S
from . import values as V

ALL = [(0, 0x10FFFF)]
DIGIT = [(48, 57)]
WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
SPACE = [(9, 13), (32, 32)]


def _neg(r):
    out, p = [], 0
    for lo, hi in sorted(r):
        if lo > p:
            out.append((p, lo - 1))
        p = max(p, hi + 1)
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return out


CAT = {C.CATEGORY_DIGIT: DIGIT, C.CATEGORY_NOT_DIGIT: _neg(DIGIT), C.CATEGORY_WORD: WORD,
       C.CATEGORY_NOT_WORD: _neg(WORD), C.CATEGORY_SPACE: SPACE, C.CATEGORY_NOT_SPACE: _neg(SPACE)}


def _ci(r):
    out = list(r)
    for lo, hi in r:
        a, b = max(lo, 65), min(hi, 90)
        if a <= b:
            out.append((a + 32, b + 32))
        a, b = max(lo, 97), min(hi, 122)
        if a <= b:
            out.append((a - 32, b - 32))
    return out


def _in_ranges(items):
    neg = False
    r = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            r.append((av, av))
        elif op is C.RANGE:
            r.append(tuple(av))
        elif op is C.CATEGORY:
            r += CAT[av]
        else:
            raise V.Unsupported('regex set op %s' % op)
    return r, neg


class Pattern:
    def __init__(self, pat, flags=0):
        self.native = _re.compile(pat, flags)
        self.pattern = pat
        self.flags = self.native.flags
        self.tree = _p.parse(pat, flags)
        self.groups = self.native.groups
        self.groupindex = self.native.groupindex

    # ---- matching core: generator of end positions, mutates groups dict copies
    def _char(self, item, ranges, neg=False):
        if self.flags & _re.I:
            ranges = _ci(ranges)
        if neg:
            ranges = _neg(ranges)
        return bool(S.code_in(item, ranges))

    def _m(self, seq, k, s, i, g):
        """match ops seq[k:] on items s from i; yields (end, groups)"""
        if k == len(seq):
            yield i, g
            return
        op, av = seq[k]
        nxt = lambda j, gg: self._m(seq, k + 1, s, j, gg)
        if op is C.LITERAL:
            if i < len(s) and self._char(s[i], [(av, av)]):
                yield from nxt(i + 1, g)
        elif op is C.NOT_LITERAL:
            if i < len(s) and self._char(s[i], [(av, av)], True):
                yield from nxt(i + 1, g)
        elif op is C.ANY:
            if i < len(s) and self._char(s[i], ALL if self.flags & _re.S else _neg([(10, 10)])):
                yield from nxt(i + 1, g)
        elif op is C.IN:
            r, neg = _in_ranges(av)
            if i < len(s) and self._char(s[i], r, neg):
                yield from nxt(i + 1, g)
        elif op is C.BRANCH:
            for alt in av[1]:
                for j, gg in self._m(list(alt), 0, s, i, g):
                    yield from nxt(j, gg)
        elif op is C.SUBPATTERN:
            grp, _, _, sub = av
            for j, gg in self._m(list(sub), 0, s, i, g):
                if grp is not None:
                    gg = dict(gg)
                    gg[grp] = (i, j)
                yield from nxt(j, gg)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            yield from self._rep(list(sub), lo, hi, op is C.MAX_REPEAT, s, i, g, nxt)
        elif op is C.AT:
            if self._at(av, s, i):
                yield from nxt(i, g)
        elif op is C.GROUPREF:
            a, b = g[av]
            seg = s[a:b]
            if i + len(seg) <= len(s) and bool(S.eq_items(s[i:i + len(seg)], seg)):
                yield from nxt(i + len(seg), g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise V.Unsupported('lookbehind')
            ok = next(self._m(list(sub), 0, s, i, g), None)
            if (ok is not None) == (op is C.ASSERT):
                yield from nxt(i, ok[1] if ok else g)
        else:
            raise V.Unsupported('regex op %s' % op)

    def _rep(self, sub, lo, hi, greedy, s, i, g, nxt, n=0):
        if n < lo:
            for j, gg in self._m(sub, 0, s, i, g):
                yield from self._rep(sub, lo, hi, greedy, s, j, gg, nxt, n + 1)
            return
        more = hi is C.MAXREPEAT or n < hi
        if not greedy:
            yield from nxt(i, g)
        if more:
            for j, gg in self._m(sub, 0, s, i, g):
                if j == i:
                    continue
                yield from self._rep(sub, lo, hi, greedy, s, j, gg, nxt, n + 1)
        if greedy:
            yield from nxt(i, g)

    def _at(self, av, s, i):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return i == 0 or (self.flags & _re.M and av is C.AT_BEGINNING and self._char(s[i - 1], [(10, 10)]))
        if av is C.AT_END:
            return i == len(s) or (i == len(s) - 1 and self._char(s[i], [(10, 10)])) or \
                (self.flags & _re.M and self._char(s[i], [(10, 10)]))
        if av is C.AT_END_STRING:
            return i == len(s)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and self._char(s[i - 1], WORD)
            b = i < len(s) and self._char(s[i], WORD)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise V.Unsupported('regex anchor %s' % av)

    # ---- public API
    def _prep(self, text):
        text = S.decode(text)
        if isinstance(text, str):
            return None, text
        return text.items, text

    def _try(self, items, text, pos, full):
        for j, g in self._m(list(self.tree), 0, items, pos, {}):
            if not full or j == len(items):
                return Match(self, text, items, pos, j, g)
        return None

    def match(self, text, pos=0):
        it, t = self._prep(text)
        return self.native.match(t, pos) if it is None else self._try(it, t, pos, False)

    def fullmatch(self, text, pos=0):
        it, t = self._prep(text)
        return self.native.fullmatch(t, pos) if it is None else self._try(it, t, pos, True)

    def search(self, text, pos=0):
        it, t = self._prep(text)
        if it is None:
            return self.native.search(t, pos)
        for p in range(pos, len(it) + 1):
            m = self._try(it, t, p, False)
            if m:
                return m
        return None

    def finditer(self, text):
        it, t = self._prep(text)
        if it is None:
            yield from self.native.finditer(t)
            return
        p = 0
        while p <= len(it):
            m = None
            while p <= len(it) and m is None:
                m = self._try(it, t, p, False)
                if m is None:
                    p += 1
            if m is None:
                return
            yield m
            p = m.e if m.e > m.s else m.e + 1

    def findall(self, text):
        out = []
        for m in self.finditer(text):
            gs = m.groups('')
            out.append(m.group(0) if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def split(self, text, maxsplit=0):
        it, t = self._prep(text)
        if it is None:
            return self.native.split(t, maxsplit)
        out, p, n = [], 0, 0
        for m in self.finditer(text):
            if maxsplit and n >= maxsplit:
                break
            out.append(S.mk(it[p:m.s]))
            out += list(m.groups())
            p = m.e
            n += 1
        out.append(S.mk(it[p:]))
        return out

    def sub(self, repl, text, count=0):
        it, t = self._prep(text)
        if it is None and not isinstance(repl, S.SymStr):
            return self.native.sub(repl, t, count)
        if it is None:
            it, t = list(t), S.SymStr(list(t))
        out, p, n = [], 0, 0
        for m in self.finditer(t):
            if count and n >= count:
                break
            out += it[p:m.s]
            r = repl(m) if callable(repl) else repl
            if isinstance(r, str) and '\\' in r and not callable(repl):
                r = m.expand(r)
            out += S.items_of(r)
            p = m.e
            n += 1
        out += it[p:]
        return S.mk(out)


class Match:
    def __init__(self, pat, text, items, s, e, g):
        self.re, self.string, self.items, self.s, self.e, self.g = pat, text, items, s, e, g

    def _k(self, k):
        return self.re.groupindex[k] if isinstance(k, str) else k

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = [self._one(k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)

    def _one(self, k, d=None):
        k = self._k(k)
        if k == 0:
            return S.mk(self.items[self.s:self.e])
        if k > self.re.groups:
            raise IndexError('no such group')
        if k not in self.g:
            return d
        a, b = self.g[k]
        return S.mk(self.items[a:b])

    __getitem__ = _one

    def groups(self, d=None):
        return tuple(self._one(k, d) for k in range(1, self.re.groups + 1))

    def groupdict(self, d=None):
        return {n: self._one(k, d) for n, k in self.re.groupindex.items()}

    def span(self, k=0):
        k = self._k(k)
        return (self.s, self.e) if k == 0 else self.g.get(k, (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def expand(self, t):
        raise V.Unsupported('regex template')

    def __bool__(self):
        return True


class ReModule:
    """stands in for the re module"""
    def __getattr__(self, n):
        return getattr(_re, n)

    @staticmethod
    def compile(p, flags=0):
        if isinstance(p, Pattern):
            return p
        if isinstance(p, S.SymStr):
            raise V.Unsupported('symbolic regex')
        return Pattern(p, flags)

    @classmethod
    def match(cls, p, s, flags=0): return cls.compile(p, flags).match(s)
    @classmethod
    def fullmatch(cls, p, s, flags=0): return cls.compile(p, flags).fullmatch(s)
    @classmethod
    def search(cls, p, s, flags=0): return cls.compile(p, flags).search(s)
    @classmethod
    def findall(cls, p, s, flags=0): return cls.compile(p, flags).findall(s)
    @classmethod
    def finditer(cls, p, s, flags=0): return cls.compile(p, flags).finditer(s)
    @classmethod
    def split(cls, p, s, maxsplit=0, flags=0): return cls.compile(p, flags).split(s, maxsplit)
    @classmethod
    def sub(cls, p, r, s, count=0, flags=0): return cls.compile(p, flags).sub(r, s, count)

    @staticmethod
    def escape(s):
        if isinstance(s, S.SymStr):
            raise V.Unsupported('re.escape')
        return _re.escape(s)
