"""dict/set with support for symbolic keys (association lists decided by ==)."""
import builtins
from . import values as V

_MISSING = object()


def any_symkey(k):
    try:
        hash(k)
        return False
    except V.SymHashError:
        return True


class SymDict(builtins.dict):
    """behaves like dict; once a symbolic key is stored it becomes an ordered association
    list in which lookups compare keys with == (forking)"""

    def __init__(self, *a, **k):
        super().__init__()
        self._al = None
        if a or k:
            self.update(*a, **k)

    def _to_al(self):
        if self._al is None:
            self._al = [[k, v] for k, v in super().items()]
            super().clear()

    def _find(self, k):
        """entry of the association list equal to k, or None"""
        for e in self._al:
            if e[0] is k:
                return e
        for e in self._al:
            if type(e[0]) is not type(k) and not V.is_sym(e[0]) and not V.is_sym(k):
                if not (isinstance(e[0], (int, float)) and isinstance(k, (int, float))):
                    continue
            if e[0] == k:
                return e
        return None

    def _scan(self, k):
        """symbolic lookup in a dict with concrete keys"""
        for kk in super().keys():
            if kk == k:
                return kk
        return _MISSING

    def __setitem__(self, k, v):
        if self._al is None:
            if not any_symkey(k):
                super().__setitem__(k, v)
                return
            self._to_al()
        e = self._find(k)
        if e is None:
            self._al.append([k, v])
        else:
            e[1] = v

    def _get(self, k):
        if self._al is None:
            if not any_symkey(k):
                return super().get(k, _MISSING)
            kk = self._scan(k)
            return _MISSING if kk is _MISSING else super().__getitem__(kk)
        e = self._find(k)
        return _MISSING if e is None else e[1]

    def __getitem__(self, k):
        v = self._get(k)
        if v is _MISSING:
            return self.__missing__(k)
        return v

    def __missing__(self, k):
        raise KeyError(str(k) if V.any_sym(k) else k)

    def get(self, k, d=None):
        v = self._get(k)
        return d if v is _MISSING else v

    def __contains__(self, k):
        return self._get(k) is not _MISSING

    def setdefault(self, k, d=None):
        v = self._get(k)
        if v is _MISSING:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        if self._al is None and not any_symkey(k):
            return super().pop(k, *d)
        self._to_al()
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._al = [x for x in self._al if x is not e]
        return e[1]

    def __delitem__(self, k):
        self.pop(k)

    def popitem(self):
        if self._al is None:
            return super().popitem()
        e = self._al.pop()
        return (e[0], e[1])

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, 'keys'):
                for key in src.keys():
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        super().clear()
        self._al = None

    def keys(self):
        return super().keys() if self._al is None else [e[0] for e in self._al]

    def values(self):
        return super().values() if self._al is None else [e[1] for e in self._al]

    def items(self):
        return super().items() if self._al is None else [(e[0], e[1]) for e in self._al]

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(list(self.keys())[::-1])

    def __len__(self):
        return super().__len__() if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def copy(self):
        d = self._like()
        for k, v in self.items():
            d[k] = v
        return d

    __copy__ = copy

    def _like(self):
        return SymDict()

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, builtins.dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        super().__init__(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def _like(self):
        return SymDefaultDict(self.default_factory)


class SymSet:
    def __init__(self, xs=()):
        self._d = SymDict()
        for x in xs:
            self._d[x] = True

    def add(self, x):
        if x not in self._d:
            self._d[x] = True

    def update(self, *xss):
        for xs in xss:
            for x in xs:
                self.add(x)

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        self._d.pop(x)

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)
    def __bool__(self): return len(self._d) > 0
    def copy(self): return type(self)(self)

    def union(self, *o):
        r = type(self)(self)
        for x in o:
            for y in x:
                SymSet.add(r, y)
        return r

    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, o):
        o = SymSet(o)
        return type(self)([x for x in self if x in o])

    __and__ = intersection

    def difference(self, o):
        o = SymSet(o)
        return type(self)([x for x in self if x not in o])

    __sub__ = difference

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def symmetric_difference(self, o):
        return (self - o) | (SymSet(o) - self)

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    __le__ = issubset

    def issuperset(self, o): return all(x in self for x in o)
    __ge__ = issuperset
    def isdisjoint(self, o): return not any(x in self for x in o)

    def __eq__(self, o):
        try:
            o = list(o)
        except TypeError:
            return False
        return len(self) == len(o) and all(x in self for x in o)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(map(repr, self)) + '}'


class FrozenSymSet(SymSet):
    def __hash__(self):
        return hash(tuple(sorted(map(hash, self))))
