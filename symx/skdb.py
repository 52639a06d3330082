"""Model of the parts of the klayout.db API the code under test uses, with symbolic
coordinates.

Boolean geometry is decided by the real KLayout: the (finitely many) coordinates of the
operands are ordered symbolically (forking on every undecided comparison), replaced by
their ranks, and the operation is run by klayout.db on the ranks; Manhattan boolean
operations commute with such order isomorphisms.  Everything not modelled falls through
to klayout.db itself."""
import types
import z3
from . import values as V
from . import strings as S
from . import engine as E

kdb = None   # the real module


def _cmp_lt(a, b):
    return bool(a < b)


def same(a, b):
    """a == b decided on this path"""
    if a is b:
        return True
    if not V.is_sym(a) and not V.is_sym(b):
        return a == b
    return bool(a == b)


class Ranker:
    STEP = 16

    def __init__(self):
        self.vals = []
        self.memo = {}

    @staticmethod
    def key(v):
        return ('t', E.current().intern(v.t)) if V.is_sym(v) else ('c', v)

    def add(self, v):
        k = self.key(v)
        if k in self.memo:
            return
        self.memo[k] = v
        lo, hi = 0, len(self.vals)
        while lo < hi:
            mid = (lo + hi) // 2
            w = self.vals[mid]
            if bool(v < w):
                hi = mid
            elif bool(v > w):
                lo = mid + 1
            else:
                self.memo[k] = w
                return
        self.vals.insert(lo, v)

    def freeze(self):
        self.index = {self.key(v): i for i, v in enumerate(self.vals)}

    def rank(self, v):
        return self.index[self.key(self.memo[self.key(v)])] * self.STEP

    def value(self, r):
        q, m = divmod(r, self.STEP)
        if m:
            raise V.Unsupported('non-Manhattan result')
        return self.vals[q]


def _c(v):
    """coordinate as KLayout stores it (truncated to integer)"""
    if isinstance(v, V.SymReal):
        return V.trunc(v)
    if isinstance(v, float):
        return int(v)
    return v


class Pt:
    _is_d = False

    def __init__(self, x=0, y=0):
        if isinstance(x, Pt):
            x, y = x.x, x.y
        elif not isinstance(x, (int, float)) and not V.is_sym(x) and hasattr(x, 'x'):
            x, y = x.x, x.y
        if not self._is_d:
            x, y = _c(x), _c(y)
        self.x, self.y = x, y

    def __eq__(self, o):
        if not hasattr(o, 'x') or not hasattr(o, 'y'):
            return False
        return same(self.x, o.x) and same(self.y, o.y)

    def __ne__(self, o): return not self == o

    def __hash__(self):
        return hash((self.x, self.y))

    def __lt__(self, o):
        if same(self.y, o.y):
            return bool(self.x < o.x)
        return bool(self.y < o.y)

    def __sub__(self, o):
        d = self._is_d
        if isinstance(o, Vec):
            return type(self)(self.x - o.x, self.y - o.y)
        return (DVector if d else Vector)(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)

    def __mul__(self, f):
        return type(self)(self.x * f, self.y * f)

    __rmul__ = __mul__

    def __neg__(self): return type(self)(-self.x, -self.y)

    def moved(self, dx, dy=None):
        if dy is None:
            dx, dy = dx.x, dx.y
        return type(self)(self.x + dx, self.y + dy)

    def sq_distance(self, o): return (self.x - o.x) * (self.x - o.x) + (self.y - o.y) * (self.y - o.y)
    def distance(self, o): return V.sqrt(self.sq_distance(o))
    def sq_abs(self): return self.x * self.x + self.y * self.y
    def abs(self): return V.sqrt(self.sq_abs())
    def dup(self): return type(self)(self.x, self.y)

    def to_dtype(self, dbu=1.0): return DPoint(self.x * dbu, self.y * dbu)
    def to_itype(self, dbu=1.0): return Point(V.sx_round(self.x / dbu), V.sx_round(self.y / dbu))
    def to_v(self): return (DVector if self._is_d else Vector)(self.x, self.y)

    def __str__(self):
        return '%s,%s' % (self.x, self.y)

    def __repr__(self): return '(%s)' % (self,)


class Vec(Pt):
    def length(self):
        if same(self.x, 0):
            return _tofloat(abs(self.y))
        if same(self.y, 0):
            return _tofloat(abs(self.x))
        return V.sqrt(self.sq_length())

    def sq_length(self): return _tofloat(self.x * self.x + self.y * self.y)
    def sprod(self, o): return _tofloat(self.x * o.x + self.y * o.y)
    def vprod(self, o): return _tofloat(self.x * o.y - self.y * o.x)

    def sprod_sign(self, o): return _sign(self.sprod(o))
    def vprod_sign(self, o): return _sign(self.vprod(o))

    def __mul__(self, f):
        if isinstance(f, Vec):
            return self.sprod(f)
        if self._is_d:
            return type(self)(self.x * f, self.y * f)
        return Vector(_round_coord(self.x * f), _round_coord(self.y * f))

    __rmul__ = __mul__

    def to_p(self): return (DPoint if self._is_d else Point)(self.x, self.y)

    def __add__(self, o):
        if isinstance(o, Vec):
            return type(self)(self.x + o.x, self.y + o.y)
        return type(o)(self.x + o.x, self.y + o.y)


def _sign(v):
    if bool(v > 0):
        return 1
    return -1 if bool(v < 0) else 0


def _tofloat(v):
    if isinstance(v, V.SymInt):
        return V.SymReal(V.real_term(v))
    return float(v) if not V.is_sym(v) else v


def _round_coord(v):
    """KLayout rounds scaled integer vectors half away from zero"""
    if isinstance(v, V.SymReal):
        w = V._whole(v.t)
        if w is not None and w[1] == 0:
            return V.SymInt(w[0])
        return V.SymInt(z3.If(v.t >= 0, z3.ToInt(v.t + V.rational(V.Fraction(1, 2))),
                              -z3.ToInt(-v.t + V.rational(V.Fraction(1, 2)))))
    if isinstance(v, float):
        import math
        return int(math.floor(v + 0.5)) if v >= 0 else -int(math.floor(-v + 0.5))
    return v


class Point(Pt):
    pass


class DPoint(Pt):
    _is_d = True


class Vector(Vec):
    pass


class DVector(Vec):
    _is_d = True


class Bx:
    _is_d = False

    def __init__(self, *a):
        if len(a) == 0:
            self.left, self.bottom, self.right, self.top = 1, 1, -1, -1
            self._empty = True
            return
        self._empty = False
        if len(a) == 1:
            if isinstance(a[0], Bx) or hasattr(a[0], 'left'):
                b = a[0]
                a = (b.left, b.bottom, b.right, b.top)
            else:
                w = a[0]
                a = (-w // 2, -w // 2, w // 2, w // 2)
        elif len(a) == 2:
            if hasattr(a[0], 'x'):
                a = (a[0].x, a[0].y, a[1].x, a[1].y)
            else:
                w, h = a
                a = (-w // 2, -h // 2, w // 2, h // 2)
        l, b, r, t = a
        if not self._is_d:
            l, b, r, t = _c(l), _c(b), _c(r), _c(t)
        if bool(l > r):
            l, r = r, l
        if bool(b > t):
            b, t = t, b
        self.left, self.bottom, self.right, self.top = l, b, r, t

    @property
    def p1(self): return (DPoint if self._is_d else Point)(self.left, self.bottom)
    @property
    def p2(self): return (DPoint if self._is_d else Point)(self.right, self.top)
    def width(self): return self.right - self.left
    def height(self): return self.top - self.bottom
    def empty(self): return self._empty
    is_empty = empty
    def area(self): return _tofloat(self.width() * self.height())
    def perimeter(self): return 2 * (self.width() + self.height())
    def center(self):
        if self._is_d:
            return DPoint((self.left + self.right) / 2, (self.bottom + self.top) / 2)
        return Point((self.left + self.right) // 2, (self.bottom + self.top) // 2)

    def enlarged(self, dx, dy=None):
        if hasattr(dx, 'x'):
            dx, dy = dx.x, dx.y
        if dy is None:
            dy = dx
        if not self._is_d:
            dx, dy = _c(dx), _c(dy)
        if self._empty:
            return type(self)()
        return type(self)(self.left - dx, self.bottom - dy, self.right + dx, self.top + dy)

    def enlarge(self, dx, dy=None):
        b = self.enlarged(dx, dy)
        self.__dict__.update(b.__dict__)
        return self

    def moved(self, dx, dy=None):
        if hasattr(dx, 'x'):
            dx, dy = dx.x, dx.y
        return type(self)(self.left + dx, self.bottom + dy, self.right + dx, self.top + dy)

    def contains(self, p, y=None):
        if y is not None:
            p = Point(p, y)
        if self._empty:
            return False
        return bool(p.x >= self.left) and bool(p.x <= self.right) and bool(p.y >= self.bottom) and bool(p.y <= self.top)

    def inside(self, o):
        return bool(self.left >= o.left) and bool(self.right <= o.right) and \
            bool(self.bottom >= o.bottom) and bool(self.top <= o.top)

    def overlaps(self, o):
        return bool(self.left < o.right) and bool(o.left < self.right) and \
            bool(self.bottom < o.top) and bool(o.bottom < self.top)

    def touches(self, o):
        return bool(self.left <= o.right) and bool(o.left <= self.right) and \
            bool(self.bottom <= o.top) and bool(o.bottom <= self.top)

    def __add__(self, o):
        if hasattr(o, 'x') and not isinstance(o, Bx):
            o = type(self)(o, o)
        if self._empty:
            return o
        if o._empty:
            return self
        from .instrument import sx_min, sx_max
        return type(self)(sx_min(self.left, o.left), sx_min(self.bottom, o.bottom),
                          sx_max(self.right, o.right), sx_max(self.top, o.top))

    def __and__(self, o):
        from .instrument import sx_min, sx_max
        l, b = sx_max(self.left, o.left), sx_max(self.bottom, o.bottom)
        r, t = sx_min(self.right, o.right), sx_min(self.top, o.top)
        if self._empty or o._empty or bool(l > r) or bool(b > t):
            return type(self)()
        return type(self)(l, b, r, t)

    def __eq__(self, o):
        if not isinstance(o, Bx):
            return False
        if self._empty or o._empty:
            return self._empty and o._empty
        return same(self.left, o.left) and same(self.right, o.right) and \
            same(self.bottom, o.bottom) and same(self.top, o.top)

    def __ne__(self, o): return not self == o

    def __hash__(self):
        return hash((self.left, self.bottom, self.right, self.top))

    def dup(self): return type(self)(self)
    def is_point(self): return not self._empty and same(self.left, self.right) and same(self.bottom, self.top)

    def to_dtype(self, dbu=1.0): return DBox(self.left * dbu, self.bottom * dbu, self.right * dbu, self.top * dbu)

    def to_itype(self, dbu=1.0):
        return Box(*[_round_coord(v / dbu) for v in (self.left, self.bottom, self.right, self.top)])

    def __str__(self): return '(%s,%s;%s,%s)' % (self.left, self.bottom, self.right, self.top)
    __repr__ = __str__

    @classmethod
    def world(cls): return cls(-2**31 + 1, -2**31 + 1, 2**31 - 1, 2**31 - 1)


class Box(Bx):
    pass


class DBox(Bx):
    _is_d = True


class Edg:
    _is_d = False

    def __init__(self, *a):
        P = DPoint if self._is_d else Point
        if not a:
            a = (0, 0, 0, 0)
        if len(a) == 1:
            a = (a[0].p1, a[0].p2)
        if len(a) == 2:
            self.p1, self.p2 = P(a[0]), P(a[1])
        else:
            self.p1, self.p2 = P(a[0], a[1]), P(a[2], a[3])

    x1 = property(lambda s: s.p1.x)
    y1 = property(lambda s: s.p1.y)
    x2 = property(lambda s: s.p2.x)
    y2 = property(lambda s: s.p2.y)

    def d(self): return self.p2 - self.p1
    def dx(self): return self.p2.x - self.p1.x
    def dy(self): return self.p2.y - self.p1.y
    def length(self): return self.d().length()
    def sq_length(self): return self.d().sq_length()
    def swapped_points(self): return type(self)(self.p2, self.p1)
    def bbox(self): return (DBox if self._is_d else Box)(self.p1, self.p2)
    def is_degenerate(self): return self.p1 == self.p2

    def contains(self, p):
        b = self.bbox()
        if not b.contains(p):
            return False
        return same((self.p2 - self.p1).vprod(p - self.p1), 0)

    def __eq__(self, o): return isinstance(o, Edg) and self.p1 == o.p1 and self.p2 == o.p2
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.p1, self.p2))
    def moved(self, *a): return type(self)(self.p1.moved(*a), self.p2.moved(*a))
    def dup(self): return type(self)(self.p1, self.p2)
    def __str__(self): return '(%s;%s)' % (self.p1, self.p2)
    __repr__ = __str__


class Edge(Edg):
    pass


class DEdge(Edg):
    _is_d = True


class _Props:
    @property
    def prop_id(self):
        return 1 if self._props else 0

    def properties(self):
        return dict(self._props)

    def set_property(self, k, v):
        self._props[k] = v

    def has_prop_id(self):
        return bool(self._props)

    def property(self, k):
        return self._props.get(k)


def _props_arg(a, k):
    p = k.get('properties')
    if p is None and a:
        p = a[0]
    return dict(p.items()) if p else {}


class EdgeWithProperties(Edge, _Props):
    def __init__(self, e=None, *a, **k):
        super().__init__(*( [e] if e is not None else []))
        self._props = _props_arg(a, k)

    def dup(self): return EdgeWithProperties(Edge(self.p1, self.p2), dict(self._props))


class Polygon:
    """polygon given by hull/hole point lists as KLayout normalises them"""
    _P = Point

    def __init__(self, *a, **k):
        self._hull, self._holes = [], []
        if not a:
            return
        x = a[0]
        if isinstance(x, Polygon) or (hasattr(x, 'each_point_hull') and hasattr(x, 'each_point_hole')):
            self._hull = list(x.each_point_hull())
            self._holes = [list(x.each_point_hole(i)) for i in range(x.holes())]
        elif isinstance(x, Bx) or hasattr(x, 'left'):
            b = x
            if not b.empty():
                P = self._P
                self._hull = [P(b.left, b.bottom), P(b.left, b.top), P(b.right, b.top), P(b.right, b.bottom)]
        else:
            raw = k.get('raw', False)
            pts = [self._P(p) for p in x]
            self._hull = _normalise(pts, self._P) if not raw else pts

    def each_point_hull(self): return iter(self._hull)
    def each_point_hole(self, i): return iter(self._holes[i])
    def holes(self): return len(self._holes)
    def num_points_hull(self): return len(self._hull)
    def num_points(self): return len(self._hull) + sum(len(h) for h in self._holes)
    def num_points_hole(self, i): return len(self._holes[i])
    def point_hull(self, i): return self._hull[i]
    def point_hole(self, n, i): return self._holes[n][i]
    def each_point(self): return iter(self._hull)

    def _contours(self): return [self._hull] + self._holes

    def each_edge(self, contour=None):
        E_ = Edge if self._P is Point else DEdge
        for n, c in enumerate(self._contours()):
            if contour is not None and n != contour:
                continue
            for i in range(len(c)):
                yield E_(c[i], c[(i + 1) % len(c)])

    def assign_hole(self, n, pts): self._holes[n] = [self._P(p) for p in pts]

    def insert_hole(self, pts, raw=False):
        if isinstance(pts, Bx):
            pts = list(Polygon(pts)._hull)[::-1]
        self._holes.append([self._P(p) for p in pts])

    def resolved_holes(self):
        if not self._holes:
            return self
        rx, ry = _ranked([q for c in self._contours() for q in c])
        return _from_real_poly(_to_real_poly(self, rx, ry).resolved_holes(), rx, ry)

    def bbox(self):
        B = Box if self._P is Point else DBox
        if not self._hull:
            return B()
        if self.is_box():
            xs, ys = self._box_coords()
            return _mkbox(B, xs[0], ys[0], xs[1], ys[1])
        from .instrument import sx_min, sx_max
        xs = [p.x for p in self._hull]
        ys = [p.y for p in self._hull]
        return _mkbox(B, sx_min(*xs), sx_min(*ys), sx_max(*xs), sx_max(*ys))

    def _box_coords(self):
        h = self._hull
        return (h[0].x, h[2].x), (h[0].y, h[2].y)

    def is_box(self):
        h = self._hull
        if len(h) != 4 or self._holes:
            return False
        return same(h[0].x, h[1].x) and same(h[1].y, h[2].y) and same(h[2].x, h[3].x) and same(h[3].y, h[0].y)

    def is_empty(self): return not self._hull

    def is_rectilinear(self):
        return all(same(e.dx(), 0) or same(e.dy(), 0) for e in self.each_edge())

    def area2(self):
        s = 0
        for c in self._contours():
            for i in range(len(c)):
                p, q = c[i], c[(i + 1) % len(c)]
                s = s + (q.x * p.y - p.x * q.y)
        return s

    def area(self):
        if self.is_box():
            (x0, x1), (y0, y1) = self._box_coords()
            return _tofloat((x1 - x0) * (y1 - y0))
        return self.area2() / 2

    def perimeter(self):
        s = 0
        for e in self.each_edge():
            s = s + e.length()
        return s

    def inside(self, p):
        return self._rank_query(p, lambda rp, pt: rp.inside(pt))

    def _rank_query(self, p, f):
        rx, ry = Ranker(), Ranker()
        for q in [p] + [q for c in self._contours() for q in c]:
            rx.add(q.x)
            ry.add(q.y)
        rx.freeze()
        ry.freeze()
        return f(_to_real_poly(self, rx, ry), kdb.Point(rx.rank(p.x), ry.rank(p.y)))

    def moved(self, dx, dy=None):
        n = type(self).__new__(type(self))
        n.__dict__.update(self.__dict__)
        n._hull = [p.moved(dx, dy) for p in self._hull]
        n._holes = [[p.moved(dx, dy) for p in h] for h in self._holes]
        return n

    def transformed(self, t):
        return t * self

    def dup(self):
        n = type(self).__new__(type(self))
        n.__dict__.update(self.__dict__)
        n._hull, n._holes = list(self._hull), [list(h) for h in self._holes]
        return n

    def to_dtype(self, dbu=1.0):
        n = DPolygon.__new__(DPolygon)
        n._hull = [p.to_dtype(dbu) for p in self._hull]
        n._holes = [[p.to_dtype(dbu) for p in h] for h in self._holes]
        return n

    def to_simple_polygon(self): return self
    def sized(self, *a): raise V.Unsupported('sized')

    def __eq__(self, o):
        if not isinstance(o, Polygon):
            return False
        a, b = self._contours(), o._contours()
        return len(a) == len(b) and all(len(x) == len(y) and all(p == q for p, q in zip(x, y)) for x, y in zip(a, b))

    def __ne__(self, o): return not self == o

    def __hash__(self):
        return hash(tuple(hash(p) for p in self._hull))

    def __str__(self): return '(%s)' % ';'.join(str(p) for p in self._hull)
    __repr__ = __str__


def _mkbox(B, l, b, r, t):
    x = B.__new__(B)
    x._empty = False
    x.left, x.bottom, x.right, x.top = l, b, r, t
    return x


class SimplePolygon(Polygon):
    pass


class DPolygon(Polygon):
    _P = DPoint


class DSimplePolygon(DPolygon):
    pass


class PolygonWithProperties(Polygon, _Props):
    def __init__(self, p=None, *a, **k):
        super().__init__(*([p] if p is not None else []))
        self._props = dict(p._props) if isinstance(p, _Props) and not a and not k else _props_arg(a, k)


class BoxWithProperties(Box, _Props):
    def __init__(self, b=None, *a, **k):
        super().__init__(*([b] if b is not None else []))
        self._props = _props_arg(a, k)


def _props_of(p):
    return p._props if isinstance(p, _Props) else {}


def _ranked(points):
    rx, ry = Ranker(), Ranker()
    for q in points:
        rx.add(q.x)
        ry.add(q.y)
    rx.freeze()
    ry.freeze()
    return rx, ry


def _to_real_poly(p, rx, ry):
    def cv(c):
        return [kdb.Point(rx.rank(q.x), ry.rank(q.y)) for q in c]
    for c in p._contours():
        for i in range(len(c)):
            a, b = cv([c[i], c[(i + 1) % len(c)]])
            if a.x != b.x and a.y != b.y:
                raise V.Unsupported('boolean geometry on non-Manhattan symbolic polygon')
    r = kdb.Polygon(cv(p._hull))
    for h in p._holes:
        r.insert_hole(cv(h))
    return r


def _from_real_poly(r, rx, ry, cls=Polygon):
    n = cls.__new__(cls)
    n._hull = [Point(rx.value(q.x), ry.value(q.y)) for q in r.each_point_hull()]
    n._holes = [[Point(rx.value(q.x), ry.value(q.y)) for q in r.each_point_hole(i)] for i in range(r.holes())]
    return n


def _normalise(pts, P):
    """KLayout's contour normalisation (orientation, start point, collinear points)"""
    rx, ry = _ranked(pts)
    real = [kdb.Point(rx.rank(q.x), ry.rank(q.y)) for q in pts]
    manhattan = all(real[i].x == real[i - 1].x or real[i].y == real[i - 1].y for i in range(len(real)))
    if manhattan:
        r = kdb.Polygon(real)
        out = []
        for q in r.each_point_hull():
            out.append(P(rx.value(q.x), ry.value(q.y)))
        return out
    # general position: start at the lowest-leftmost point, clockwise
    n = len(pts)
    area2 = 0
    for i in range(n):
        p, q = pts[i], pts[(i + 1) % n]
        area2 = area2 + (p.x * q.y - q.x * p.y)
    k = min(range(n), key=lambda i: (real[i].y, real[i].x))
    seq = pts[k:] + pts[:k]
    if n > 2 and bool(area2 > 0):
        seq = [seq[0]] + seq[:0:-1]
    # drop collinear points
    out = list(seq)
    changed = True
    while changed and len(out) > 2:
        changed = False
        for i in range(len(out)):
            a, b, c = out[i - 1], out[i], out[(i + 1) % len(out)]
            if same((b.x - a.x) * (c.y - b.y) - (b.y - a.y) * (c.x - b.x), 0):
                del out[i]
                changed = True
                break
    return out


# ---------------------------------------------------------------------------
class PropTable:
    """maps property dictionaries (with symbolic values) to small integers"""

    def __init__(self):
        self.rows = []

    def idx(self, props):
        for i, r in enumerate(self.rows):
            if len(r) == len(props) and all(k in r and bool(r[k] == v) for k, v in props.items()):
                return i
        self.rows.append(dict(props))
        return len(self.rows) - 1


class Region:
    def __init__(self, *a):
        self._polys = []
        self._ep = False
        self.merged_semantics = True
        self.min_coherence = False
        for x in a:
            if isinstance(x, Region):
                self._polys += x._polys
                self._ep = x._ep
            elif type(x).__name__ == 'RecIter':
                # regions from layouts keep the hierarchy of their shapes
                self._src = [(q, t) for q, t in x._all]
                self._polys = [self._placed(q, t) for q, t in x._all if q.polygon is not None]
            else:
                self.insert(x)

    @staticmethod
    def _placed(q, t):
        p = PolygonWithProperties(q.polygon)
        p._props = dict(_props_of(q._o))
        return t * p

    def begin_shapes_rec(self):
        from . import slay
        src = getattr(self, '_src', None)
        if src is None:
            src = [(_Shape(p), slay.ICplxTrans()) for p in self._polys]
        return slay.RecIter(src), slay.ICplxTrans()

    # content
    def insert(self, x, *a):
        if isinstance(x, Region):
            self._polys += list(x._polys)
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.insert(y)
        elif isinstance(x, Polygon):
            if x._hull:
                self._polys.append(x)
        elif isinstance(x, Bx):
            if not x.empty():
                self._polys.append(Polygon(x))
        elif isinstance(x, kdb.Polygon) or isinstance(x, kdb.Box):
            self._polys.append(Polygon(x))
        else:
            try:
                xs = list(x)
            except TypeError:
                raise V.Unsupported('Region.insert(%s)' % type(x).__name__)
            for y in xs:
                self.insert(y)

    def enable_properties(self): self._ep = True
    def disable_properties(self): self._ep = False

    def dup(self):
        r = Region()
        r._polys = list(self._polys)
        r._ep = self._ep
        return r

    __copy__ = dup

    def __deepcopy__(self, memo): return self.dup()
    def assign(self, o): self._polys, self._ep = list(o._polys), o._ep

    def each(self): return iter([self._wp(p) for p in self._polys])
    __iter__ = each

    def _wp(self, p):
        if isinstance(p, PolygonWithProperties):
            return p
        q = PolygonWithProperties.__new__(PolygonWithProperties)
        q.__dict__.update(p.__dict__)
        q._props = {}
        return q

    def count(self): return len(self._polys)
    def __len__(self): return len(self._polys)
    hier_count = count

    def size(self, *a): return self._inplace(self.sized(*a))

    def _nondegenerate(self, p):
        return bool(p.area() != 0) if not p.is_box() else \
            not (same(p._hull[0].x, p._hull[2].x) or same(p._hull[0].y, p._hull[2].y))

    def is_empty(self):
        return len(self._polys) == 0

    def clear(self): self._polys = []

    def bbox(self):
        b = Box()
        for p in self._polys:
            b = b + p.bbox()
        return b

    # booleans via ranks
    def _rank_ctx(self, *others):
        pts = [q for r in (self,) + others for p in r._polys for c in p._contours() for q in c]
        rx, ry = _ranked(pts)
        tab = PropTable()

        def real(r):
            g = kdb.Region()
            if r._ep:
                g.enable_properties()
            for p in r._polys:
                props = _props_of(p)
                if props and r._ep:
                    g.insert(kdb.PolygonWithProperties(_to_real_poly(p, rx, ry), {'#': tab.idx(props)}))
                else:
                    g.insert(_to_real_poly(p, rx, ry))
            return g
        return rx, ry, tab, real

    def _back(self, g, rx, ry, tab, ep=False):
        out = Region()
        for p in g.each():
            k = p.property('#') if hasattr(p, 'property') else None
            q = _from_real_poly(p, rx, ry, PolygonWithProperties)
            q._props = dict(tab.rows[k]) if k is not None else {}
            out._polys.append(q)
        out._ep = ep
        return out

    def _bool(self, o, f):
        if isinstance(o, (Polygon, Bx)):
            o = Region(o)
        rx, ry, tab, real = self._rank_ctx(o)
        return self._back(f(real(self), real(o)), rx, ry, tab, self._ep)

    def __and__(self, o): return self._bool(o, lambda a, b: a & b)
    def __sub__(self, o): return self._bool(o, lambda a, b: a - b)
    def __or__(self, o): return self._bool(o, lambda a, b: a | b)
    def __xor__(self, o): return self._bool(o, lambda a, b: a ^ b)

    def __add__(self, o):
        r = self.dup()
        r.insert(o)
        r._ep = self._ep or getattr(o, '_ep', False)
        return r

    def __iadd__(self, o):
        self.insert(o)
        self._ep = self._ep or getattr(o, '_ep', False)
        return self

    join, or_, and_, not_, xor_ = __add__, __or__, __and__, __sub__, __xor__

    def _inplace(self, r):
        self._polys = r._polys
        return self

    def __iand__(self, o): return self._inplace(self & o)
    def __isub__(self, o): return self._inplace(self - o)
    def __ior__(self, o): return self._inplace(self | o)
    def __ixor__(self, o): return self._inplace(self ^ o)
    and_with, not_with, or_with, xor_with, join_with = __iand__, __isub__, __ior__, __ixor__, __iadd__

    def andnot(self, o): return [self & o, self - o]

    def merged(self, *a):
        rx, ry, tab, real = self._rank_ctx()
        return self._back(real(self).merged(*a), rx, ry, tab, self._ep)

    def merge(self, *a): return self._inplace(self.merged(*a))
    def each_merged(self): return self.merged().each()

    def _sel(self, name):
        def f(o, *a):
            if isinstance(o, (Polygon, Bx)):
                o = Region(o)
            rx, ry, tab, real = self._rank_ctx(o)
            return self._back(getattr(real(self), name)(real(o), *a), rx, ry, tab, self._ep)
        return f

    def area(self, *a):
        if len(self._polys) == 1:
            ms = [self._polys[0]]
        else:
            rx, ry, tab, real = self._rank_ctx()
            g = kdb.Region()
            for p in self._polys:
                g.insert(_to_real_poly(p, rx, ry))
            g = g.merged()
            ms = [_from_real_poly(p, rx, ry) for p in g.each()]
        s = 0
        for p in ms:
            s = s + p.area()
        return _tofloat(s) if V.is_sym(s) else float(s)

    def perimeter(self):
        s = 0
        for p in self.merged()._polys:
            s = s + p.perimeter()
        return s

    def is_box(self): return len(self._polys) == 1 and self._polys[0].is_box()

    def edges(self):
        rx, ry, _, real = self._rank_ctx()
        return Edges._from(real(self).edges(), rx, ry)

    def decompose_trapezoids(self, *a):
        """(rectilinear) polygons only: the decomposition of the ranked geometry"""
        rx, ry, tab, real = self._rank_ctx()
        g = kdb.Region()
        for p in real(self).merged().each():
            for q in p.decompose_trapezoids(*a):
                g.insert(q)
        return self._back(g, rx, ry, tab)

    decompose_trapezoids_to_region = decompose_trapezoids

    def delaunay(self, *a):
        """some triangulation: each box of the decomposition split at its diagonal"""
        out = Region()
        for p in self.decompose_trapezoids()._polys:
            (x0, x1), (y0, y1) = p._box_coords()
            for pts in ([(x0, y0), (x0, y1), (x1, y1)], [(x0, y0), (x1, y1), (x1, y0)]):
                t = Polygon.__new__(Polygon)
                t._hull, t._holes = [Point(x, y) for x, y in pts], []
                out._polys.append(t)
        return out

    def sized(self, d, dy=None, mode=2):
        """enlarging only, with square corners (the default mode) on rectilinear polygons"""
        if not isinstance(d, (int, V.SymInt)) or not (dy is None or isinstance(dy, int) and dy == mode == 2):
            raise V.Unsupported('sized(%s, %s)' % (type(d).__name__, dy))
        if bool(d < 0):
            raise V.Unsupported('undersizing')
        out = Region()
        for p in self.decompose_trapezoids()._polys:
            (x0, x1), (y0, y1) = p._box_coords()
            out._polys.append(Polygon(_mkbox(Box, x0 - d, y0 - d, x1 + d, y1 + d)))
        return out.merged()

    def transformed(self, t):
        r = Region()
        r._ep = self._ep
        r._polys = [t * p for p in self._polys]
        return r

    def moved(self, *a):
        r = Region()
        r._ep = self._ep
        r._polys = [p.moved(*a) for p in self._polys]
        return r

    def flatten(self): return self
    def is_merged(self): return len(self._polys) <= 1
    def is_deep(self): return False

    def complex_op(self, node):
        return node.run(self)

    def __eq__(self, o):
        return isinstance(o, Region) and (self ^ o).is_empty()

    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__

    def __str__(self): return ';'.join(str(p) for p in self._polys)
    __repr__ = __str__

    def __getattr__(self, n):
        if n in ('interacting', 'not_interacting', 'inside', 'not_inside', 'outside', 'not_outside',
                 'overlapping', 'not_overlapping', 'covering', 'not_covering'):
            return self._sel(n)
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(kdb.Region, n):
            raise V.Unsupported('Region.%s' % n)
        raise AttributeError(n)


class Edges:
    def __init__(self, *a):
        self._edges = []
        for x in a:
            self.insert(x)

    def insert(self, x, *a):
        if isinstance(x, Edg):
            self._edges.append(Edge(x))
        elif isinstance(x, Edges):
            self._edges += x._edges
        elif isinstance(x, (Region, Polygon)):
            self._edges += (x if isinstance(x, Region) else Region(x)).edges()._edges
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.insert(y)
        else:
            raise V.Unsupported('Edges.insert(%s)' % type(x).__name__)

    @staticmethod
    def _from(g, rx, ry):
        out = Edges()
        for e in g.each():
            out._edges.append(Edge(Point(rx.value(e.p1.x), ry.value(e.p1.y)), Point(rx.value(e.p2.x), ry.value(e.p2.y))))
        return out

    def _bool(self, o, f):
        if isinstance(o, Region):
            raise V.Unsupported('edge/region boolean')
        rx, ry = _ranked([q for e in self._edges + o._edges for q in (e.p1, e.p2)])

        def real(es):
            g = kdb.Edges()
            for e in es._edges:
                a, b = kdb.Point(rx.rank(e.p1.x), ry.rank(e.p1.y)), kdb.Point(rx.rank(e.p2.x), ry.rank(e.p2.y))
                if a.x != b.x and a.y != b.y:
                    raise V.Unsupported('boolean geometry on tilted symbolic edges')
                g.insert(kdb.Edge(a, b))
            return g
        return Edges._from(f(real(self), real(o)), rx, ry)

    def __and__(self, o): return self._bool(o, lambda a, b: a & b)
    def __sub__(self, o): return self._bool(o, lambda a, b: a - b)
    def __or__(self, o): return self._bool(o, lambda a, b: a | b)
    def __xor__(self, o): return self._bool(o, lambda a, b: a ^ b)

    def __add__(self, o):
        r = self.dup()
        r.insert(o)
        return r

    def _inplace(self, r):
        self._edges = r._edges
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __iand__(self, o): return self._inplace(self & o)
    def __isub__(self, o): return self._inplace(self - o)
    def __ior__(self, o): return self._inplace(self | o)
    def __ixor__(self, o): return self._inplace(self ^ o)

    and_, or_, not_, xor_, join = __and__, __or__, __sub__, __xor__, __add__
    and_with, not_with, or_with, xor_with, join_with = __iand__, __isub__, __ior__, __ixor__, __iadd__

    def merged(self): return self._bool(Edges(), lambda a, b: a.merged())
    def merge(self): return self._inplace(self.merged())
    def clear(self): self._edges = []
    def assign(self, o): self._edges = list(o._edges)

    def bbox(self):
        b = Box()
        for e in self._edges:
            b = b + e.bbox()
        return b

    def dup(self):
        r = Edges()
        r._edges = list(self._edges)
        return r

    def each(self): return iter([Edge(e) for e in self._edges])
    __iter__ = each
    def count(self): return len(self._edges)
    __len__ = count
    def is_empty(self): return not self._edges

    def swapped_points(self):
        r = Edges()
        r._edges = [e.swapped_points() for e in self._edges]
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(kdb.Edges, n):
            raise V.Unsupported('Edges.%s' % n)
        raise AttributeError(n)


# ---------------------------------------------------------------------------
class _Visitor:
    def __init__(self, *a, **k):
        pass


class PolygonNeighborhoodVisitor(_Visitor):
    def begin(self, layout, cell): pass
    def end(self, layout, cell): pass
    result_type = None


class EdgeNeighborhoodVisitor(_Visitor):
    def begin(self, layout, cell): pass
    def end(self, layout, cell): pass
    def begin_polygon(self, layout, cell, polygon): pass
    def end_polygon(self): pass

    def to_original_trans(self, edge):
        if not PLACED:
            return Identity()
        from . import slay
        t = slay.ICplxTrans()
        o, d = edge.p1, edge.p2
        t.r = (0 if bool(d.x > o.x) else 2) if same(o.y, d.y) else 1 if bool(d.y > o.y) else 3
        t.dx, t.dy = o.x, o.y
        return t

    def to_edge_local_trans(self, edge):
        return Identity()


PLACED = False    # edges are given their placement only where a property looks at it


class Identity:
    """the placement transformation of an edge; geometry is left in edge-local coordinates"""
    def __mul__(self, o): return o
    def trans(self, o): return o
    def inverted(self): return self


class Secondary:
    def __init__(self, region):
        self.region = region
    kind = 'secondary'


class Foreign:
    kind = 'foreign'


class Primary:
    kind = 'primary'


class PolygonNeighborhoodNode:
    def __init__(self, children, visitor, d=0):
        self.children, self.visitor, self.d = list(children), visitor, d

    def run(self, region):
        if not (not V.is_sym(self.d) and self.d == 0):
            raise V.Unsupported('polygon neighborhood with a distance')
        regs = []
        for c in self.children:
            regs.append(c.region if c.kind == 'secondary' else region)
        rx, ry, tab, real = region._rank_ctx(*regs)
        prim = real(region)
        nodes, keep = [], []
        for c in self.children:
            if c.kind == 'secondary':
                keep.append(real(c.region))    # the node only references the region
                nodes.append(kdb.CompoundRegionOperationNode.new_secondary(keep[-1]))
            elif c.kind == 'foreign':
                nodes.append(kdb.CompoundRegionOperationNode.new_foreign())
            else:
                nodes.append(kdb.CompoundRegionOperationNode.new_primary())
        log = []

        class Rec(kdb.PolygonNeighborhoodVisitor):
            def neighbors(self, layout, cell, polygon, neighborhood):
                log.append((polygon.dup(), {k: [p.dup() for p in v] for k, v in neighborhood.items()}))
        rec = Rec()
        prim.complex_op(kdb.CompoundRegionOperationNode.new_polygon_neighborhood(nodes, rec))

        def back(p):
            q = _from_real_poly(p, rx, ry, PolygonWithProperties)
            k = p.property('#')
            q._props = dict(tab.rows[k]) if k is not None else {}
            return q
        for poly, nb in log:
            self.visitor.neighbors(None, None, back(poly), {k: [back(p) for p in v] for k, v in nb.items()})
        return Region()


class EdgeNeighborhoodNode:
    """edge neighborhoods of boxes (any arrangement).  Semantics as observed on klayout.db
    0.30.3 (tools/fuzz_model.py compares both on concrete inputs; solver models are
    replayed on klayout.db): in edge-local coordinates every other box that overlaps
    (0, length) x (0, dout+1) is reported, clipped to that window and cut at every
    boundary of any reported box along the edge."""

    def __init__(self, children, visitor, bext=0, eext=0, din=0, dout=0):
        self.children, self.visitor = list(children), visitor
        self.bext, self.eext, self.din, self.dout = bext, eext, din, dout

    def run(self, region):
        v = self.visitor
        for x in (self.bext, self.eext, self.din):
            if V.is_sym(x) or x != -1:
                raise V.Unsupported('edge neighborhood with other extensions')
        prim = region.merged() if len(region._polys) > 1 else region
        polys = [region._wp(p) for p in prim._polys]
        dout = self.dout
        if not all(p.is_box() for r in [polys] + [c.region._polys for c in self.children if c.kind == 'secondary'] for p in r):
            return self._run_general(polys)
        ymax = dout + 1
        for p in polys:
            v.begin_polygon(None, None, p)
            (x0, x1), (y0, y1) = p._box_coords()
            for side in ('left', 'top', 'right', 'bottom'):
                if side == 'left':
                    e, length = Edge(x0, y0, x0, y1), y1 - y0
                elif side == 'top':
                    e, length = Edge(x0, y1, x1, y1), x1 - x0
                elif side == 'right':
                    e, length = Edge(x1, y1, x1, y0), y1 - y0
                else:
                    e, length = Edge(x1, y0, x0, y0), x1 - x0
                found = []
                for i, c in enumerate(self.children):
                    regs = c.region._polys if c.kind == 'secondary' else polys if c.kind == 'foreign' else []
                    for q in regs:
                        if q is p:
                            continue
                        (a0, a1), (b0, b1) = q._box_coords()
                        if side == 'left':
                            s0, s1, lo, hi, al, ah, n0, n1 = b0 - y0, b1 - y0, x0 - a1, x0 - a0, (b0, y0), (b1, y1), (a0, x0), (x0 - a1, ymax)
                        elif side == 'top':
                            s0, s1, lo, hi, al, ah, n0, n1 = a0 - x0, a1 - x0, b0 - y1, b1 - y1, (a0, x0), (a1, x1), (y1, b1), (b0 - y1, ymax)
                        elif side == 'right':
                            s0, s1, lo, hi, al, ah, n0, n1 = y1 - b1, y1 - b0, a0 - x1, a1 - x1, (y1, b1), (y0, b0), (x1, a1), (a0 - x1, ymax)
                        else:
                            s0, s1, lo, hi, al, ah, n0, n1 = x1 - a1, x1 - a0, y0 - b1, y0 - b0, (x1, a1), (x0, a0), (b0, y0), (y0 - b1, ymax)
                        if not bool(n0[0] < n0[1]):     # hi > 0
                            continue
                        # overlap along the edge: s0 < length and s1 > 0
                        if not (bool(s0 < length) and bool(s1 > 0)):
                            continue
                        if not bool(lo < ymax):
                            continue
                        if bool(s0 < 0):
                            s0 = 0
                        if bool(s1 > length):
                            s1 = length
                        if bool(lo < 0):
                            lo = 0
                        if bool(hi > ymax):
                            hi = ymax
                        found.append((i, q, s0, s1, lo, hi))
                if not found:
                    continue
                ew = EdgeWithProperties(e, dict(p._props))
                cuts = Ranker()
                for f in found:
                    cuts.add(f[2])
                    cuts.add(f[3])
                cuts.freeze()
                nbs = []
                for k in range(len(cuts.vals) - 1):
                    u, w = cuts.vals[k], cuts.vals[k + 1]
                    nb = {}
                    for i, q, s0, s1, lo, hi in found:
                        if cuts.rank(s0) <= k * Ranker.STEP and cuts.rank(s1) >= (k + 1) * Ranker.STEP:
                            nb.setdefault(i, []).append(PolygonWithProperties(_mkbox(Box, u, lo, w, hi), dict(_props_of(q))))
                    if nb:
                        nbs.append(((_tofloat(u), _tofloat(w)), nb))
                v.on_edge(None, None, ew, nbs)
            v.end_polygon()
        return Region()


    def _run_general(self, polys):
        """Manhattan polygons: clipped to the window of the edge and cut at every vertex along it"""
        v, dout = self.visitor, self.dout
        ymax = dout + 1
        step = Ranker.STEP
        for p in polys:
            v.begin_polygon(None, None, p)
            for e in p.each_edge():
                horizontal = same(e.p1.y, e.p2.y)
                if not horizontal and not same(e.p1.x, e.p2.x):
                    raise V.Unsupported('edge neighborhood of a non-Manhattan polygon')
                o, d = e.p1, e.p2
                if horizontal:
                    if bool(d.x > o.x):
                        loc, length = (lambda q: (q.x - o.x, q.y - o.y)), d.x - o.x
                    else:
                        loc, length = (lambda q: (o.x - q.x, o.y - q.y)), o.x - d.x
                elif bool(d.y > o.y):
                    loc, length = (lambda q: (q.y - o.y, o.x - q.x)), d.y - o.y
                else:
                    loc, length = (lambda q: (o.y - q.y, q.x - o.x)), o.y - d.y
                cand = []
                for i, c in enumerate(self.children):
                    regs = c.region._polys if c.kind == 'secondary' else polys if c.kind == 'foreign' else [p]
                    for q in regs:
                        if q is p and c.kind != 'primary':
                            continue
                        cs = [[Point(*loc(t)) for t in k] for k in q._contours()]
                        if q is not p:
                            # quick rejection by the bounding box
                            b = q.bbox()
                            (x0, y0), (x1, y1) = loc(b.p1), loc(b.p2)
                            if bool(x0 > x1):
                                x0, x1 = x1, x0
                            if bool(y0 > y1):
                                y0, y1 = y1, y0
                            if not (bool(y1 > 0) and bool(x0 < length) and bool(x1 > 0) and bool(y0 < ymax)):
                                continue
                        cand.append((i, q, cs))
                rx, ry = Ranker(), Ranker()
                for t in (0, length):
                    rx.add(t)
                for t in (0, ymax):
                    ry.add(t)
                for _, _, cs in cand:
                    for k in cs:
                        for t in k:
                            rx.add(t.x)
                            ry.add(t.y)
                rx.freeze()
                ry.freeze()
                win = kdb.Region(kdb.Box(rx.rank(0), ry.rank(0), rx.rank(length), ry.rank(ymax)))
                found, cuts = [], set()
                for i, q, cs in cand:
                    r = kdb.Polygon([kdb.Point(rx.rank(t.x), ry.rank(t.y)) for t in cs[0]])
                    for h in cs[1:]:
                        r.insert_hole([kdb.Point(rx.rank(t.x), ry.rank(t.y)) for t in h])
                    g = kdb.Region(r) & win
                    for t in g.each():
                        cuts.update(w.x for ed in t.each_edge() for w in (ed.p1, ed.p2))
                    if not g.is_empty():
                        found.append((i, q, g))
                if not found:
                    continue
                cuts = sorted(cuts)
                nbs = []
                for u, w in zip(cuts, cuts[1:]):
                    nb = {}
                    col = kdb.Region(kdb.Box(u, ry.rank(0), w, ry.rank(ymax)))
                    for i, q, g in found:
                        for t in (g & col).each():
                            b = t.bbox()
                            nb.setdefault(i, []).append(PolygonWithProperties(
                                _mkbox(Box, rx.value(u), ry.value(b.bottom), rx.value(w), ry.value(b.top)), dict(_props_of(q))))
                    if nb:
                        nbs.append(((_tofloat(rx.value(u)), _tofloat(rx.value(w))), nb))
                v.on_edge(None, None, EdgeWithProperties(e, dict(p._props)), nbs)
            v.end_polygon()
        return Region()


class CompoundRegionOperationNode:
    @staticmethod
    def new_secondary(r): return Secondary(r)
    @staticmethod
    def new_foreign(): return Foreign()
    @staticmethod
    def new_primary(): return Primary()

    @staticmethod
    def new_polygon_neighborhood(children, visitor, d=0):
        return PolygonNeighborhoodNode(children, visitor, d)

    @staticmethod
    def new_edge_neighborhood(children, visitor, bext=0, eext=0, din=0, dout=0):
        return EdgeNeighborhoodNode(children, visitor, bext, eext, din, dout)


def make_module(real):
    global kdb
    m = types.ModuleType(real.__name__)
    if real.__name__ == 'klayout.db':
        kdb = real
    own = dict(Point=Point, DPoint=DPoint, Vector=Vector, DVector=DVector, Box=Box, DBox=DBox, Edge=Edge,
               DEdge=DEdge, Polygon=Polygon, SimplePolygon=SimplePolygon, DPolygon=DPolygon,
               DSimplePolygon=DSimplePolygon, PolygonWithProperties=PolygonWithProperties, BoxWithProperties=BoxWithProperties,
               EdgeWithProperties=EdgeWithProperties, Region=Region, Edges=Edges, Shapes=Shapes,
               PolygonNeighborhoodVisitor=PolygonNeighborhoodVisitor,
               EdgeNeighborhoodVisitor=EdgeNeighborhoodVisitor,
               CompoundRegionOperationNode=CompoundRegionOperationNode)
    from . import slay, snet, srdb
    own.update(CplxTrans=srdb.CplxTrans, Path=srdb.Path)
    own.update(slay.exports())
    own.update(snet.exports(real if real.__name__ == 'klayout.db' else kdb))
    m.__dict__.update(own)
    m.__all__ = list(getattr(real, '__all__', []))
    m.__path__ = getattr(real, '__path__', [])

    def fallback(n):
        return getattr(real, n)
    m.__getattr__ = fallback
    return m


class _Shape:
    def __init__(self, o):
        self._o = o

    box = property(lambda s: s._o if isinstance(s._o, Bx) else None)
    polygon = property(lambda s: Polygon(s._o) if isinstance(s._o, (Bx, Polygon)) else None)
    edge = property(lambda s: s._o if isinstance(s._o, Edg) else None)
    text = property(lambda s: s._o if s.is_text() else None)
    def is_text(self): return type(self._o).__name__ == 'Text'
    def property(self, k): return _props_of(self._o).get(k)
    def properties(self): return dict(_props_of(self._o))
    def is_box(self): return isinstance(self._o, Bx)
    def is_polygon(self): return isinstance(self._o, Polygon)
    def is_edge(self): return isinstance(self._o, Edg)
    def bbox(self): return self._o if isinstance(self._o, Bx) else self._o.bbox()


class Shapes:
    """a shape container (iterated by kind, as KLayout does)"""
    def __init__(self):
        self._l = []

    def insert(self, x, *a):
        if isinstance(x, Region):
            for p in x.each():
                self.insert(p)
            return
        self._l.append(_Shape(x))
        return self._l[-1]

    def each(self, *a):
        kind = lambda s: 0 if s.is_polygon() else 1 if s.is_edge() else 2
        return iter(sorted(self._l, key=kind))

    def __iter__(self): return self.each()
    def size(self): return len(self._l)
    def is_empty(self): return not self._l
    def __len__(self): return len(self._l)
    def clear(self): self._l = []


class Anything:
    """an object accepting every call (reports)"""
    def __call__(self, *a, **k): return Anything()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything()

    def __iter__(self): return iter(())


def make_rdb(real):
    m = types.ModuleType(real.__name__)
    m.__getattr__ = lambda n: getattr(real, n)
    m.__all__ = list(getattr(real, '__all__', []))
    from . import srdb
    m.ReportDatabase, m.RdbCategory, m.RdbCell = srdb.ReportDatabase, srdb.RdbCategory, srdb.RdbCell
    return m


def make_pex(real):
    m = types.ModuleType(real.__name__)
    m.__getattr__ = lambda n: getattr(real, n)
    m.__all__ = list(getattr(real, '__all__', []))
    return m
