"""klayout.rdb.ReportDatabase: categories, cells and items, as KLayout 0.30.3 keeps them"""
from . import values as V
from . import skdb as K
from . import strings as S


class CplxTrans:
    """a magnification (integer to micrometre units)"""
    def __init__(self, *a, **k):
        if len(a) > 1 or (a and (k or not isinstance(a[0], (int, float, V.SymInt, V.SymReal)))) or set(k) - {'mag'}:
            raise V.Unsupported('CplxTrans with other arguments')
        self.mag = a[0] if a else k.get('mag', 1.0)

    def xy(self, p): return (p.x * self.mag, p.y * self.mag)


class Path:
    """a thin straight connection; only its extent is kept"""
    def __init__(self, pts, width=0, *a, **k):
        self.pts, self.width = [K.Point(p) for p in pts], width

    def polygon(self):
        w = (self.width + 1) // 2
        return K.Polygon([K.Point(p.x + a, p.y + b) for p in self.pts for a, b in ((-w, -w), (-w, w), (w, w), (w, -w))], raw=True)


class Value:
    def __init__(self, kind, pts):
        self.kind, self.pts = kind, pts


class Item:
    def __init__(self, cell, cat, vals):
        self._cell, self._cat, self._vals = cell, cat, vals

    def each_value(self): return iter(self._vals)
    def cell_id(self): return self._cell
    def category_id(self): return self._cat


class RdbCell:
    def __init__(self, i, name): self._i, self._n = i, name
    def rdb_id(self): return self._i
    def name(self): return self._n


class RdbCategory:
    def __init__(self, i, name, parent):
        self._i, self._n, self._p, self._sub = i, name, parent, []
        self.description = ''

    def rdb_id(self): return self._i
    def name(self): return self._n
    def parent(self): return self._p
    def each_sub_category(self): return iter(list(self._sub))

    def path(self):
        # KLayout quotes names that are no plain words; here a separator that no name has
        return self._n if self._p is None else self._p.path() + '\x01' + self._n


class ReportDatabase:
    def __init__(self, name=''):
        self._name, self._cats, self._cells, self._items, self._all = name, [], [], [], []
        self.description = self.generator = self.original_file = self.top_cell_name = ''

    def name(self): return self._name

    def create_cell(self, name, *a):
        c = RdbCell(len(self._cells) + 1, name)
        self._cells.append(c)
        return c

    def each_cell(self): return iter(list(self._cells))

    def create_category(self, *a):
        parent, name = a if len(a) == 2 else (None, a[0])
        if not isinstance(name, (str, S.SymStr)) or (parent is not None and not isinstance(parent, RdbCategory)):
            raise TypeError('create_category')
        lst = self._cats if parent is None else parent._sub
        name = S.decode(name)
        for c in lst:
            if bool(c._n == name):
                return c
        c = RdbCategory(len(self._all) + 1, name, parent)
        self._all.append(c)
        lst.append(c)
        return c

    def each_category(self): return iter(list(self._cats))

    def _id(self, x, cls): return x.rdb_id() if isinstance(x, cls) else x

    def create_items(self, cell_id, category_id, trans, shapes):
        if isinstance(shapes, K.Region):
            l = list(shapes._polys)
        elif isinstance(shapes, K.Shapes):
            l = [s._o for s in shapes.each()]
        elif isinstance(shapes, K.Edges):
            l = list(shapes.each())
        elif isinstance(shapes, (list, tuple)):
            l = list(shapes)
            if not l:
                raise TypeError('No overload with matching arguments')
        else:
            l = [shapes]
        for o in l:
            if isinstance(o, K.Bx):
                v = Value('polygon', [trans.xy(q) for q in K.Polygon(o).each_point_hull()])
            elif isinstance(o, K.Polygon):
                if o.holes():
                    o = o.resolved_holes()
                v = Value('polygon', [trans.xy(q) for q in o.each_point_hull()])
            elif isinstance(o, K.Edg):
                v = Value('edge', [trans.xy(o.p1), trans.xy(o.p2)])
            else:
                raise TypeError('No overload with matching arguments: %s' % type(o).__name__)
            self._items.append(Item(self._id(cell_id, RdbCell), self._id(category_id, RdbCategory), [v]))

    def each_item(self): return iter(list(self._items))
    def each_item_per_category(self, i): return iter([x for x in self._items if x._cat == i])
    def num_items(self): return len(self._items)
    def save(self, path): pass
