"""model of KLayout's layout containers: layouts, cells, instances, recursive iteration, texts"""
from . import values as V
from . import skdb as K


class Tr:
    """a simple transformation: mirror at the x axis, then rotation by r * 90 degrees, then displacement"""

    def __init__(self, *a):
        self.r, self.m, self.dx, self.dy = 0, False, 0, 0
        if len(a) == 1 and isinstance(a[0], Tr):
            self.__dict__.update(a[0].__dict__)
        elif len(a) == 1:
            self.dx, self.dy = a[0].x, a[0].y
        elif len(a) == 2 and not isinstance(a[1], bool):
            self.dx, self.dy = a
        elif len(a) >= 2:
            self.r, self.m = a[0] % 4, bool(a[1])
            if len(a) == 4:
                self.dx, self.dy = a[2], a[3]
            elif len(a) == 3:
                self.dx, self.dy = a[2].x, a[2].y

    def xy(self, x, y):
        if self.m:
            y = -y
        for _ in range(self.r):
            x, y = -y, x
        return x + self.dx, y + self.dy

    def __mul__(self, o):
        if isinstance(o, Tr):
            t = type(self)()
            t.m = self.m != o.m
            t.r = (self.r + (-o.r if self.m else o.r)) % 4
            t.dx, t.dy = self.xy(o.dx, o.dy)
            return t
        if isinstance(o, K.Identity):
            return self
        if isinstance(o, K.Pt) and not isinstance(o, K.Vec):
            return type(o)(*self.xy(o.x, o.y))
        if isinstance(o, K.Bx):
            return o if o.empty() else type(o)(*(self.xy(o.left, o.bottom) + self.xy(o.right, o.top)))
        if isinstance(o, K.EdgeWithProperties):
            return K.EdgeWithProperties(K.Edge(self * o.p1, self * o.p2), dict(o._props))
        if isinstance(o, K.Edg):
            return type(o)(self * o.p1, self * o.p2)
        if isinstance(o, Text):
            return type(o)(o.string, self * o.trans)
        if isinstance(o, K.Polygon):
            if self.r == 0 and not self.m:
                return o.moved(self.dx, self.dy)
            n = type(o)([self * p for p in o.each_point_hull()])
            for i in range(o.holes()):
                n.insert_hole([self * p for p in o.each_point_hole(i)])
            if isinstance(o, K._Props):
                n._props = dict(o._props)
            return n
        raise V.Unsupported('transformation of %s' % type(o).__name__)

    trans = __mul__
    disp = property(lambda s: K.Vector(s.dx, s.dy))
    angle = property(lambda s: s.r)
    def is_mirror(self): return self.m
    def dup(self): return type(self)(self)


class Trans(Tr):
    pass


class ICplxTrans(Tr):
    pass


class Text:
    def __init__(self, string, *a):
        self.string = string
        self.trans = a[0] if len(a) == 1 and isinstance(a[0], Tr) else Trans(*a)
        self._props = {}

    x = property(lambda s: s.trans.dx)
    y = property(lambda s: s.trans.dy)
    def position(self): return K.Point(self.x, self.y)
    def bbox(self): return K.Box(self.x, self.y, self.x, self.y)
    def property(self, k): return self._props.get(k)
    def dup(self): return Text(self.string, self.trans)


class Texts:
    def __init__(self, *a):
        self._l = []
        for x in a:
            if isinstance(x, RecIter):
                self._l += [t * s.text for s, t in x._all if s.is_text()]
            elif isinstance(x, Texts):
                self._l += x._l
            elif isinstance(x, Text):
                self._l.append(x)

    def insert(self, x): self._l.append(x)
    def __and__(self, region): return self._sel(region, True)
    def __sub__(self, region): return self._sel(region, False)
    interacting, not_interacting = __and__, __sub__

    def _sel(self, region, want):
        r = Texts()
        r._l = [t for t in self._l if any(bool(p.inside(t.position())) for p in region.each()) == want]
        return r

    def each(self): return iter(list(self._l))
    __iter__ = each
    def count(self): return len(self._l)
    size = __len__ = count
    def is_empty(self): return not self._l


class RecIter:
    def __init__(self, items):
        self._all = list(items)
        self._i = 0

    def at_end(self): return self._i >= len(self._all)
    def next(self): self._i += 1
    def shape(self): return self._all[self._i][0]
    def trans(self): return self._all[self._i][1]
    itrans = trans
    def dup(self): return RecIter(self._all)
    def reset(self): self._i = 0


class CellInstArray:
    def __init__(self, cell, trans):
        self.cell_index = cell if isinstance(cell, int) else cell.cell_index()
        self.trans = trans if isinstance(trans, Tr) else Trans(trans)


class Cell:
    def __init__(self, layout, name, i):
        self._l, self.name, self._i = layout, name, i
        self._shapes, self._insts = {}, []

    def cell_index(self): return self._i
    def layout(self): return self._l
    def insert(self, inst): self._insts.append(inst)

    def shapes(self, li):
        return self._shapes.setdefault(li, K.Shapes())

    def _rec(self, li, t):
        s = self._shapes.get(li)
        for x in (s.each() if s is not None else ()):
            yield x, t
        for i in self._insts:
            yield from self._l._cells[i.cell_index]._rec(li, t * i.trans)

    def begin_shapes_rec(self, li):
        return RecIter(self._rec(li, ICplxTrans()))

    def bbox(self):
        b = K.Box()
        for li in range(len(self._l._layers)):
            for s, t in self._rec(li, ICplxTrans()):
                b = b + t * s.bbox()
        return b


DISK = {}     # files written by layouts (GDS: layers are known by their numbers)


class LayerInfo:
    """layer numbers (possibly symbolic) and name"""

    def __init__(self, *a):
        self.layer, self.datatype, self.name = -1, -1, ''
        if len(a) == 1 and isinstance(a[0], LayerInfo):
            self.layer, self.datatype, self.name = a[0].layer, a[0].datatype, a[0].name
        elif len(a) == 1:
            self.name, = a
        elif len(a) == 2:
            self.layer, self.datatype = a
        elif a:
            self.layer, self.datatype, self.name = a

    def dup(self): return LayerInfo(self)
    def is_named(self): return self.layer < 0 and self.datatype < 0 and len(self.name) > 0
    def anonymous(self): return self.layer < 0 and self.datatype < 0 and len(self.name) == 0

    def is_equivalent(self, o):
        if bool(self.anonymous()) != bool(o.anonymous()):
            return False
        if bool(self.is_named()) or bool(o.is_named()):
            return bool(self.name == o.name)
        return bool(self.layer == o.layer) and bool(self.datatype == o.datatype)

    def __eq__(self, o):
        return isinstance(o, LayerInfo) and bool(self.layer == o.layer) and bool(self.datatype == o.datatype) and bool(self.name == o.name)

    def __hash__(self): return hash((self.layer, self.datatype, self.name))

    def to_s(self):
        n = '%s/%s' % (self.layer, self.datatype)
        return n if not len(self.name) else '%s (%s)' % (self.name, n) if not self.is_named() else self.name
    __str__ = to_s


class Layout:
    def __init__(self, *a):
        self.dbu = 0.001
        self._layers, self._cells = [], []

    def layer(self, *a):
        info = self._info(a)
        if info is not None:
            i = self.find_layer(info)
            if i is not None:
                return i
        self._layers.append(info if info is not None else LayerInfo())
        return len(self._layers) - 1

    @staticmethod
    def _info(a):
        if not a:
            return None
        if len(a) == 1 and not isinstance(a[0], (int, str)):
            return a[0] if isinstance(a[0], LayerInfo) else LayerInfo(*a[0])
        return LayerInfo(*a)

    def find_layer(self, *a):
        info = self._info(a)
        for i, x in enumerate(self._layers):
            if x.is_equivalent(info):
                return i
        return None

    def insert_layer(self, info):
        self._layers.append(info)
        return len(self._layers) - 1

    def set_info(self, i, info): self._layers[i] = info
    def get_info(self, i): return self._layers[i]
    def layer_infos(self): return list(self._layers)
    def layer_indexes(self): return list(range(len(self._layers)))
    def layers(self): return len(self._layers)

    def create_cell(self, name):
        self._cells.append(Cell(self, name, len(self._cells)))
        return self._cells[-1]

    def cell(self, n):
        if isinstance(n, int):
            return self._cells[n]
        for c in self._cells:
            if bool(c.name == n):
                return c

    def each_cell(self): return iter(list(self._cells))
    def cells(self): return len(self._cells)

    def top_cells(self):
        used = {i.cell_index for c in self._cells for i in c._insts}
        return [c for c in self._cells if c._i not in used]

    def top_cell(self):
        t = self.top_cells()
        if len(t) > 1:
            raise RuntimeError('The layout has multiple top cells')
        return t[0] if t else None

    def insert(self, ci, li, x):
        self._cells[ci].shapes(li).insert(x)

    def dup(self):
        n = type(self)()
        n.dbu, n._layers = self.dbu, list(self._layers)
        for c in self._cells:
            d = Cell(n, c.name, c._i)
            d._insts = [CellInstArray(i.cell_index, i.trans) for i in c._insts]
            for li, s in c._shapes.items():
                for x in s._l:
                    d.shapes(li).insert(x._o)
            n._cells.append(d)
        return n

    def flatten(self, ci, levels, prune):
        if levels != -1 or not prune:
            raise V.Unsupported('partial flattening')
        top = self._cells[ci]
        gone, todo = set(), [i.cell_index for i in top._insts]
        while todo:
            k = todo.pop()
            if k not in gone:
                gone.add(k)
                todo += [i.cell_index for i in self._cells[k]._insts]
        if any(c._i not in gone and c is not top and {i.cell_index for i in c._insts} & gone for c in self._cells):
            raise V.Unsupported('flattening shared cells')
        for li in range(len(self._layers)):
            items = list(top._rec(li, ICplxTrans()))
            top._shapes[li] = K.Shapes()
            for x, t in items:
                top._shapes[li].insert(t * x._o)
        top._insts = []
        self._cells = [c for c in self._cells if c._i not in gone]
        old = {c._i: k for k, c in enumerate(self._cells)}
        for k, c in enumerate(self._cells):
            c._i = k
            for i in c._insts:
                i.cell_index = old[i.cell_index]

    def copy_layer(self, a, b):
        for c in self._cells:
            for x in list(c.shapes(a)._l):
                c.shapes(b).insert(x._o)

    def move_layer(self, a, b):
        self.copy_layer(a, b)
        self.clear_layer(a)

    def clear_layer(self, a):
        for c in self._cells:
            c.shapes(a).clear()

    def write(self, path, *a):
        DISK[str(path)] = self.dup()

    def read(self, path, *a):
        src = DISK[str(path)]
        self.dbu = src.dbu
        m = {}
        for i, x in enumerate(src._layers):
            if any(not c.shapes(i).is_empty() for c in src._cells):
                m[i] = self.layer(x.layer, x.datatype)
        for c in src._cells:
            self._cells.append(Cell(self, c.name, c._i))
            self._cells[-1]._insts = [CellInstArray(i.cell_index, i.trans) for i in c._insts]
            for i, k in m.items():
                for x in c.shapes(i)._l:
                    self._cells[-1].shapes(k).insert(x._o)

    def begin_shapes(self, cell, li):
        return self._cells[cell if isinstance(cell, int) else cell.cell_index()].begin_shapes_rec(li)


class DeviceAbstract:
    def __init__(self):
        self.name = ''


def exports():
    return dict(Trans=Trans, ICplxTrans=ICplxTrans, Text=Text, Texts=Texts, CellInstArray=CellInstArray, Cell=Cell, Layout=Layout, LayerInfo=LayerInfo,
                RecursiveShapeIterator=RecIter, DeviceAbstract=DeviceAbstract)
