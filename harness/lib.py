"""helpers shared by the harnesses (work on symbolic and on concrete values)"""


class Sink:
    """accepts every call: stands for the reporting database, which is not part of the property"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


def inter(p, q):
    """intersection of two boxes (l, b, r, t), or None if it has no area"""
    l, r = mx(p[0], q[0]), mn(p[2], q[2])
    if bool(l >= r):
        return None
    b, t = mx(p[1], q[1]), mn(p[3], q[3])
    if bool(b >= t):
        return None
    return (l, b, r, t)


def area(p):
    return (p[2] - p[0]) * (p[3] - p[1])


def area_minus(base, cut):
    """area of base not covered by the boxes in cut (inclusion-exclusion)"""
    if base is None:
        return 0
    total = area(base)

    def rec(cur, i, sign):
        nonlocal total
        for j in range(i, len(cut)):
            q = inter(cur, cut[j])
            if q is not None:
                total = total + sign * area(q)
                rec(q, j + 1, -sign)
    rec(base, 0, -1)
    return total


def region(c, shapes):
    """shapes: list of ((l, b, r, t) or ('poly', corners, ...), net or None)"""
    k = c.kdb
    r = k.Region()
    r.enable_properties()
    for g, net in shapes:
        p = k.Polygon([k.Point(x, y) for x, y in g[1]]) if isinstance(g[0], str) else k.Polygon(k.Box(*g))
        if net is None:
            r.insert(p)
        else:
            r.insert(k.PolygonWithProperties(p, {'net': net}))
    return r


def box(c, name, lo=-2000, hi=2000, x=None, y=None):
    """a non-empty box with symbolic coordinates; x / y fix an axis"""
    if x is None:
        l, r = c.int(name + '.l', lo, hi), c.int(name + '.r', lo, hi)
        c.assume(l < r)
    else:
        l, r = x
    if y is None:
        b, t = c.int(name + '.b', lo, hi), c.int(name + '.t', lo, hi)
        c.assume(b < t)
    else:
        b, t = y
    return (l, b, r, t)


def tech_pb(c):
    return c.pb('tech.tech').Technology()


def tech_info(c, tech, diel='all'):
    mc = c.mod('klayout_pex.util.multiple_choice')
    return c.mod('klayout_pex.tech_info').TechInfo(tech=tech, dielectric_filter=mc.MultipleChoicePattern(pattern=diel))


def add_caps(tech, substrates=(), overlaps=(), sidewalls=(), sideoverlaps=()):
    cap = tech.process_parasitics.capacitance
    for n, a, p in substrates:
        e = cap.substrates.add()
        e.layer_name, e.area_capacitance, e.perimeter_capacitance = n, a, p
    for t, b, v in overlaps:
        e = cap.overlaps.add()
        e.top_layer_name, e.bottom_layer_name, e.capacitance = t, b, v
    for n, v, o in sidewalls:
        e = cap.sidewalls.add()
        e.layer_name, e.capacitance, e.offset = n, v, o
    for i, o, v in sideoverlaps:
        e = cap.sideoverlaps.add()
        e.in_layer_name, e.out_layer_name, e.capacitance = i, o, v


class LayerTable:
    """the layers of a layout: layer number and datatype -> index"""

    def __init__(self, table):
        self.table = table

    def layer(self, *a, **k):
        a = list(a) + list(k.values())
        key = (a[0].layer, a[0].datatype) if len(a) == 1 and hasattr(a[0], 'datatype') else tuple(a[0]) if len(a) == 1 else (a[0], a[1])
        return self.table[key]

    find_layer = layer

    def get_info(self, index):
        import klayout.db as kdb
        for k, v in self.table.items():
            if v == index:
                return kdb.LayerInfo(*k)
        raise IndexError(index)
