"""Skinny triangles: the obtuse corner is found, the split pieces cover exactly the triangle."""
META = {
    'bounds': ['every triangle with integer corners within +-5 dbu of one corner (classification), axis-aligned longest side (split)'],
    'outside': ['the rounding of the foot point to the grid for tilted longest sides'],
}


def cases(tier):
    return [dict(name='classify', fn='classify', params={}), dict(name='split-0', fn='split', params=dict(rot=0)),
            dict(name='split-1', fn='split', params=dict(rot=1)), dict(name='split-2', fn='split', params=dict(rot=2)),
            dict(name='keep', fn='keep', params={})]


def tri(c, lo=-40, hi=40):
    return [(0, 0)] + [(c.int('x%d' % i, lo, hi), c.int('y%d' % i, lo, hi)) for i in (1, 2)]


def cross(a, b, d):
    return (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])


def dot(a, b, d):
    """dot product of the two sides at corner d"""
    return (a[0] - d[0]) * (b[0] - d[0]) + (a[1] - d[1]) * (b[1] - d[1])


def classify(c, p):
    R = c.mod('klayout_pex.rcx25.r.resistor_network').ResistorNetwork
    P = c.kdb.Point
    t = tri(c, -5, 5)
    c.assume(cross(*t) != 0)
    i = R.is_skinny_tri([P(x, y) for x, y in t])
    # the obtuse corner is opposite to the side starting at corner i
    obt = [bool(dot(t[k], t[(k + 1) % 3], t[(k + 2) % 3]) < 0) for k in range(3)]
    if i is None:
        c.check(not any(obt), 'every obtuse triangle is found')
    else:
        c.check(obt[i], 'the index denotes the side opposite to the obtuse corner')


def pieces(c, t):
    k = c.kdb
    R = c.mod('klayout_pex.rcx25.r.resistor_network').ResistorNetwork
    return R.expand_skinny_tris(k.Polygon([k.Point(x, y) for x, y in t]))


def area2(q):
    pts = [(v.x, v.y) for v in q.each_point_hull()]
    s = 0
    for a, b in zip(pts, pts[1:] + pts[:1]):
        s = s + a[0] * b[1] - a[1] * b[0]
    return abs(s)


def split(c, p):
    """longest side on the x axis: the foot point is exact"""
    w = c.int('w', 2, 60)
    x, y = c.int('x', 1, 59), c.int('y', 1, 40)
    c.assume(x < w)
    t = [(0, 0), (w, 0), (x, y)]
    c.assume(dot(t[0], t[1], t[2]) < 0)
    t = t[p['rot']:] + t[:p['rot']]
    # KLayout normalises the corner order, so the rotation is realised by moving / mirroring the triangle
    if p['rot'] == 1:
        t = [(-a, -b) for a, b in t]
    elif p['rot'] == 2:
        t = [(b, -a) for a, b in t]
    r = pieces(c, t)
    c.check(len(r) == 2, 'an obtuse triangle is split in two')
    c.check_close(area2(r[0]) + area2(r[1]), w * y, 'the two pieces cover the triangle')
    corners = {(c_x(v), c_y(v)) for q in r for v in q.each_point_hull()} if not c.sym else None
    foot = (x, 0)
    apex = (x, y)
    for f in (foot, apex):
        if p['rot'] == 1:
            f = (-f[0], -f[1])
        elif p['rot'] == 2:
            f = (f[1], -f[0])
        for q in r:
            c.check(c.any([c.all([v.x == f[0], v.y == f[1]]) for v in q.each_point_hull()]), 'split along the height of the obtuse corner')


def c_x(v):
    return v.x


def c_y(v):
    return v.y


def keep(c, p):
    t = tri(c, -5, 5)
    c.assume(cross(*t) != 0)
    for k in range(3):
        c.assume(dot(t[k], t[(k + 1) % 3], t[(k + 2) % 3]) >= 0)
    r = pieces(c, t)
    c.check(len(r) == 1, 'other triangles are kept')
    c.check_close(area2(r[0]), abs(cross(*t)), 'kept unchanged')
