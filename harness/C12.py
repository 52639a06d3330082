"""Geometry messages: polygons, boxes and regions survive the conversion to messages and back."""
from lib import *

META = {
    'bounds': ['regions of up to 3 polygons: boxes, L and U shapes, boxes with up to two holes, any coordinates within +-1000 and any net names of up to 2 characters'],
    'outside': ['non-Manhattan polygons other than triangles'],
}


def cases(tier):
    out = []
    for s in (['box'], ['box', 'box'], ['hole'], ['hole', 'box'], ['hole2'], ['L'], ['U', 'box'], ['tri']):
        out.append(dict(name='region-' + '-'.join(s), fn='rt', params=dict(shapes=s)))
    if tier == 'thorough':
        out.append(dict(name='region-3', fn='rt', params=dict(shapes=['box', 'hole', 'L'])))
    out.append(dict(name='box', fn='pbox', params={}))
    out.append(dict(name='from-message', fn='frompb', params={}))
    return out


def make(c, i, kind):
    k = c.kdb
    P = k.Point
    n = 's%d' % i
    x, y = c.int(n + 'x', -1000, 1000), c.int(n + 'y', -1000, 1000)
    if kind == 'tri':
        a, b = c.int(n + 'a', 1, 300), c.int(n + 'b', 1, 300)
        return [P(x, y), P(x, y + b), P(x + a, y)], []
    w = [c.int('%sw%d' % (n, j), 1, 300) for j in range({'box': 1, 'L': 2, 'U': 3, 'hole': 3, 'hole2': 5}[kind])]
    h = [c.int('%sh%d' % (n, j), 1, 300) for j in range({'box': 1, 'L': 2, 'U': 2, 'hole': 3, 'hole2': 3}[kind])]
    if kind == 'box':
        return [P(x, y), P(x, y + h[0]), P(x + w[0], y + h[0]), P(x + w[0], y)], []
    if kind == 'L':
        return [P(x, y), P(x, y + h[0] + h[1]), P(x + w[0], y + h[0] + h[1]), P(x + w[0], y + h[0]), P(x + w[0] + w[1], y + h[0]), P(x + w[0] + w[1], y)], []
    if kind == 'U':
        X = [x, x + w[0], x + w[0] + w[1], x + w[0] + w[1] + w[2]]
        return [P(X[0], y), P(X[0], y + h[0] + h[1]), P(X[1], y + h[0] + h[1]), P(X[1], y + h[0]), P(X[2], y + h[0]), P(X[2], y + h[0] + h[1]),
                P(X[3], y + h[0] + h[1]), P(X[3], y)], []
    X, Y = [x], [y]
    for v in w:
        X.append(X[-1] + v)
    for v in h:
        Y.append(Y[-1] + v)
    hull = [P(X[0], Y[0]), P(X[0], Y[-1]), P(X[-1], Y[-1]), P(X[-1], Y[0])]
    holes = []
    for j in range(1, len(X) - 2, 2):
        holes.append([P(X[j], Y[1]), P(X[j + 1], Y[1]), P(X[j + 1], Y[2]), P(X[j], Y[2])])
    return hull, holes


def conv(c):
    return c.mod('klayout_pex.klayout.shapes_pb2_converter').ShapesConverter(dbu=0.001)


def key(pts):
    return [(p.x, p.y) for p in pts]


def rt(c, p):
    k = c.kdb
    cv = conv(c)
    polys, nets = [], []
    named = c.flag('named')     # KLayout keeps shapes with and without properties in separate containers
    for i, kind in enumerate(p['shapes']):
        hull, holes = make(c, i, kind)
        pg = k.Polygon(hull)
        for h in holes:
            pg.insert_hole(h)
        net = c.str('n%d' % i, c.choice('len%d' % i, [2, 1]), 33, 126) if named else None
        polys.append((hull, holes, pg))
        nets.append(net)
    r = k.Region()
    for (_, _, pg), net in zip(polys, nets):
        r.insert(k.PolygonWithProperties(pg, {'net': net}) if net is not None else k.PolygonWithProperties(pg, {}))
    m = c.pb('geometry.shapes').Region()
    cv.klayout_region_to_pb(r, m)
    c.check(len(m.polygons) == len(polys), 'every polygon is converted')
    back = cv.klayout_region(m)
    b = list(back.each())
    c.check(len(b) == len(polys), 'every polygon comes back')
    for (hull, holes, pg), net, q, mp in zip(polys, nets, b, m.polygons):
        if net is None:
            c.check(c.text(mp.net) == '' and q.property('net') is None, 'no net invented')
        else:
            c.check(c.eq(mp.net, net), 'net name in the message')
            c.check(c.eq(q.property('net'), net), 'net name after conversion')
        bb = q.bbox()
        o = pg.bbox()
        c.check(c.all([bb.left == o.left, bb.right == o.right, bb.bottom == o.bottom, bb.top == o.top]), 'extent is kept')
        c.check_close(q.area(), pg.area(), 'area is kept (holes included)')
        if not holes:
            a, d = key(pg.each_point_hull()), key(q.each_point_hull())
            c.check(len(a) == len(d) and c.all([c.all([u[0] == v[0], u[1] == v[1]]) for u, v in zip(a, d)]), 'corners are kept')
        elif len(polys) == 1:
            x = k.Region(k.Polygon(q)) ^ k.Region(k.Polygon(pg))
            c.check(x.is_empty(), 'the same area is covered')


def pbox(c, p):
    cv = conv(c)
    m = c.pb('geometry.shapes').Box()
    l, b = c.int('l', -100000, 100000), c.int('b', -100000, 100000)
    w, h = c.int('w', 0, 100000), c.int('h', 0, 100000)
    m.lower_left.x, m.lower_left.y, m.upper_right.x, m.upper_right.y = l, b, l + w, b + h
    net = None
    if c.flag('net'):
        net = c.str('n', c.choice('len', [2, 1]))
        m.net = net
    x = cv.klayout_box(m)
    c.check(c.all([x.left == l, x.bottom == b, x.right == l + w, x.top == b + h]), 'box corners')
    if net is not None:
        c.check(c.eq(x.property('net'), net), 'box net')
    q = c.pb('geometry.shapes').Point()
    cv.klayout_point_to_pb(c.kdb.Point(l, b), q)
    r = cv.klayout_point(q)
    c.check(c.all([q.x == l, q.y == b, r.x == l, r.y == b]), 'point')


def frompb(c, p):
    """a message polygon is reproduced corner by corner"""
    cv = conv(c)
    m = c.pb('geometry.shapes').Polygon()
    hull, _ = make(c, 0, c.choice('kind', ['box', 'L', 'tri']))
    rot = c.choice('rot', [0, 1, 2])
    pts = hull[rot:] + hull[:rot]
    if c.flag('rev'):
        pts = pts[::-1]
    for v in pts:
        h = m.hull_points.add()
        h.x, h.y = v.x, v.y
    q = cv.klayout_polygon(m)
    a, d = key(hull), key(q.each_point_hull())
    c.check(len(a) == len(d), 'number of corners')
    for u in a:
        c.check(c.any([c.all([u[0] == v[0], u[1] == v[1]]) for v in d]), 'every corner is kept')
