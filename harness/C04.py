"""Fringe (side overlap) capacitance: shielding by lateral neighbours and by layers in between."""
from sidelib import *

META = {
    'bounds': ['2 to 4 boxes or L and U shapes plus the substrate plane; up to 5 symbolic coordinates per case around a halo of 40 dbu', 'both fringe '
               'models (with and without halo scaling)', 'atan is uninterpreted: only its sign, monotonicity and |atan| < pi/2 are used'],
    'outside': ['bent shapes other than L and U shapes', 'more than 4 shapes', 'contributions of at most 0.0001 fF (dropped by design)',
                'shapes whose distance lies within 2 dbu of the halo'],
}
DBU, HALO = 0.05, 2.0
L = [SUB, 'poly', 'li', 'met1', 'met2']
SW = {'poly': (17.0, 0.25), 'li': (31.0, 0.125), 'met1': (21.0, 0.5), 'met2': (23.0, 0.5)}
OV = {('poly', SUB): 3.0, ('li', SUB): 4.0, ('met1', SUB): 2.0, ('li', 'poly'): 50.0, ('met1', 'poly'): 20.0, ('met1', 'li'): 70.0,
      ('met2', SUB): 1.0, ('met2', 'poly'): 10.0, ('met2', 'li'): 30.0, ('met2', 'met1'): 80.0}
SO = {('poly', SUB): 3000.0, ('li', SUB): 4000.0, ('met1', SUB): 2500.0, ('li', 'poly'): 5000.0, ('poly', 'li'): 6000.0, ('met1', 'poly'): 7000.0,
      ('poly', 'met1'): 8000.0, ('met1', 'li'): 9000.0, ('li', 'met1'): 5500.0,
      ('met2', 'poly'): 7100.0, ('poly', 'met2'): 8100.0, ('met2', 'li'): 7200.0, ('li', 'met2'): 8200.0, ('met2', 'met1'): 7300.0, ('met1', 'met2'): 8300.0, ('met2', SUB): 2600.0}
FAR = (-100000, -100000, 100000, 100000)


def cases(tier):
    out = []
    for a, b in (('poly', 'li'), ('met1', 'poly')):
        out.append(dict(name='pair-%s-%s' % (a, b), fn='geo', params=dict(shapes=[(a, 0, (0, 60), (0, 20)), (b, 1, (0, 60), None)])))
        out.append(dict(name='pair-x-%s-%s' % (a, b), fn='geo', params=dict(shapes=[(a, 0, (0, 60), (0, 20)), (b, 1, None, (25, 40))])))
    out.append(dict(name='overlapping-x', fn='geo', params=dict(shapes=[('poly', 0, (0, 60), (0, 20)), ('li', 1, None, (10, 40))])))
    out.append(dict(name='same-net', fn='geo', params=dict(shapes=[('poly', 0, (0, 60), (0, 20)), ('li', 0, (0, 60), None)])))
    for sc in (False, True):
        out.append(dict(name='mid-shield-%d' % sc, fn='geo', params=dict(
            shapes=[('met1', 0, (0, 60), (0, 20)), ('li', 1, (0, 60), None), ('poly', 2, (0, 60), None if tier == 'thorough' else (30, 50))],
            scale=sc, above=True)))
    out.append(dict(name='mid-shield-thin', fn='geo', params=dict(
        shapes=[('met1', 0, (0, 60), (0, 20)), ('li', 1, (0, 60), (28, 36)), ('poly', 2, (0, 60), None)], above=True)))
    out.append(dict(name='mid-shield-same', fn='geo', params=dict(
        shapes=[('met1', 0, (0, 60), (0, 20)), ('li', 0, (0, 60), None), ('poly', 2, (0, 60), (24, 44))], above=True)))
    out.append(dict(name='mid-shield-x', fn='geo', params=dict(
        shapes=[('met1', 0, (0, 60), (0, 20)), ('li', 1, None, (26, 34)), ('poly', 2, None, (22, 45))])))
    # two layers in between, beside different parts of the edge
    for a, b in (('poly', 'met2'), ('met2', 'poly')):
        for sec in ('li', 'met1') if tier == 'thorough' else ('li',) if a == 'poly' else ('met1',):
            out.append(dict(name='two-mid-%s-%s' % (a, sec), fn='geo', params=dict(
                shapes=[(a, 0, (0, 60), (0, 20)), (sec, 1, None, (26, 34)), ('met1' if sec == 'li' else 'li', 2, (30, 45), (24, 36)),
                        (b, 3, (0, 60), (22, 45))])))
    # two shapes behind one shield: each of them is shielded on its own
    for i, lo in enumerate(((25, 30), (38, 44))):
        out.append(dict(name='two-behind-%d' % i, fn='geo', params=dict(
            shapes=[('met1', 0, (0, 60), (0, 20)), ('li', 1, (0, 60), None if tier == 'thorough' else (24, 34)), ('poly', 2, (0, 60), lo), ('poly', 3, None, (32, 37) if i else (32, 42))])))
    for nn, nets in (('', [0, 1, 2]), ('-same', [0, 0, 1]), ('-wrap', [0, 1, 0])):
        out.append(dict(name='lateral%s' % nn, fn='geo', params=dict(
            shapes=[('li', nets[0], (0, 60), (0, 20)), ('li', nets[1], (0, 60), (31, 40) if tier == 'quick' and nets[2] == 1 else None), ('poly', nets[2], (0, 60), None)], above=True)))
    out.append(dict(name='lateral-x', fn='geo', params=dict(
        shapes=[('li', 0, (0, 60), (0, 20)), ('li', 1, None, (26, 34)), ('met1', 2, None, (22, 45))])))
    out.append(dict(name='substrate', fn='geo', params=dict(shapes=[('poly', 0, None, (0, 20))], sub=True)))
    out.append(dict(name='substrate-lateral', fn='geo', params=dict(shapes=[('poly', 0, (0, 60), (0, 20)), ('poly', 1, (0, 60), None)], sub=True, above=True)))
    out.append(dict(name='substrate-mid', fn='geo', params=dict(shapes=[('li', 0, (0, 60), (0, 20)), ('poly', 1, (0, 60), None)], sub=True, above=True)))
    for k in ('notch-sub', 'notch-box', 'notch-high', 'notch-other', 'ell-out', 'ell-lateral', 'ell-shield', 'own-corner'):
        out.append(dict(name='poly-' + k, fn='polys', params=dict(kind=k)))
    for sc in (False, True):
        for pr in (('poly', 'li'), ('li', 'poly'), ('poly', SUB)):
            out.append(dict(name='coeff-%s-%s-%d' % (pr[0], pr[1], sc), fn='coeff', params=dict(pair=pr, scale=sc)))
    return out


def box_x(p):
    return [s for s in p['shapes'] if s[2] is None]


def geo(c, p):
    shapes = []
    if p.get('sub'):
        shapes.append((SUB, SUB, FAR))
    halo = int(HALO / DBU)
    for i, (l, n, x, y) in enumerate(p['shapes']):
        lo, hi = (21, 90) if p.get('above') else (-75, 95)
        if x is None:
            x = (c.int('l%d' % i, -10, 70), c.int('r%d' % i, -10, 70)) if len(box_x(p)) < 2 else \
                ((0, c.int('r%d' % i, 5, 70)) if i == 1 else (c.int('l%d' % i, -10, 55), 60))
            c.assume(x[0] < x[1])
        if y is None:
            y = (c.int('b%d' % i, lo, hi), c.int('t%d' % i, lo, hi))
            c.assume(y[0] < y[1])
        shapes.append((l, 'N%d' % n, (x[0], y[0], x[1], y[1])))
    box = [s for s in shapes if s[0] != SUB]
    for i in range(len(box)):
        for j in range(i):
            a, b = box[i][2], box[j][2]
            if box[i][0] == box[j][0]:
                c.assume(c.any([a[2] < b[0], b[2] < a[0], a[3] < b[1], b[3] < a[1]]))
            for d in (b[1] - a[3], a[1] - b[3]):
                c.assume(c.any([d <= halo - 1, d > halo + 2]))
    scale = p.get('scale', False)
    lay = L if p.get('sub') else L[1:]
    res = extract(c, [SUB] + L[1:], shapes, DBU, HALO, SW, OV, SO, scale)
    side, fringe = expected(c, L, shapes, DBU, HALO, SW, OV, SO, scale)
    compare_fringe(c, res, fringe)


def polys(c, p):
    """bent wires: shielded by themselves, seen in parts, shielding in parts"""
    k = p['kind']
    g = c.int('g', 1, 36)
    sub = (SUB, SUB, FAR)
    if k == 'notch-sub':
        shapes = [sub, ('poly', 'N0', you(0, 0, 90, 60, 20, 20 + g, c.int('d', 10, 50)))]
    elif k == 'notch-box':
        shapes = [('li', 'N0', you(0, 0, 100, 60, 30, 70, 20)), ('poly', 'N1', (40, 21 + g, c.int('r', 45, 110), 70))]
    elif k == 'notch-high':
        shapes = [sub, ('met1', 'N0', you(0, 0, 100, 40, 30, 70, 10)), ('poly', 'N1', (35, 11 + g, 60, 60))]
    elif k == 'notch-other':
        # another net inside the notch: the nearer of both faces shields
        shapes = [sub, ('poly', 'N0', you(0, 0, 76, 70, 20, 56, 20)), ('poly', 'N1', (20 + g, 20 + 2, c.int('r', 30, 54), 60))]
        c.assume(20 + g < shapes[2][2][2])
    elif k == 'ell-out':
        shapes = [('poly', 'N0', (0, 0, 60, 20)), ('li', 'N1', ell(5, 20 + g, 70, 60 + g, c.int('m', 8, 66), 26 + g))]
    elif k == 'ell-lateral':
        shapes = [sub, ('poly', 'N0', (0, 0, 60, 20)), ('poly', 'N1', ell(5, 20 + g, 70, 60 + g, c.int('m', 8, 66), 26 + g))]
    elif k == 'ell-shield':
        shapes = [('met1', 'N0', (0, 0, 60, 20)), ('li', 'N1', ell(5, 20 + g, 70, 80, 30, mn(79, 26 + g))), ('poly', 'N2', (0, 35, 60, 50))]
    else:
        # a wire turning around a corner, over a plane
        shapes = [sub, ('poly', 'N0', ell(0, 0, 60, 60, g, c.int('d', 5, 50))), ('li', 'N1', (20, 20, 80, 45))]
    res = extract(c, [SUB] + L[1:], shapes, DBU, HALO, SW, OV, SO, False)
    side, fringe = expected(c, L, shapes, DBU, HALO, SW, OV, SO, False)
    compare_fringe(c, res, fringe)


def coeff(c, p):
    """fixed boxes, symbolic coefficients and halo-independent units"""
    i, o = p['pair']
    near = c.int('near', 0, 20)
    th = c.int('th', 1, 15)
    k_ov, k_so = c.real('k_ov', 0, 100000), c.real('k_so', 0, 100000)
    c.assume(k_ov > 0)
    dbu, run = 0.05, 60
    ov = dict(OV)
    so = dict(SO)
    ov[(i, o) if (i, o) in ov else (o, i)] = k_ov
    so[(i, o)] = k_so
    if (o, i) in so:
        so[(o, i)] = 0.0
    shapes = [(i, 'A', (0, 0, run, 20))]
    if o == SUB:
        shapes = [(i, 'A', (0, 0, run, 20)), (SUB, SUB, FAR)]
        res = extract(c, [SUB, 'poly', 'li'], shapes, dbu, HALO, SW, ov, so, p['scale'])
        compare_fringe(c, res, expected(c, L, shapes, dbu, HALO, SW, ov, so, p['scale'])[1])
        return
    shapes.append((o, 'B', (0, 20 + near, run, 20 + near + th)))
    res = extract(c, [SUB, 'poly', 'li'], shapes, dbu, HALO, SW, ov, so, p['scale'])
    got = 0
    for key, lst in res.sideoverlap_table.items():
        c.check(c.text(key.layer_inside) == i and c.text(key.layer_outside) == o, 'fringe uses the coefficient of its own layer pair')
        for e in lst:
            got = got + e.cap_value
    al = k_ov * 0.02
    f = lambda d: (2.0 / math.pi) * c.atan(al * (d * dbu))
    exp = f(near + th) - f(near)
    if p['scale']:
        exp = exp / ((2.0 / math.pi) * c.atan(al * HALO))
    exp = exp * (run * dbu) * k_so / 1000
    c.check(got <= exp + abs(exp) * 1e-6 + 1e-9, 'fringe capacitance does not exceed the unshielded fringe')
    c.check(got >= exp - 0.000101 - abs(exp) * 1e-6, 'fringe capacitance covers the whole unshielded fringe')
