"""Sidewall capacitance between neighbouring wires of a layer."""
from sidelib import *

META = {
    'bounds': ['2 boxes with all 8 coordinates symbolic; 3 boxes with one axis symbolic; coordinates in [-60, 60] dbu around a halo of 40 dbu',
               'every net assignment, L and U shaped wires with one or two symbolic coordinates', 'any halo between 0.3 and 10 µm (3 database units)', 'every capacitance coefficient >= 0 and offset >= 0 (fixed geometry), other layers present'],
    'outside': ['other bent wires than L and U shapes', 'touching wires of different nets', 'shapes whose distance lies within 2 dbu of the halo'],
}


def cases(tier):
    out = [dict(name='coeff-%s' % s, fn='coeff', params=dict(side=s)) for s in ('above', 'below', 'left', 'right')]
    out += [dict(name='pair-%s' % s, fn='geo', params=dict(kind='pair', side=s)) for s in ('above', 'below', 'left', 'right')]
    ys = {'3-stack': [(0, 10), (14, 18), (22, 30)], '3-near': [(0, 10), (25, 30), (13, 20)], '3-far': [(0, 10), (20, 26), (70, 80)]}
    for n, y in ys.items():
        for ax in 'xy':
            out.append(dict(name='%s-%s' % (n, ax), fn='geo', params=dict(kind='three', y=y, ax=ax, nets=[0, 1, 2])))
    out.append(dict(name='3-samenet-x', fn='geo', params=dict(kind='three', y=ys['3-stack'], ax='x', nets=[0, 0, 1])))
    out.append(dict(name='3-wrap-x', fn='geo', params=dict(kind='three', y=ys['3-stack'], ax='x', nets=[0, 1, 0])))
    out.append(dict(name='layers', fn='layers', params={}))
    for k in ('ell', 'ell-behind', 'you-box', 'you-alone', 'you-two', 'step'):
        out.append(dict(name='poly-' + k, fn='polys', params=dict(kind=k)))
    for dbu in (0.05, 0.001, 0.0025):
        out.append(dict(name='halo-%g' % dbu, fn='halo', params=dict(dbu=dbu)))
    return out


SW = {'poly': (17.0, 0.25), 'li': (31.0, 0.125)}
DBU, HALO = 0.05, 2.0


def coeff(c, p):
    """fixed facing run, symbolic gap, coefficient, offset, database unit, nets"""
    cap, off = c.real('cap', 0), c.real('off', 0)
    g = c.int('gap', 1, 30)
    n0, n1 = c.str('a', 1, 65, 70), c.str('b', 1, 65, 70)
    A = (0, 0, 50, 20)
    B = {'above': (10, 20 + g, 47, 70), 'below': (10, -70, 47, -g), 'left': (-70, 3, -g, 19), 'right': (50 + g, 3, 100, 19)}[p['side']]
    shapes = [('poly', n0, A), ('poly', n1, B)]
    res = extract(c, [SUB, 'poly'], shapes, DBU, HALO, {'poly': (cap, off)}, {}, {}, False)
    run = (37 if p['side'] in ('above', 'below') else 16) * DBU
    same = bool(c.eq(n0, n1))
    got = 0
    for key, lst in res.sidewall_table.items():
        c.check(not same, 'no sidewall capacitance of a net to itself')
        c.check(c.any([c.all([c.eq(key.net1, n0), c.eq(key.net2, n1)]), c.all([c.eq(key.net1, n1), c.eq(key.net2, n0)])]),
                'sidewall capacitance is attributed to the two nets')
        for e in lst:
            got = got + e.cap_value
    exp = 0 if same else cap * run / (g * DBU + off) / 1000
    c.check_close(got, exp, 'sidewall capacitance = coefficient x run / (distance + offset)')
    c.observe('cap', got)


def safe(c, shapes):
    halo = int(HALO / DBU)
    for i in range(len(shapes)):
        for j in range(i):
            a, b = shapes[i][2], shapes[j][2]
            if shapes[i][0] == shapes[j][0]:
                c.assume(c.any([a[2] < b[0], b[2] < a[0], a[3] < b[1], b[3] < a[1]]))
            for d in (b[0] - a[2], a[0] - b[2], b[1] - a[3], a[1] - b[3]):
                c.assume(c.any([d <= halo, d > halo + 2]))


def geo(c, p):
    if p['kind'] == 'pair':
        A = (0, 0, 50, 20)
        lo, hi = (-30, 80)
        g = c.int('g', 1, 60)
        u, w = c.int('u', lo, hi), c.int('w', lo, hi)
        c.assume(u < w)
        h = c.int('h', 1, 60)
        B = {'above': (u, 20 + g, w, 20 + g + h), 'below': (u, -g - h, w, -g), 'left': (-g - h, u, -g, w), 'right': (50 + g, u, 50 + g + h, w)}[p['side']]
        shapes = [('poly', 'A', A), ('poly', 'B', B)]
    else:
        shapes = []
        for i in range(3):
            s = (0, 60) if i == 0 else None
            if s is None:
                l, r = c.int('l%d' % i, -10, 70), c.int('r%d' % i, -10, 70)
                c.assume(l < r)
                s = (l, r)
            y = p['y'][i]
            b = (s[0], y[0], s[1], y[1]) if p['ax'] == 'x' else (y[0], s[0], y[1], s[1])
            shapes.append(('poly', 'N%d' % p['nets'][i], b))
    safe(c, shapes)
    res = extract(c, [SUB, 'poly'], shapes, DBU, HALO, SW, {}, {}, False)
    side, _ = expected(c, [SUB, 'poly'], shapes, DBU, HALO, SW, {}, {}, False)
    compare_sidewall(c, res, side)


def layers(c, p):
    """wires of different layers never form sidewall capacitances; each layer uses its own coefficient"""
    g = c.int('g', 1, 30)
    shapes = [('poly', 'A', (0, 0, 50, 20)), ('li', 'B', (0, 20 + g, 50, 70)), ('li', 'C', (0, 75 + g, 50, 120))]
    ov = {('poly', SUB): 3.0, ('li', SUB): 4.0, ('li', 'poly'): 5.0}
    so = {('poly', SUB): 30.0, ('li', SUB): 40.0, ('li', 'poly'): 50.0, ('poly', 'li'): 60.0}
    sw = {l: (c.real('cap.' + l, 0), c.real('off.' + l, 0)) for l in ('poly', 'li')}
    safe(c, shapes)
    res = extract(c, [SUB, 'poly', 'li'], shapes, DBU, HALO, sw, ov, so, False)
    side, _ = expected(c, [SUB, 'poly', 'li'], shapes, DBU, HALO, sw, ov, so, False)
    compare_sidewall(c, res, side)


def polys(c, p):
    """bent wires: notches, a wire in a notch, a wire behind a step"""
    k = p['kind']
    g = c.int('g', 1, 38)
    if k == 'ell':
        shapes = [('poly', 'A', (0, 0, 60, 10)), ('poly', 'B', ell(5, 10 + g, 70, 60 + g, c.int('m', 8, 66), 18 + g))]
    elif k == 'ell-behind':
        # facing the inner corner of the L: near for one part, far for the other
        m = c.int('m', 12, 50)
        shapes = [('poly', 'A', ell(0, 0, 60, 20, m, 8)), ('poly', 'B', (0, 20 + g, 60, 40 + g))]
    elif k == 'you-box':
        l, r = c.int('l', 22, 60), c.int('r', 30, 78)
        c.assume(r - l >= 2)
        shapes = [('poly', 'A', you(0, 0, 100, 60, 20, 80, 10)), ('poly', c.choice('net', ['A', 'B']), (l, 10 + g, r, 55 + g))]
    elif k == 'you-alone':
        a, b = c.int('a', 5, 40), c.int('b', 42, 90)
        shapes = [('poly', 'A', you(0, 0, 100, 60, a, b, 10))]
    elif k == 'you-two':
        shapes = [('poly', 'A', you(0, 0, 100, 60, 20, 80, 10)), ('poly', 'B', (30, 20, 40, 60)), ('poly', 'C', (44, 14 + g, 70, 60 + g))]
    else:
        shapes = [('poly', 'A', ell(0, 0, 60, 40, 30, 10)), ('poly', 'B', (34, 10 + g, 60, 60 + g)), ('poly', 'C', (62, 0, 80, 9))]
    res = extract(c, [SUB, 'poly'], shapes, DBU, HALO, SW, {}, {}, False)
    side, _ = expected(c, [SUB, 'poly'], shapes, DBU, HALO, SW, {}, {}, False)
    compare_sidewall(c, res, side)


def halo(c, p):
    """any halo: the neighbour counts exactly if it is within"""
    dbu = p['dbu']
    h = c.real('halo', 0, 10)
    c.assume(h >= 0.3)
    g = c.int('g', 1, int(12 / dbu))
    c.assume(c.any([g * dbu <= h, g * dbu > h + 2.01 * dbu]))
    shapes = [('poly', 'A', (0, 0, 50, 20)), ('poly', 'B', (0, 20 + g, 50, 60 + g))]
    res = extract(c, [SUB, 'poly'], shapes, dbu, h, SW, {}, {}, False)
    got = 0
    for key, lst in res.sidewall_table.items():
        for e in lst:
            got = got + e.cap_value
    cap, off = SW['poly']
    exp = cap * 50 * dbu / (g * dbu + off) / 1000 if bool(g * dbu <= h) else 0
    c.check_close(got, exp, 'neighbours couple exactly within the halo')
