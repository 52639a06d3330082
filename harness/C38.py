"""Geometry check and STL export of a field solver model: exactly the surfaces that are not closed are reported, every surface is exported completely."""
import C15

META = {
    'bounds': ['a conductor box in a dielectric box, extents and cut positions symbolic within 100 dbu, faces cut into up to 3 strips independently of each other (T-junctions), either diagonal',
               'tetrahedra with one corner anywhere above the base',
               'every single triangle removed, doubled, turned over or given to the other net; four triangles (thorough: all) with one corner moved by up to 3 dbu along any axis',
               'models generated from up to 3 boxes with one or two symbolic coordinates',
               'export: up to 3 interfaces per surface, names of 1..2 characters'],
    'outside': ['surfaces with several defects', 'cut positions off the database grid', 'binary STL'],
}


def cases(tier):
    out = []
    for n in (('one', 'two', 'strips') if tier == 'quick' else ('one', 'two', 'strips', 'strips2')):
        out.append(dict(name='closed-' + n, fn='closed', params=dict(cuts=n)))
    out.append(dict(name='tetra', fn='tetra', params={}))
    for k in ('removed', 'doubled', 'turned', 'outer', 'swapped'):
        out.append(dict(name='open-' + k, fn='broken', params=dict(kind=k)))
    for i in ((0, 3, 5, 9) if tier == 'quick' else range(14)):
        out.append(dict(name='open-moved-%d' % i, fn='broken', params=dict(kind='moved', i=i)))
    A = (0, 0, 100, 80)
    gs = {'alone': [('+A', (0, 0, None, 80), (0, None))],
          'cover': [('+A', A, (0, 50)), ('-m', (-10, -10, 110, 90), (0, None))],
          'side': [('+A', A, (0, 50)), ('-m', (None, -10, 140, 90), (0, 50))]}
    if tier != 'quick':
        gs['via'] = [('+A', A, (0, 50)), ('+A', (20, 20, None, 40), (50, 90)), ('-m', (-10, -10, 110, 90), (0, 70))]
        gs['two'] = [('+A', A, (0, 50)), ('+B', (20, 20, 40, 40), (None, 120)), ('-m', (-10, -10, 110, 90), (0, 80))]
    for n, ls in gs.items():
        out.append(dict(name='generated-' + n, fn='generated', params=dict(layers=ls)))
    for s in (False, True):
        out.append(dict(name='stl-%d' % s, fn='stl', params=dict(second=s)))
    return out


U = 0.001


class Check:
    """a generator with given surfaces; collects what the check reports"""

    def __init__(self, c, mats, nets):
        self.c = c
        self.G, self.gen, self.fs = C15.generator(c, mats, nets)
        self.errors = []
        self.G.error = lambda m, *a, **k: self.errors.append(m)
        self.G.info = lambda *a, **k: None

    def tri(self, t):
        P = self.G.Point
        return self.G.Triangle(*[P(*[v * U for v in q]) for q in t])

    def cond(self, net, outside, tris):
        self.gen.cond_data[self.G.HCondKey(net, outside)] = [self.tri(t) for t in tris]

    def diel(self, outside, inside, tris):
        self.gen.diel_data[self.G.HDielKey(outside, inside)] = [self.tri(t) for t in tris]

    def run(self):
        del self.errors[:]
        self.gen.check()
        return self.errors

    def bad(self, names):
        """names a message speaks of"""
        es = [self.c.text(m) for m in self.run()]
        return {n for n in names if any("'%s'" % n in m for m in es)}, len(es)


def strips(cuts, quad):
    """triangles of the strips between the cuts; quad(a, b): the strip's corners, ccw from outside"""
    out = []
    for i in range(len(cuts) - 1):
        p, q, r, s = quad(cuts[i], cuts[i + 1])
        out += [(p, q, r), (p, r, s)] if i % 2 == 0 else [(p, q, s), (q, r, s)]
    return out


def box_tris(x, y, z, top=(), front=(), flip=False):
    """outward triangles of a box; the faces z1 and y0 are cut at other positions of x than their neighbours"""
    x0, x1 = x
    y0, y1 = y
    z0, z1 = z
    out = strips([x0] + list(top) + [x1], lambda a, b: [(a, y0, z1), (b, y0, z1), (b, y1, z1), (a, y1, z1)])
    out += strips([x0] + list(front) + [x1], lambda a, b: [(a, y0, z0), (b, y0, z0), (b, y0, z1), (a, y0, z1)])
    for q in ([(x0, y0, z0), (x0, y1, z0), (x1, y1, z0), (x1, y0, z0)],
              [(x0, y1, z0), (x0, y1, z1), (x1, y1, z1), (x1, y1, z0)],
              [(x0, y0, z0), (x0, y0, z1), (x0, y1, z1), (x0, y1, z0)],
              [(x1, y0, z0), (x1, y1, z0), (x1, y1, z1), (x1, y0, z1)]):
        if flip:
            q = q[1:] + q[:1]
        out += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return out


def turn(t):
    return (t[2], t[1], t[0])


def closed(c, p):
    k = Check(c, {'mat': 2.0, 'mat2': 3.0}, ['neta'])
    a = c.int('a', 4, 100)
    top, front = [], []
    flip = False
    if p['cuts'] == 'one':
        top = [c.int('s', 1, 99)]
        flip = c.flag('flip')
    elif p['cuts'] == 'two':
        top, front = [c.int('s', 1, 99)], [c.int('t', 1, 99)]
    elif p['cuts'] == 'strips':
        top, front = [c.int('s', 1, 99), c.int('s2', 1, 99)], [20]
        c.assume(c.all([top[0] < top[1], a > 20]))
    else:
        top, front = [c.int('s', 1, 99), c.int('s2', 1, 99)], [20, c.int('t', 21, 99)]
        c.assume(c.all([top[0] < top[1]]))
    c.assume(c.all([v < a for v in top + front]))
    inner = box_tris((0, a), (0, 20), (5, 35), top, front, flip)
    k.cond('neta', 'mat', inner[:7])
    k.cond('neta', 'mat2', inner[7:9])
    k.cond('neta', None, inner[9:])
    # mat2 is closed by an interface towards mat and to the void
    es = None
    k.gen.materials = {}
    es = k.run()
    c.check(len(es) == 0, 'a closed surface is accepted, whatever way its faces are cut')
    # the same surface of a dielectric, partly described from the outside
    k.gen.cond_data.clear()
    k.gen.net_names = []
    k.diel(None, 'mat', inner[:5])
    k.diel('mat', 'mat2', [turn(t) for t in inner[5:8]])
    k.diel('mat2', 'mat', inner[8:])
    k.gen.materials = {'mat': 2.0}
    c.check(len(k.run()) == 0, 'a closed surface of a dielectric is accepted')


def tetra(c, p):
    k = Check(c, {}, ['neta'])
    P = (c.int('x', -40, 40), c.int('y', -40, 40), c.int('z', 1, 40))
    A, B, C = (0, 0, 0), (20, 0, 0), (0, 15, 0)
    k.cond('neta', None, [(A, C, B), (A, B, P), (B, C, P), (C, A, P)])
    c.check(len(k.run()) == 0, 'a closed tetrahedron is accepted')
    k.cond('neta', None, [(A, C, B), (A, B, P), (B, C, P)])
    c.check(len(k.run()) > 0, 'an open tetrahedron is reported')
    k.cond('neta', None, [(A, B, C), (A, B, P), (B, C, P), (C, A, P)])
    c.check(len(k.run()) > 0, 'a side facing the wrong way is reported')


def broken(c, p):
    names = ['neta', 'netb', 'mat']
    k = Check(c, {'mat': 2.0}, ['neta', 'netb'])
    a, s = c.int('a', 10, 40), 7
    if p['kind'] != 'moved':
        s = c.int('s', 1, 39)
        c.assume(s < a)
    inner = box_tris((0, a), (0, 20), (5, 35), [s])
    outer = [] if p['kind'] == 'swapped' else box_tris((-10, 110), (-10, 60), (0, 50))
    other = box_tris((0, 20), (30, 40), (5, 10)) if p['kind'] in ('outer', 'swapped') else []
    want = {'neta', 'mat'}
    kind = p['kind']
    if kind == 'outer':
        i = c.choice('i', list(range(0, len(outer))))
        del outer[i]
        want = {'mat'}
    elif kind == 'swapped':
        i = c.choice('i', list(range(len(inner))))
        other.append(inner.pop(i))
        want = {'neta', 'netb'}
    else:
        i = p['i'] if kind == 'moved' else c.choice('i', list(range(len(inner))))
        if kind == 'removed':
            del inner[i]
        elif kind == 'doubled':
            inner.append(inner[i])
        elif kind == 'turned':
            inner[i] = turn(inner[i])
        else:
            d = c.choice('axis', [0, 1, 2]), c.int('by', -3, 3)
            c.assume(d[1] != 0)
            t = [list(q) for q in inner[i]]
            j = c.choice('corner', [0, 1, 2])
            t[j][d[0]] = t[j][d[0]] + d[1]
            inner[i] = tuple(tuple(q) for q in t)
    h = len(inner) // 2
    k.cond('neta', 'mat', inner)
    k.cond('netb', 'mat', other)
    if outer:
        k.diel(None, 'mat', outer)
    else:
        k.gen.materials = {}
    got, n = k.bad(names)
    c.check(n > 0, 'an open surface is reported')
    c.check(got == want, 'the report names exactly the surfaces that are not closed')


def generated(c, p):
    b, spec = C15.build(c, p['layers'])
    gen = b.generate()
    G = c.mod('klayout_pex.fastercap.fastercap_model_generator')
    errors = []
    G.error = lambda m, *a, **k: errors.append(m)
    G.info = lambda *a, **k: None
    gen.check()
    c.check(len(errors) == 0, 'a model of separate conductors has closed surfaces')


def cyclic(c, a, b):
    """same triangle, same direction"""
    return c.any([c.all([c.eq(u, v) for q, r in zip(a[i:] + a[:i], b) for u, v in zip(q, r)]) for i in range(3)])


def stl(c, p):
    n0, n1 = c.str('net0', 1, 48, 122), c.str('net1', 2, 48, 122)
    k = Check(c, {'m': 2.0, 'n': 3.0, 'unused': 4.0}, [n0, n1])
    base = [0]

    def tris(n):
        base[0] += 10
        v = c.real('v%d' % base[0], -100, 100)
        return [((base[0] + i, v, 0), (base[0] + i, v + 1, 2), (base[0] + i + 1, v, 5)) for i in range(n)]
    want = {'diel_m': [], 'diel_n': [], 'diel_unused': [], 'cond_0': [], 'cond_1': []}

    def cond(i, o, n):
        t = tris(n)
        k.cond((n0, n1)[i], o, t)
        want['cond_%d' % i] += t
        if o:
            want['diel_' + o] += [turn(x) for x in t]

    def diel(o, i, n):
        t = tris(n)
        k.diel(o, i, t)
        if i:
            want['diel_' + i] += t
        if o:
            want['diel_' + o] += [turn(x) for x in t]
    diel(None, 'm', 2)
    diel('n', 'm', 1)
    cond(0, 'm', 2)
    if p['second']:
        cond(1, None, 1)
        cond(1, 'n', 1)
        diel('n', None, 1)
    pre = c.choice('prefix', ['', 'pre_'])
    k.gen.dump_stl('out', pre)
    path = {'diel_m': 'diel_m', 'diel_n': 'diel_n', 'diel_unused': 'diel_unused', 'cond_0': 'cond_' + n0, 'cond_1': 'cond_' + n1}
    have = list(k.fs.files)
    c.check(len(have) == sum(1 for v in want.values() if v), 'one file per surface that has panels')
    for n, ts in want.items():
        fn = 'out/' + pre + path[n] + '.stl'
        if not ts:
            continue
        hit = [f for f in have if bool(c.eq(f, fn))]
        c.check(len(hit) == 1, 'a surface has a file of its name')
        got, cur = [], None
        ls = [C15.words(c, l) for l in k.fs.lines(hit[0])]
        ls = [w for w in ls if w]
        c.check(c.text(ls[0][0]) == 'solid' and c.text(ls[-1][0]) == 'endsolid', 'an STL file is one solid')
        for w in ls:
            t = c.text(w[0])
            if t == 'outer':
                cur = []
            elif t == 'vertex':
                c.check(len(w) == 4, 'a corner has three coordinates')
                cur.append([c.num(v) / U for v in w[1:]])
            elif t == 'endloop':
                c.check(len(cur) == 3, 'a facet has three corners')
                got.append(cur)
        c.check(len(got) == len(ts), 'every panel of the surface is written once')
        for a in ts:
            c.check(c.any([near(c, a, b) for b in got]), 'a panel is written with its outside facing out')


def near(c, a, b):
    return c.any([c.all([c.all([u - v < 0.001, v - u < 0.001]) for q, r in zip(b[i:] + b[:i], a) for u, v in zip(q, r)]) for i in range(3)])
