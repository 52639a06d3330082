"""Field solver model: the panels between two materials cover exactly their interface."""
from lib import *

META = {
    'bounds': ['up to 4 boxes (conductors of up to 2 nets, up to 3 dielectrics), per case up to 4 symbolic coordinates '
               '(plan or height) anywhere within +-60 dbu of the others, so that every order, nesting and contact occurs',
               'any order of the materials; several layers of one net or material on top of and into each other',
               'file output: up to 3 interfaces per net, names of 1..2 printable characters and of 300 characters, any permittivities'],
    'outside': ['shapes with tilted edges', 'different nets touching each other (shorts)',
                "the triangulation itself (KLayout's; any triangulation of the faces is accepted)"],
}
DBU = 0.005


def cases(tier):
    out = []

    def g(name, *layers, **k):
        out.append(dict(name=name, fn='geometry', params=dict(layers=layers, **k)))
    A = (0, 0, 100, 80)
    # kind, box (l, b, r, t), z (from, to); None = symbolic
    g('cond-diel-x', ('+A', A, (0, 50)), ('-m', (None, 10, None, 70), (0, 90)))
    g('cond-diel-x2', ('+A', A, (20, 50)), ('-m', (None, -10, None, 90), (0, 50)))
    g('cond-diel-z', ('+A', A, (20, 50)), ('-m', (-20, -20, 120, 100), (None, None)))
    g('cond-diel-z-in', ('+A', A, (None, None)), ('-m', (-20, 20, 60, 100), (20, 50)))
    g('diel-diel-z', ('-m', A, (20, 50)), ('-n', (-20, 20, 60, 100), (None, None)))
    g('diel-diel-x', ('-m', A, (20, 50)), ('-n', (None, 20, None, 60), (0, 50)))
    g('diel-diel-xz', ('-m', A, (20, None)), ('-n', (None, 20, 130, 60), (0, 50)))
    g('nested-z', ('+A', A, (0, None)), ('-m', (-10, -10, 110, 90), (0, 60)), ('-n', (-20, -20, 120, 100), (0, None)))
    g('nested-z2', ('+A', A, (0, 50)), ('-m', (-10, -10, 110, 90), (0, None)), ('-n', (-20, -20, 120, 100), (None, 70)))
    g('nested-x', ('+A', A, (0, 50)), ('-m', (-10, -10, None, 90), (0, 60)), ('-n', (-20, -20, None, 100), (0, 70)))
    g('three-diel-z', ('-m', A, (0, None)), ('-n', (-10, -10, 110, 90), (None, 60)), ('-o', (-20, -20, 120, 100), (0, 60)))
    g('via-z', ('+A', A, (0, 50)), ('+A', (20, 20, 40, 40), (None, None)), ('-m', (-10, -10, 110, 90), (0, 90)))
    g('via-x', ('+A', A, (0, 50)), ('+A', (None, 20, None, 40), (50, 90)), ('-m', (-10, -10, 110, 90), (50, 70)))
    g('two-nets', ('+A', A, (0, 50)), ('+B', (None, 20, None, 40), (60, 90)), ('-m', (-10, -10, 110, 90), (0, 75)))
    g('two-nets-z', ('+A', A, (0, 50)), ('+B', (120, 20, 160, 40), (None, None)), ('-m', (-10, -10, 140, 90), (0, 75)))
    g('over-each-other', ('-m', A, (0, None)), ('-m', (20, 20, 140, 60), (None, 70)), ('-n', (-20, -20, 160, 100), (0, 90)))
    g('conds-over-each-other', ('+A', A, (0, None)), ('+A', (20, 20, 140, 60), (None, 70)), ('-n', (-20, -20, 160, 100), (0, 90)))
    g('pyramid', ('-m', A, (0, 90)), ('-m', (20, 20, 140, 60), (None, 70)), ('-m', (40, 0, 60, 100), (30, None)))
    g('sidewall', ('+A', A, (20, 60)), ('-m', (-10, -10, 110, 90), (20, None)), ('-n', (-20, -20, 120, 100), (0, None)),
      ('-n', (-10, -10, 110, 90), (None, 90)))
    if tier != 'quick':
        g('cond-diel-xx-zz', ('+A', A, (20, 50)), ('-m', (None, -10, None, 70), (None, None)))
        g('diel-diel-xx-zz', ('-m', A, (20, 50)), ('-n', (None, -10, None, 70), (None, None)))
        g('nested-xz', ('+A', A, (0, None)), ('-m', (-10, -10, None, 90), (0, 60)), ('-n', (-20, -20, None, 100), (0, None)))
        g('xy', ('+A', A, (0, 50)), ('-m', (None, None, None, None), (0, 60)))
        g('three-z', ('+A', A, (None, None)), ('-m', (-10, -10, 110, 90), (None, None)), ('-n', (-20, -20, 120, 100), (0, 50)))
    for n, extra in (('one', [('m', 1)]), ('two', [('m', 2), (None, 1)]), ('three', [('m', 1), (None, 1), ('n', 2)])):
        for second in (False, True):
            out.append(dict(name='files-%s%s' % (n, '-second' if second else ''), fn='files', params=dict(outs=extra, second=second)))
    out.append(dict(name='files-long', fn='long_names', params={}))
    out.append(dict(name='reference-points', fn='refpoints', params={}))
    out.append(dict(name='heights', fn='heights', params={}))
    return out


def build(c, layers):
    """-> builder, concrete specification [(name, box, z0, z1)]"""
    G = c.mod('klayout_pex.fastercap.fastercap_model_generator')
    b = G.FasterCapModelBuilder(dbu=DBU, k_void=3.5, delaunay_amax=0.0, delaunay_b=0.5)
    n = [0]

    def co(v, lo, hi):
        if v is not None:
            return v
        n[0] += 1
        return c.int('c%d' % n[0], lo, hi)
    spec = []
    mats = []
    for name, box, z in layers:
        if name[0] == '-' and name[1:] not in mats:
            mats.append(name[1:])
    for i, m in enumerate(sorted(mats)):
        b.add_material(m, 2.0 + i)
    for name, (l, bo, r, t), (z0, z1) in layers:
        l, r = co(l, -60, 160), co(r, -60, 160)
        bo, t = co(bo, -60, 140), co(t, -60, 140)
        z0, z1 = co(z0, -20, 110), co(z1, -20, 110)
        c.assume(c.all([l < r, bo < t, z0 < z1]))
        spec.append((name, (l, bo, r, t), z0, z1))
    for i, s in enumerate(spec):
        for o in spec[:i]:
            if s[0][0] == o[0][0] == '+' and s[0] != o[0]:
                c.assume(c.any([s[1][0] > o[1][2], o[1][0] > s[1][2], s[1][1] > o[1][3], o[1][1] > s[1][3], s[2] > o[3], o[2] > s[3]]))
    for name, box, z0, z1 in spec:
        r = c.kdb.Region(c.kdb.Box(*box))
        f = b.add_conductor if name[0] == '+' else b.add_dielectric
        f(name[1:], r, z0 * DBU, (z1 - z0) * DBU)
    return b, spec


def uniq(c, xs):
    """sorted distinct values"""
    out = []
    for x in xs:
        for i, y in enumerate(out):
            if bool(c.eq(x, y)):
                break
            if bool(x < y):
                out.insert(i, x)
                break
        else:
            out.append(x)
    return out


def index(c, xs, v):
    for i, x in enumerate(xs):
        if bool(c.eq(x, v)):
            return i
    return None


def grid_faces(c, spec):
    """-> grid, {(material below/left, material above/right): set of (axis, i, j, k)} for neighbouring cells of different material"""
    grid = [uniq(c, [q for s in spec for q in (s[1][0], s[1][2])]), uniq(c, [q for s in spec for q in (s[1][1], s[1][3])]),
            uniq(c, [q for s in spec for q in (s[2], s[3])])]
    idx = []
    for name, b, z0, z1 in spec:
        idx.append((name, [index(c, grid[0], b[0]), index(c, grid[1], b[1]), index(c, grid[2], z0)],
                    [index(c, grid[0], b[2]), index(c, grid[1], b[3]), index(c, grid[2], z1)]))
    names = []
    for s in spec:
        if s[0][0] == '+' and s[0] not in names:
            names.append(s[0])
    names += sorted({s[0] for s in spec if s[0][0] == '-'})

    def at(cell):
        if any(q < 0 for q in cell):
            return None
        for n in names:
            for m, lo, hi in idx:
                if m == n and all(lo[a] <= cell[a] < hi[a] for a in range(3)):
                    return n
        return None
    faces = {}
    N = [len(g) for g in grid]
    for i in range(N[0]):
        for j in range(N[1]):
            for k in range(N[2]):
                for ax in range(3):
                    p = [i, j, k]
                    q = list(p)
                    q[ax] -= 1
                    lo, hi = at(q), at(p)
                    if lo != hi:
                        faces.setdefault((lo, hi), set()).add((ax, i, j, k))
    return grid, faces


def coord(c, v):
    """a coordinate in database units"""
    v = v / DBU
    if not c.sym:
        r = round(v)
        return r if abs(r - v) < 1e-6 else v
    return v


def rectangles(c, tris):
    """-> [(axis, plane, (u0, v0, u1, v1), sign of the normal)] and a flag: they are covered exactly once"""
    pts = [[[coord(c, q) for q in (p.x, p.y, p.z)] for p in (t.p0, t.p1, t.p2)] for t in tris]

    def plane(t):
        for ax in range(3):
            if bool(c.all([c.eq(t[0][ax], t[1][ax]), c.eq(t[0][ax], t[2][ax])])):
                return ax
        return None

    def normal(t, ax):
        u, v = [(1, 2), (2, 0), (0, 1)][ax]
        return (t[1][u] - t[0][u]) * (t[2][v] - t[0][v]) - (t[1][v] - t[0][v]) * (t[2][u] - t[0][u])
    out = []
    if c.sym:
        i = 0
        while i < len(pts):
            if i + 1 >= len(pts):
                return out, False
            a, b = pts[i], pts[i + 1]
            ax = plane(a)
            if ax is None or plane(b) != ax or not bool(c.eq(a[0][ax], b[0][ax])):
                return out, False
            u, v = [(1, 2), (2, 0), (0, 1)][ax]
            us, vs = uniq(c, [q[u] for q in a + b]), uniq(c, [q[v] for q in a + b])
            corners = {(index(c, us, q[u]), index(c, vs, q[v])) for q in a} , {(index(c, us, q[u]), index(c, vs, q[v])) for q in b}
            if len(us) != 2 or len(vs) != 2 or len(corners[0]) != 3 or len(corners[1]) != 3 or len(corners[0] & corners[1]) != 2 or \
                    {sum(x) % 2 for x in corners[0] & corners[1]} == {0, 1}:
                return out, False

            def sign(t):
                # orientation of a half box from its corner sequence
                w = [(index(c, us, q[u]), index(c, vs, q[v])) for q in t]
                return 1 if (w[1][0] - w[0][0]) * (w[2][1] - w[0][1]) - (w[1][1] - w[0][1]) * (w[2][0] - w[0][0]) > 0 else -1
            sa, sb = sign(a), sign(b)
            if sa != sb:
                return out, False
            out.append((ax, a[0][ax], (us[0], vs[0], us[1], vs[1]), sa))
            i += 2
        return out, True
    planes = {}
    for t in pts:
        ax = plane(t)
        n = normal(t, ax) if ax is not None else 0
        if not n or any(q != int(q) for p in t for q in p):
            return out, False
        planes.setdefault((ax, t[0][ax], 1 if n > 0 else -1), []).append(t)
    k = c.kdb
    for (ax, pl, sg), ts in planes.items():
        u, v = [(1, 2), (2, 0), (0, 1)][ax]
        r = k.Region()
        total = 0
        for t in ts:
            q = k.Polygon([k.Point(int(p[u]), int(p[v])) for p in t])
            total += q.area2() if hasattr(q, 'area2') else 2 * q.area()
            r.insert(q)
        r.merge()
        if total != 2 * r.area():
            return out, False
        for q in r.each():
            for d in q.decompose_trapezoids():
                b = d.bbox()
                if b.area() * 2 != d.area2():
                    return out, False
                out.append((ax, pl, (b.left, b.bottom, b.right, b.top), sg))
    return out, True


def geometry(c, p):
    b, spec = build(c, p['layers'])
    gen = b.generate()
    grid, faces = grid_faces(c, spec)
    found = {}
    ok = True
    L = 'the panels between two materials cover exactly their interface, once, facing the outer one'
    count = 0

    def nm(x, pre):
        return None if x is None else pre + c.text(x)
    data = [(nm(k.outside, '-'), nm(k.inside, '-'), v) for k, v in gen.diel_data.items()] + \
        [(nm(k.outside, '-'), '+' + c.text(k.net_name), v) for k, v in gen.cond_data.items()]
    area = 0
    for outside, inside, tris in data:
        rects, whole = rectangles(c, list(tris))
        c.check(whole, L)
        for ax, pl, (u0, v0, u1, v1), sg in rects:
            u, v = [(1, 2), (2, 0), (0, 1)][ax]
            ix = [index(c, grid[ax], pl), index(c, grid[u], u0), index(c, grid[v], v0), index(c, grid[u], u1), index(c, grid[v], v1)]
            c.check(None not in ix, L)
            # the normal points to the outer material
            pair = (inside, outside) if sg > 0 else (outside, inside)
            for i in range(ix[1], ix[3]):
                for j in range(ix[2], ix[4]):
                    f = [0, 0, 0]
                    f[ax], f[u], f[v] = ix[0], i, j
                    s = found.setdefault(pair, set())
                    f = (ax,) + tuple(f)
                    c.check(f not in s, L)
                    s.add(f)
                    count += 1
    c.check({k: v for k, v in found.items() if v} == faces, L)
    c.observe('faces', count)
    # the same geometry as STL: every closed surface again
    for n in gen.net_names:
        mine = gen._collect_cond_tris(n)
        want = sum(len(v) for v in [d[2] for d in data if d[1] == '+' + c.text(n)])
        c.check(len(list(mine)) == want, 'the surface of a net consists of all its panels')


def heights(c, p):
    """heights given in µm end up on the database grid"""
    G = c.mod('klayout_pex.fastercap.fastercap_model_generator')
    z, h = c.int('z', -2000, 9000), c.int('h', 1, 9000)
    b = G.FasterCapModelBuilder(dbu=DBU, k_void=1.0)
    b.add_material('m', 2.0)
    f = b.add_conductor if c.flag('conductor') else b.add_dielectric
    f('m', c.kdb.Region(c.kdb.Box(0, 0, 40, 60)), z * DBU, h * DBU)
    gen = b.generate()
    tris = [t for d in (gen.diel_data, gen.cond_data) for v in d.values() for t in v]
    zs = [z, z + h]
    lo = hi = 0
    for t in tris:
        for q in (t.p0, t.p1, t.p2):
            v = coord(c, q.z)
            c.check(c.any([c.eq(v, z), c.eq(v, z + h)]), 'a layer lies between the heights given')
    c.check(len(tris) >= 12, 'a layer has six faces')
    E = G.FasterCapModelBuilder(dbu=DBU, k_void=1.0)
    c.check(E.generate() is None, 'no layers, no model')
    try:
        E.add_dielectric('x', c.kdb.Region(c.kdb.Box(0, 0, 40, 60)), 0.0, 1.0)
        c.check(False, 'unknown materials are rejected')
    except ValueError:
        pass


class Os:
    class path:
        @staticmethod
        def join(*a):
            r = a[0]
            for x in a[1:]:
                r = r + '/' + x
            return r

    @staticmethod
    def pathconf(p, n):
        return 255


def generator(c, mats, nets):
    import vfs
    G = c.mod('klayout_pex.fastercap.fastercap_model_generator')
    fs = vfs.FS(c)
    G.open = fs.open
    G.os = Os
    gen = G.FasterCapModelGenerator(dbu=0.001, k_void=c.real('kv', 1, 100), delaunay_amax=0.0, delaunay_b=0.5, materials=mats, net_names=nets)
    return G, gen, fs


def some(c, G, n, base):
    """n panels; base makes them distinguishable"""
    P = G.Point
    return [G.Triangle(P(base + i * 1.0, 0.0, 0.0), P(base + i * 1.0, 1.5, 0.0), P(base + i * 1.0 + 1.0, 0.0, 0.0)) for i in range(n)]


def words(c, line):
    return [w for w in line.split(' ') if not bool(c.eq(w, ''))]


def geo(c, fs, fn, label):
    """-> panels [(number, [9 coordinates])], names [(number, name)]"""
    c.check(fn in fs.files, label)
    ls = fs.lines(fn)
    c.check(c.text(ls[0]).startswith('0'), 'a geometry file starts with its title')
    pan, ren = [], []
    for l in ls[1:]:
        w = words(c, l)
        if c.text(w[0]) == 'T':
            c.check(len(w) == 14, 'a panel has three corners and a reference point')
            pan.append((c.text(w[1]), [c.num(x) for x in w[2:]]))
        else:
            c.check(c.text(w[0]) == 'N' and len(w) == 3, 'only panels and one rename rule')
            ren.append((c.text(w[1]), c.text(w[2])))
    return pan, ren


def files(c, p):
    mats = {'m': c.real('km', 1, 100), 'n': c.real('kn', 1, 100)}
    names = [c.str('net0', 1, exclude=' /'), c.str('net1', 2, exclude=' /')]
    G, gen, fs = generator(c, mats, names)
    kv = gen.k_void
    base = 0
    diel = [(None, 'm', 2), ('m', 'n', 1), ('n', None, 1), ('n', 'm', 0)]
    cond = [(names[0], o, k) for o, k in p['outs']]
    if p['second']:
        cond = [(names[1], 'n', 1)] + cond[:1] + [(names[1], None, 1), (names[1], 'm', 0)] + cond[1:]
    expect = {}
    for o, i, k in diel:
        gen.diel_data[G.HDielKey(o, i)] = some(c, G, k, base)
        base += 10
    for n, o, k in cond:
        gen.cond_data[G.HCondKey(n, o)] = some(c, G, k, base)
        base += 10
    lst = gen.write_fastcap('out', 'pre_')
    c.check(c.eq(lst, 'out/pre_.lst'), 'the list file carries the prefix')
    kof = lambda o: kv if o is None else mats[o]
    got_d, got_c, seen, plus = [], [], [], None
    for l in fs.lines(lst):
        w = words(c, l)
        t = c.text(w[0])
        if t.startswith('*'):
            continue
        c.check(t in ('D', 'C'), 'only dielectric and conductor lines')
        fn = c.text(w[1])
        c.check(fn not in seen, 'every interface has a file of its own')
        seen.append(fn)
        pan, ren = geo(c, fs, 'out/' + fn, 'every file listed exists next to the list')
        for q in range(3):
            off = 4 if t == 'D' else 3
            c.check(c.num(w[off + q]) == 0, 'no offset')
        if t == 'D':
            c.check(not ren, 'dielectric surfaces are not renamed')
            got_d.append((c.num(w[2]), c.num(w[3]), pan))
        else:
            more = len(w) > 6 and bool(c.eq(w[6], '+'))
            got_c.append((c.num(w[2]), pan, ren, more))
    want_d = [(kof(o), kof(i), gen.diel_data[G.HDielKey(o, i)]) for o, i, k in diel if k]
    c.check(len(got_d) == len(want_d), 'one entry per dielectric interface with panels')
    for ko, ki, pan in got_d:
        m = [x for x in want_d if bool(c.eq(x[2][0].p0.x, pan[0][1][0]))]
        c.check(len(m) == 1, 'each dielectric interface once')
        c.check(c.all([c.eq(ko, m[0][0]), c.eq(ki, m[0][1])]), 'a dielectric interface has the permittivity of its outer and inner material')
        panels(c, pan, m[0][2])
    # conductors
    want_c = [(n, kof(o), gen.cond_data[G.HCondKey(n, o)]) for n, o, k in cond if k]
    c.check(len(got_c) == len(want_c), 'one entry per conductor interface with panels')
    numbers = {}
    group = []
    for k, pan, ren, more in got_c:
        m = [x for x in want_c if bool(c.eq(x[2][0].p0.x, pan[0][1][0]))]
        c.check(len(m) == 1, 'each conductor interface once')
        c.check(c.eq(k, m[0][1]), 'a conductor interface has the permittivity of its outer material')
        panels(c, pan, m[0][2])
        nums = {a for a, _ in pan}
        c.check(len(nums) == 1, 'all panels of a file belong to one conductor')
        group.append((m[0][0], nums.pop()))
        c.check(all(bool(c.eq(g[0], group[0][0])) and g[1] == group[0][1] for g in group), 'only surfaces of one net are joined, under one number')
        if more:
            c.check(not ren, 'the conductor is named once')
            continue
        c.check(len(ren) == 1 and ren[0][0] == group[0][1] and bool(c.eq(ren[0][1], group[0][0])), 'a conductor is named after its net')
        total = len([x for x in want_c if bool(c.eq(x[0], group[0][0]))])
        c.check(len(group) == total, 'all surfaces of a net are joined to one conductor')
        c.check(group[0][1] not in numbers, 'conductor numbers are unique')
        numbers[group[0][1]] = True
        group = []
    c.check(not group, 'the last surface ends its conductor')


def panels(c, pan, tris):
    c.check(len(pan) == len(tris), 'every panel is written')
    for (n, v), t in zip(pan, tris):
        for a, q in zip((0, 3, 6), (t.p0, t.p1, t.p2)):
            for k, x in enumerate((q.x, q.y, q.z)):
                c.check_close(v[a + k], x, 'panels keep their corners')


def long_names(c, p):
    mats = {'m': 2.0}
    k = c.choice('length', [30, 180, 254, 300])
    a, b = 'a' * k + 'X', 'a' * k + 'Y'
    G, gen, fs = generator(c, mats, [a, b])
    for i, (n, o) in enumerate([(a, None), (a, 'm'), (b, None), (b, 'm')]):
        gen.cond_data[G.HCondKey(n, o)] = some(c, G, 1, i * 10)
    lst = gen.write_fastcap('out', 'cell_')
    fns = [c.text(words(c, l)[1]) for l in fs.lines(lst) if c.text(l).startswith('C')]
    c.check(len(fns) == 4 and len(set(fns)) == 4, 'every interface has a file of its own')
    for f in fns:
        c.check(len(f) <= 255, 'file names fit into the file system')
        c.check('out/' + f in fs.files, 'every file listed exists next to the list')
    named = []
    for f in fns:
        named += geo(c, fs, 'out/' + f, 'every file listed exists next to the list')[1]
    c.check([x[1] for x in named] == [a, b], 'a conductor is named after its net')


def refpoints(c, p):
    """the reference point of a panel lies on the side its normal points to"""
    G = c.mod('klayout_pex.fastercap.fastercap_model_generator')
    ax = c.choice('axis', [0, 1, 2])
    u, v = [(1, 2), (2, 0), (0, 1)][ax]
    side = c.choice('side', [1, -1])
    w, h, at = c.real('w', 0.01, 50), c.real('h', 0.01, 50), c.real('at', -50, 50)

    def P(a, b):
        q = [0.0, 0.0, 0.0]
        q[ax], q[u], q[v] = at, a, b
        return G.Point(*q)
    t = [P(0.0, 0.0), P(w, 0.0), P(0.0, h)]
    if side < 0:
        t.reverse()
    r = G.Triangle(*t).outside_reference_point()
    q = (r.x, r.y, r.z)
    c.check_close(q[ax] - at, float(side), 'the reference point lies outside, at a distance')
