"""The marker report: every parasitic once, under its layers and nets, at its place and with its value."""
from sidelib import *

META = {
    'bounds': ['up to 3 reported overlaps, sidewalls or fringes over 2 layer pairs, net names of one symbolic character, any capacitance, any coordinates',
               'requests with up to 2 pins, devices with up to 2 terminals, 2 layer regions; result networks of 3 nodes (points and boxes) and up to 2 resistors of any value',
               'places: pairs of conductors on all four sides of each other, any distances, and a conductor with a hole, from the real extraction'],
    'outside': ['writing the database (KLayout)', 'the debugging aids (edge neighbourhoods) and the technology dump', 'the shape of the connection drawn for a resistor (only its ends are checked)'],
}
DBU = 0.005


def cases(tier):
    n = 2 if tier == 'quick' else 3
    out = [dict(name='%s-%d' % (k, i), fn=k, params=dict(n=i)) for k in ('overlap', 'sidewall', 'fringe') for i in range(1, n + 1)]
    out += [dict(name='mixed', fn='mixed', params={}), dict(name='request', fn='request', params={}), dict(name='net-request', fn='netreq', params={}),
            dict(name='tech', fn='rtech', params={})]
    out += [dict(name='network-%d' % i, fn='network', params=dict(n=i)) for i in (1, 2)]
    for s in SIDES:
        out.append(dict(name='place-sidewall-' + s, fn='pl_side', params=dict(side=s)))
        out.append(dict(name='place-fringe-' + s, fn='pl_fringe', params=dict(side=s)))
    for s in ('above', 'right'):
        out.append(dict(name='place-hole-' + s, fn='pl_hole', params=dict(side=s)))
    out.append(dict(name='place-shielded', fn='pl_shield', params={}))
    out.append(dict(name='place-overlap', fn='pl_overlap', params={}))
    return out


SIDES = ('above', 'below', 'left', 'right')


# ---------------------------------------------------------------- reading a database

class Cat:
    def __init__(self, c, rep, cat):
        self.name = c.text(cat.name())
        self.items = [val(c, v) for it in rep.each_item_per_category(cat.rdb_id()) for v in it.each_value() if shape(c, v)]
        self.sub = [Cat(c, rep, x) for x in cat.each_sub_category()]
        self.seen = False
        self.want = []

    def __repr__(self):
        return '%s %s %s' % (self.name, self.items, self.sub)


def shape(c, v):
    return True if c.sym else v.is_polygon() or v.is_edge()


def val(c, v):
    if c.sym:
        return v.kind, v.pts
    if v.is_polygon():
        return 'polygon', [(q.x, q.y) for q in v.polygon().each_point_hull()]
    return 'edge', [(v.edge().p1.x, v.edge().p1.y), (v.edge().p2.x, v.edge().p2.y)]


class Num:
    def __init__(self, v, tol=0.00051):
        self.v, self.tol = v, tol


def fits(c, text, want):
    """text against a text or a list of texts and numbers"""
    if not isinstance(want, list):
        return bool(c.eq(text, want))
    rest = text
    for i, w in enumerate(want):
        if not isinstance(w, Num):
            if not bool(rest.startswith(w)):
                return False
            rest = rest[len(w):]
            continue
        if i + 1 < len(want):
            num, sep, tail = rest.partition(want[i + 1])
            if not sep:
                return False
            rest = want[i + 1] + tail
        else:
            num, rest = rest, ''
        try:
            v = c.num(num)
        except ValueError:
            return False
        if not bool(c.all([v - w.v <= w.tol, w.v - v <= w.tol])):
            return False
    return len(c.text(rest)) == 0


def near(c, a, b):
    return c.all([a - b <= 1e-7, b - a <= 1e-7])


def same_shape(c, got, want):
    kind, pts = want
    if got[0] != kind:
        return False
    if kind == 'ends':
        return False
    if len(got[1]) != len(pts):
        return False
    n = len(pts)
    alts = []
    for rev in (False, True):
        q = pts[::-1] if rev else pts
        for k in range(n):
            alts.append(c.all([near(c, g[j], w[j]) for g, w in zip(got[1], q[k:] + q[:k]) for j in (0, 1)]))
    return c.any(alts)


def covers(c, got, want):
    """a drawn connection reaches both ends"""
    t = 6 * DBU
    parts = []
    for j in (0, 1):
        g, w = [q[j] for q in got[1]], [q[j] for q in want]
        parts += [c.any([x <= y + t for x in g]) for y in w] + [c.any([x >= y - t for x in g]) for y in w]
        parts += [c.any([x >= y - t for y in w]) for x in g] + [c.any([x <= y + t for y in w]) for x in g]
    return c.all(parts)


def compare(c, report, want, cell):
    """want: list of (path, shapes); every category and item of the database is accounted for"""
    cells = [x for x in report.each_cell()]
    c.check(len(cells) == 1 and bool(c.eq(c.text(cells[0].name()), cell)), 'the report is about the extracted cell')
    roots = [Cat(c, report, x) for x in report.each_category()]
    total = 0
    for path, shapes in want:
        lst = roots
        node = None
        for w in path:
            cand = [x for x in lst if fits(c, x.name, w)]
            c.check(len(cand) == 1, 'every reported object is found under its layers, nets and value')
            node = cand[0]
            node.seen = True
            lst = node.sub
        node.want += shapes
        total += len(shapes)

    def walk(nodes):
        k = 0
        for x in nodes:
            c.check(x.seen or (x.name in ('Pins', 'Devices', 'Params', 'Terminals') and not x.items and not x.sub), 'nothing else is reported')
            c.check(len(x.items) == len(x.want), 'every shape is reported once')
            k += len(x.items)
            left = list(x.items)
            for w in x.want:
                hit = [g for g in left if bool(same_shape(c, g, w) if w[0] != 'ends' else covers(c, g, w[1]))]
                c.check(len(hit) > 0, 'shapes are reported at their place')
                left.remove(hit[0])
            k += walk(x.sub)
        return k
    c.check(walk(roots) == total, 'every shape is reported once')
    c.check(report.num_items() == total, 'every item belongs to a category')


def um(b):
    """the corners of a box in micrometres"""
    l, b_, r, t = [v * DBU for v in b]
    return 'polygon', [(l, b_), (l, t), (r, t), (r, b_)]


def edge(a, b):
    return 'edge', [(a[0] * DBU, a[1] * DBU), (b[0] * DBU, b[1] * DBU)]


def reporter(c):
    R = c.mod('klayout_pex.rcx25.extraction_reporter').ExtractionReporter
    return R('TOP', DBU)


class Count(list):
    def of(self, c, key):
        """how often the key has been seen, including now"""
        n = 1 + len([k for k in self if all(bool(c.eq(a, b)) for a, b in zip(k, key))])
        self.append(key)
        return n


LP = [('met2', 'met1'), ('met3', 'met1')]


def sbox(c, name, k):
    x, y = c.int(name + 'x', -1000, 1000), c.int(name + 'y', -1000, 1000)
    return (x, y, x + 10 + k, y + 7 + 2 * k)


def name(c, n):
    return c.str(n, 1, 65, 70)


def overlap(c, p):
    rep = reporter(c)
    want, cnt = [], Count()
    for i in range(p['n']):
        add_overlap(c, rep, want, cnt, i)
    compare(c, rep.report, want, 'TOP')


def add_overlap(c, rep, want, cnt, i):
    E = c.mod('klayout_pex.rcx25.extraction_results')
    k = c.kdb
    top, bot = c.choice('lp%d' % i, LP)
    nt, nb = name(c, 'nt%d' % i), name(c, 'nb%d' % i)
    v = c.real('cap%d' % i, 0, 1000)
    bb, tb, ob = sbox(c, 'b%d' % i, 0), sbox(c, 't%d' % i, 3), sbox(c, 'o%d' % i, 1)
    r = k.Region()
    r.insert(k.Box(*ob))
    obs = [ob]
    if i == 0 and c.flag('two%d' % i):
        ob2 = tuple(a + b for a, b in zip(ob, (50, 0, 60, 3)))
        r.insert(k.Box(*ob2))
        obs.append(ob2)
    rep.output_overlap(overlap_cap=E.OverlapCap(key=E.OverlapKey(layer_top=top, net_top=nt, layer_bot=bot, net_bot=nb), cap_value=v,
                                                shielded_area=0.0, unshielded_area=0.0, tech_spec=None),
                       bottom_polygon=k.PolygonWithProperties(k.Polygon(k.Box(*bb)), {'net': nb}),
                       top_polygon=k.PolygonWithProperties(k.Polygon(k.Box(*tb)), {'net': nt}), overlap_area=r)
    m = cnt.of(c, (top, nt, bot, nb))
    path = ['[C] Overlap', 'top_layer=' + top, 'bot_layer=' + bot, nt + ' – ' + nb, ['#%d ' % m, Num(v), ' fF']]
    want += [(path + ['Top Polygon'], [um(tb)]), (path + ['Bottom Polygon'], [um(bb)]), (path + ['Overlap Area'], [um(o) for o in obs])]


def sidewall(c, p):
    rep = reporter(c)
    want, cnt = [], Count()
    for i in range(p['n']):
        add_sidewall(c, rep, want, cnt, i)
    compare(c, rep.report, want, 'TOP')


def add_sidewall(c, rep, want, cnt, i):
    E = c.mod('klayout_pex.rcx25.extraction_results')
    k = c.kdb
    l = c.choice('layer%d' % i, ['met1', 'met2'])
    a, b = name(c, 'a%d' % i), name(c, 'b%d' % i)
    v, ln, d = c.real('cap%d' % i, 0, 1000), c.real('len%d' % i, 0, 1000), c.real('dist%d' % i, 0, 10)
    e1, e2 = sbox(c, 'e%d' % i, i), sbox(c, 'f%d' % i, 2 + i)
    P = k.Point
    rep.output_sidewall(sidewall_cap=E.SidewallCap(key=E.SidewallKey(layer=l, net1=a, net2=b), cap_value=v, distance=d, length=ln, tech_spec=None),
                        inside_edge=k.Edge(P(e1[0], e1[1]), P(e1[2], e1[1])), outside_edge=k.Edge(P(e2[2], e2[3]), P(e2[0], e2[3])))
    m = cnt.of(c, (l, a, b))
    want.append((['[C] Sidewall', 'layer=' + l, 'inside=' + a, 'outside=' + b,
                  ['#%d: len ' % m, Num(ln, 0.01), ' µm, distance ', Num(d, 0.01), ' µm, ', Num(v), ' fF']],
                 [edge(e1[:2], (e1[2], e1[1])), edge(e2[2:], (e2[0], e2[3]))]))


def fringe(c, p):
    rep = reporter(c)
    want, cnt = [], Count()
    for i in range(p['n']):
        add_fringe(c, rep, want, cnt, i)
    compare(c, rep.report, want, 'TOP')


def add_fringe(c, rep, want, cnt, i):
    E = c.mod('klayout_pex.rcx25.extraction_results')
    k = c.kdb
    li, lo = c.choice('lp%d' % i, LP + [('met1', 'met2')])
    a, b = name(c, 'a%d' % i), name(c, 'b%d' % i)
    v = c.real('cap%d' % i, 0, 1000)
    e1, ob, lb = sbox(c, 'e%d' % i, i), sbox(c, 'o%d' % i, 3), sbox(c, 's%d' % i, 5)
    P = k.Point
    lat = k.Polygon(k.Box(*lb)) if c.flag('lateral%d' % i) else None
    rep.output_sideoverlap(sideoverlap_cap=E.SideOverlapCap(key=E.SideOverlapKey(layer_inside=li, net_inside=a, layer_outside=lo, net_outside=b), cap_value=v),
                           inside_edge=k.Edge(P(e1[0], e1[1]), P(e1[0], e1[3])), outside_polygon=k.Polygon(k.Box(*ob)), lateral_shield=lat)
    m = cnt.of(c, (li, a, lo, b))
    path = ['[C] Fringe / Side Overlap', 'inside_layer=' + li, 'inside_net=' + a, 'outside_layer=' + lo, 'outside_net=' + b, ['#%d: ' % m, Num(v), ' fF']]
    want.append((path + ['Inside Edge'], [edge(e1[:2], (e1[0], e1[3]))]))
    want.append((path + ['Outside Polygon'], [um(ob)]))
    if lat is not None:
        want.append((path + ['Lateral Shield'], [um(lb)]))


def mixed(c, p):
    """the kinds do not disturb each other"""
    rep = reporter(c)
    want, cnts = [], [Count(), Count(), Count()]
    fs = [add_overlap, add_sidewall, add_fringe]
    first = c.choice('first', [0, 1, 2])
    order = fs[first:] + fs[:first]

    class Sub:
        """names of one call"""
        def __init__(self, pre):
            self.pre = pre

        def __getattr__(self, n):
            f = getattr(c, n)
            return (lambda nm, *a, **k: f(self.pre + nm, *a, **k)) if n in ('int', 'real', 'choice', 'str', 'flag') else f
    for j, f in enumerate(order):
        f(Sub('k%d' % j), rep, want, cnts[fs.index(f)], 0)
    compare(c, rep.report, want, 'TOP')


# ---------------------------------------------------------------- resistance request and result

LAYERS = {4: 'met1', 7: 'met2'}


def new_request(c):
    return c.pb('request.pex_request').RExtractionRequest()


def fill_pin(c, q, i, want, root):
    q.label, q.net_name = name(c, 'label%d' % i), name(c, 'pnet%d' % i)
    q.layer.id = 4
    q.layer.canonical_layer_name = c.choice('pl%d' % i, ['met1', 'met2'])
    x, y = c.int('px%d' % i, -1000, 1000), c.int('py%d' % i, -1000, 1000)
    q.label_point.x, q.label_point.y = x, y
    if c.flag('pn%d' % i):
        q.label_point.net = q.net_name
    want.append((root + [q.label + ' (net ' + q.net_name + ' on layer ' + q.layer.canonical_layer_name + ')', 'label point'], [um((x - 5, y - 5, x + 5, y + 5))]))


def fill_region(c, reg, tag, n, net=None):
    out = []
    for i in range(n):
        b = sbox(c, '%s.%d' % (tag, i), 2 * i)
        p = reg.polygons.add()
        if net is not None:
            p.net = net
        for x, y in ((b[0], b[1]), (b[0], b[3]), (b[2], b[3]), (b[2], b[1])):
            q = p.hull_points.add()
            q.x, q.y = x, y
        out.append(um(b))
    return out


def fill_terminal(c, t, tag, want, root):
    t.name, t.net_name = c.choice(tag + 'name', ['D', 'G']), name(c, tag + 'net')
    for j in range(2 if c.flag(tag + 'two') else 1):
        r = t.region_by_layer.add()
        r.layer.canonical_layer_name = ['met1', 'met2'][j]
        w = fill_region(c, r.region, tag + 'r%d' % j, 1 + j)
        want.append((root + [t.name + ': net ' + t.net_name + ', layer ' + r.layer.canonical_layer_name], w))


def request(c, p):
    rep = reporter(c)
    rq = new_request(c)
    want = [(['[R] Extraction Request', '[R] Extraction Tech', 'Skip simplify: False'], []), (['[R] Extraction Request', '[R] Extraction Tech', 'Conductors'], []),
            (['[R] Extraction Request', '[R] Extraction Tech', 'Vias'], [])]
    kind = c.choice('kind', ['pins', 'devices'])
    if kind == 'pins':
        for i in range(2):
            fill_pin(c, rq.pins.add(), i, want, ['[R] Extraction Request', 'Pins'])
    else:
        d = rq.devices.add()
        d.device_name, d.device_class_name = name(c, 'dn'), 'NMOS'
        root = ['[R] Extraction Request', 'Devices', d.device_name + ': NMOS']
        q = d.parameters.add()
        q.name, q.value = 'W', c.real('w', 0, 100)
        want += [(root + ['Params', ['W: ', Num(q.value)]], [])]
        for j in range(2):
            fill_terminal(c, d.terminals.add(), 't%d' % j, want, root + ['Terminals'])
    rep.output_rex_request(rq)
    compare(c, rep.report, want, 'TOP')


def netreq(c, p):
    rep = reporter(c)
    rq = new_request(c)
    want = [(['[R] Extraction Request', '[R] Extraction Tech', 'Skip simplify: False'], []), (['[R] Extraction Request', '[R] Extraction Tech', 'Conductors'], []),
            (['[R] Extraction Request', '[R] Extraction Tech', 'Vias'], [])]
    names = []
    for i in range(2):
        r = rq.net_extraction_requests.add()
        r.net_name = name(c, 'net%d' % i)
        for o in names:
            c.assume(c.not_(c.eq(o, r.net_name)))
        names.append(r.net_name)
        root = ['[R] Extraction Request', 'Network Extraction Request', 'Net ' + r.net_name]
        want += [(root + [k], []) for k in ('Pins', 'Device Terminals', 'Layer Regions')]
        if i == 0:
            fill_pin(c, r.pins.add(), i, want, root + ['Pins'])
            fill_terminal(c, r.device_terminals.add(), 't%d' % i, want, root + ['Device Terminals'])
        else:
            for j, l in enumerate(('met1', 'met2')):
                x = r.region_by_layer.add()
                x.layer.canonical_layer_name = l
                want.append((root + ['Layer Regions', 'Layer ' + l], fill_region(c, x.region, 'lr%d%d' % (i, j), 1 + j, net=r.net_name if j else None)))
    rep.output_rex_request(rq)
    compare(c, rep.report, want, 'TOP')


def rtech(c, p):
    rep = reporter(c)
    rq = new_request(c)
    root = ['[R] Extraction Request', '[R] Extraction Tech']
    rq.tech.skip_simplify = c.flag('skip')
    want = [(root + ['Skip simplify: ' + ('True' if rq.tech.skip_simplify else 'False')], [])]
    for i, (lid, l) in enumerate(LAYERS.items()):
        k = rq.tech.conductors.add()
        k.layer.id, k.layer.canonical_layer_name, k.layer.lvs_layer_name = lid, l, l + '_con'
        k.resistance = c.real('r%d' % i, 0, 1e5)
        want.append((root + ['Conductors', ['%d: %s (LVS %s_con), ' % (lid, l, l), Num(k.resistance), ' mΩ/µm^2']], []))
    v = rq.tech.vias.add()
    v.layer.id, v.layer.canonical_layer_name, v.layer.lvs_layer_name = 11, 'via', 'via_con'
    rev = c.flag('rev')
    v.bottom_conductor.id, v.top_conductor.id = (7, 4) if rev else (4, 7)
    v.resistance = c.real('rv', 0, 1e5)
    want.append((root + ['Vias', ['11: via (LVS via_con, %s↔︎%s), ' % (('met2', 'met1') if rev else ('met1', 'met2')), Num(v.resistance), ' mΩ/µm^2']], []))
    rep.output_rex_request(rq)
    compare(c, rep.report, want, 'TOP')


def network(c, p):
    rep = reporter(c)
    RS = c.pb('result.pex_result').RExtractionResult
    LK = c.pb('layout.location').Location.Kind
    rs = RS()
    want, names = [], []
    for ni in range(p['n']):
        nw = rs.networks.add()
        nw.net_name = name(c, 'net%d' % ni)
        for o in names:
            c.assume(c.not_(c.eq(o, nw.net_name)))
        names.append(nw.net_name)
        root = ['[R] Extraction Result', 'Networks', 'Net ' + nw.net_name]
        want += [(root + ['Nodes'], []), (root + ['Elements'], [])]
        ids = [c.choice('ids%d' % ni, [3, 0]) if p['n'] == 1 else [0, 3][ni]] + [1, 5]
        ctr, labels, layers = {}, {}, {}
        for j in range(3 if ni == 0 else 2):
            n = nw.nodes.add()
            n.node_id, n.node_name, n.net_name = ids[j], 'N%d' % j, '%sN%d' % ('', j)
            n.layer_name = (c.choice('nl%d%d' % (ni, j), ['met1', 'met2']) if p['n'] == 1 else 'met2') if j == 0 else 'met1'
            x, y = c.int('nx%d%d' % (ni, j), -1000, 1000), c.int('ny%d%d' % (ni, j), -1000, 1000)
            if j == 1:
                n.location.kind = LK.LOCATION_KIND_BOX
                w, h = 2 * c.int('nw%d' % ni, 1, 50), 2 * c.int('nh%d' % ni, 1, 50)
                b = n.location.box
                b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y = x, y, x + w, y + h
                box_ = (x, y, x + w, y + h)
                ctr[ids[j]] = (x + w / 2, y + h / 2)
            else:
                n.location.kind = LK.LOCATION_KIND_POINT
                n.location.point.x, n.location.point.y = x, y
                box_ = (x - 5, y - 5, x + 5, y + 5)
                ctr[ids[j]] = (x, y)
            labels[ids[j]], layers[ids[j]] = n.node_name, n.layer_name
            want.append((root + ['Nodes', n.node_name + ', port net ' + n.net_name + ', layer ' + n.layer_name], [um(box_)]))
        for j in range(2 if ni == 0 else 1):
            e = nw.elements.add()
            e.element_id = j
            a, b = c.choice('ab%d%d' % (ni, j), [(ids[0], ids[1]), (ids[1], ids[0])] + ([(ids[2], ids[0])] if ni == 0 else []) if j == 0 else [(ids[1], ids[2])])
            e.node_a.node_id, e.node_b.node_id = a, b
            e.resistance = c.real('r%d%d' % (ni, j), 0, 1e6)
            t = '%s (%s) ↔︎ %s (%s): ' % (labels[a], layers[a], labels[b], layers[b])
            if bool(e.resistance >= 0.001):
                path = [t, Num(e.resistance), ' Ω']
            else:
                path = [t, Num(e.resistance * 1000, 0.00001), ' mΩ']
            want.append((root + ['Elements', path], [('ends', [(ctr[q][0] * DBU, ctr[q][1] * DBU) for q in (a, b)])]))
    rep.output_rex_result(rs)
    compare(c, rep.report, want, 'TOP')


# ---------------------------------------------------------------- places, from the real extraction

class Rec:
    """records what the extraction reports"""
    def __init__(self):
        self.l = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        # KLayout's objects only live during the call
        cp = lambda x: x.dup() if hasattr(x, 'dup') else x
        return lambda *a, **k: self.l.append((n, [cp(x) for x in a], {q: cp(x) for q, x in k.items()}))


def extract_reported(c, layers, shapes, dbu, halo, sw, ov, so):
    import sidelib
    if c.sym:
        from symx import skdb
        skdb.PLACED = True
    rec = Rec()
    saved = sidelib.Sink
    sidelib.Sink = lambda: rec
    try:
        res = extract(c, layers, shapes, dbu, halo, sw, ov, so, False)
    finally:
        sidelib.Sink = saved
    return res, rec.l


PDBU = 0.05


def pair(c, side, other):
    A = (0, 0, 50, 20)
    g = c.int('g', 1, 38)
    u, w = c.int('u', -30, 80), c.int('w', -30, 80)
    c.assume(w - u >= 3)
    h = c.int('h', 1, 60)
    B = {'above': (u, 20 + g, w, 20 + g + h), 'below': (u, -g - h, w, -g), 'left': (-g - h, u, -g, w), 'right': (50 + g, u, 50 + g + h, w)}[side]
    return [('m1', 'A', A), (other, 'B', B)]


def on_edge_of(c, b, e):
    """the edge lies on a side of the box"""
    l, bo, r, t = b
    (x0, y0), (x1, y1) = e
    h = c.any([c.all([y0 == y1, c.any([y0 == bo, y0 == t]), mn(x0, x1) >= l, mx(x0, x1) <= r])])
    v = c.all([x0 == x1, c.any([x0 == l, x0 == r]), mn(y0, y1) >= bo, mx(y0, y1) <= t])
    return c.any([h, v])


def pts(e):
    return (e.p1.x, e.p1.y), (e.p2.x, e.p2.y)


def arg(call, names, i):
    return call[2].get(names[i], call[1][i] if len(call[1]) > i else None)


def dist1(c, p, q, r, s):
    """gap between the intervals [p, q] and [r, s]"""
    return mx(mx(r - q, p - s), 0)


def pl_side(c, p):
    shapes = pair(c, p['side'], 'm1')
    SWS = {'m1': (17.0, 0.25)}
    res, log = extract_reported(c, [SUB, 'm1'], shapes, PDBU, 2.0, SWS, {}, {})
    by = {n: g for _, n, g in shapes}
    log = [x for x in log if x[0] == 'output_sidewall']
    caps = [e for lst in res.sidewall_table.values() for e in lst]
    c.check(len(log) == len(caps), 'every sidewall capacitance is reported once')
    tot = 0
    for call in log:
        cap, ei, eo = [arg(call, ('sidewall_cap', 'inside_edge', 'outside_edge'), i) for i in range(3)]
        ei, eo = pts(ei), pts(eo)
        n1, n2 = c.text(cap.key.net1), c.text(cap.key.net2)
        c.check(on_edge_of(c, by[n1], ei), 'the inside edge lies on the conductor of the inside net')
        c.check(on_edge_of(c, by[n2], eo), 'the outside edge lies on the conductor of the outside net')
        x = [mn(ei[0][0], ei[1][0]), mx(ei[0][0], ei[1][0]), mn(eo[0][0], eo[1][0]), mx(eo[0][0], eo[1][0])]
        y = [mn(ei[0][1], ei[1][1]), mx(ei[0][1], ei[1][1]), mn(eo[0][1], eo[1][1]), mx(eo[0][1], eo[1][1])]
        if p['side'] in ('above', 'below'):
            x, y = y, x
        c.check(c.all([y[0] == y[2], y[1] == y[3]]), 'both edges face each other')
        c.check_close((y[1] - y[0]) * PDBU, cap.length, 'the length is that of the edges')
        c.check_close(dist1(c, x[0], x[1], x[2], x[3]) * PDBU, cap.distance, 'the distance is that of the edges')
        tot = tot + cap.cap_value
    c.check_close(tot, total(c, [(e.cap_value,) for e in caps], lambda e: True), 'the reported capacitances are the extracted ones')


PLACES_OV = {('m1', SUB): 3.0, ('m2', SUB): 4.0, ('m2', 'm1'): 50.0, ('m3', SUB): 5.0, ('m3', 'm1'): 20.0, ('m3', 'm2'): 70.0}
PLACES_SO = {}
for _i, (_t, _b) in enumerate(PLACES_OV):
    PLACES_SO[_t, _b] = 3000.0 + 100 * _i
    if _b != SUB:
        PLACES_SO[_b, _t] = 6000.0 + 70 * _i


def pl_fringe(c, p):
    fringes(c, pair(c, p['side'], 'm2'), [SUB, 'm1', 'm2'])


def pl_shield(c, p):
    """a conductor in front of the other: the reported shield begins at it"""
    g, h = c.int('g', 2, 12), c.int('h', 14, 36)
    shapes = [('m1', 'A', (0, 0, 50, 20)), ('m1', 'C', (10, 20 + g, 30, 24 + g)), ('m2', 'B', (-10, 21, 45, 20 + h))]
    fringes(c, shapes, [SUB, 'm1', 'm2'])


def pl_hole(c, p):
    """a conductor with a hole beside the other"""
    g, w, h = c.int('g', 1, 8), c.int('w', 1, 20), c.int('h', 1, 12)
    f = [(5, 20 + g, 10, 34 + g + h), (10 + w, 20 + g, 40, 34 + g + h), (10, 20 + g, 10 + w, 26 + g), (10, 26 + g + h, 10 + w, 34 + g + h)]
    if p['side'] == 'right':
        f = [(b[1] + 30, b[0] - 20, b[3] + 30, b[2] - 20) for b in f]
    fringes(c, [('m1', 'A', (0, 0, 50, 20))] + [('m2', 'B', b) for b in f], [SUB, 'm1', 'm2'])


def fringes(c, shapes, layers):
    res, log = extract_reported(c, layers, shapes, PDBU, 2.0, {'m1': (17.0, 0.25), 'm2': (31.0, 0.125)}, PLACES_OV, PLACES_SO)
    log = [x for x in log if x[0] == 'output_sideoverlap']
    caps = [e for lst in res.sideoverlap_table.values() for e in lst]
    c.check(len(log) == len(caps), 'every fringe capacitance is reported once')
    tot = 0
    for call in log:
        cap, ei, po, lat = [arg(call, ('sideoverlap_cap', 'inside_edge', 'outside_polygon', 'lateral_shield'), i) for i in range(4)]
        k = cap.key
        ei = pts(ei)
        ins = [g for l, n, g in shapes if l == c.text(k.layer_inside) and n == c.text(k.net_inside)]
        outs = [g for l, n, g in shapes if l == c.text(k.layer_outside) and n == c.text(k.net_outside)]
        c.check(c.any([on_edge_of(c, g, ei) for g in ins]) if len(ins) == 1 else c.all([c.any([on_edge_of(c, g, (q, q)) for g in ins]) for q in ei]),
                'the inside edge lies on the conductor of the inside net')
        b = po.bbox()
        if len(outs) == 1:
            c.check(c.any([c.all([b.left >= g[0], b.bottom >= g[1], b.right <= g[2], b.top <= g[3]]) for g in outs]), 'the outside polygon lies in a conductor of the outside net')
        else:
            R = c.kdb.Region
            o, q = R(), R()
            q.insert(po)
            for g in outs:
                o.insert(c.kdb.Box(*g))
            c.check(bool((q - o).is_empty()), 'the outside polygon lies in a conductor of the outside net')
        c.check(c.all([b.left < b.right, b.bottom < b.top]), 'the outside polygon has an area')
        horizontal = bool(ei[0][1] == ei[1][1])
        lo, hi = (mn(ei[0][0], ei[1][0]), mx(ei[0][0], ei[1][0])) if horizontal else (mn(ei[0][1], ei[1][1]), mx(ei[0][1], ei[1][1]))
        c.check(c.all([lo <= b.left, b.right <= hi] if horizontal else [lo <= b.bottom, b.top <= hi]), 'the outside polygon faces the inside edge')
        if lat is not None:
            s = lat.bbox()
            c.check(c.any([s.left >= b.right, s.right <= b.left, s.bottom >= b.top, s.top <= b.bottom]), 'the shielded part is not in the reported polygon')
        tot = tot + cap.cap_value
    c.check_close(tot, total(c, [(e.cap_value,) for e in caps], lambda e: True), 'the reported capacitances are the extracted ones')


def pl_overlap(c, p):
    NN = c.mod('klayout_pex.rcx25.extraction_results')
    OX = c.mod('klayout_pex.rcx25.c.overlap_extractor').OverlapExtractor
    l, r = c.int('l', -80, 90), c.int('r', -80, 90)
    c.assume(l < r)
    m0, m1 = c.int('m0', -60, 70), c.int('m1', -60, 70)
    c.assume(m0 < m1)
    shapes = [('m1', 'A', (-10, 0, 60, 30)), ('m2', 'C', (m0, 10, m1, 20)), ('m3', 'B', (l, 5, r, 50))]
    tech = tech_pb(c)
    add_caps(tech, substrates=[('m1', 3.0, 1.0), ('m2', 4.0, 1.0), ('m3', 5.0, 1.0)], overlaps=[('m3', 'm1', 20.0), ('m2', 'm1', 50.0), ('m3', 'm2', 70.0)])
    regs = {SUB: c.kdb.Region()}
    regs[SUB].enable_properties()
    for n in ('m1', 'm2', 'm3'):
        regs[n] = region(c, [(g, net) for q, net, g in shapes if q == n])
    res = NN.CellExtractionResults(cell_name='top')
    rec = Rec()
    OX(all_layer_names=list(regs), layer_regions_by_name=regs, dbu=PDBU, tech_info=tech_info(c, tech), results=res, report=rec).extract()
    log = [x for x in rec.l if x[0] == 'output_overlap']
    caps = [e for lst in res.overlap_table.values() for e in lst]
    c.check(len(log) == len(caps), 'every overlap capacitance is reported once')
    coef = {('m3', 'm1'): 20.0, ('m2', 'm1'): 50.0, ('m3', 'm2'): 70.0}
    for call in log:
        cap, pb, pt, ar = [arg(call, ('overlap_cap', 'bottom_polygon', 'top_polygon', 'overlap_area'), i) for i in range(4)]
        k = cap.key
        lt, lb = c.text(k.layer_top), c.text(k.layer_bot)
        for poly_, l_, n_ in ((pt, lt, c.text(k.net_top)), (pb, lb, c.text(k.net_bot))):
            b = poly_.bbox()
            c.check(c.any([c.all([b.left == g[0], b.bottom == g[1], b.right == g[2], b.top == g[3]]) for q, net, g in shapes if q == l_ and net == n_]),
                    'both polygons are the overlapping conductors')
        gt = [g for q, net, g in shapes if q == lt][0]
        gb = [g for q, net, g in shapes if q == lb][0]
        w = inter(gt, gb)
        cut = [g for q, net, g in shapes if q == 'm2'] if (lt, lb) == ('m3', 'm1') else []
        a = 0
        for q in ar.each():
            b = q.bbox()
            c.check(c.all([b.left >= w[0], b.bottom >= w[1], b.right <= w[2], b.top <= w[3]]), 'the overlap area lies in both conductors')
            for g in cut:
                if inter((b.left, b.bottom, b.right, b.top), g) is not None and bool(q.is_box()):
                    c.check(False, 'the overlap area leaves out what is shielded')
            a = a + q.area()
        c.check_close(a * PDBU * PDBU * coef[lt, lb] / 1000, cap.cap_value, 'the overlap area is the one the capacitance is computed from')
