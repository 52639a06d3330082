"""Extraction context: the extracted shapes, pins and devices of an LVS database under their GDS layer and net."""
import types
from lib import *
from ctxlib import LV, LVSDB, technology
from netlib import distinct

META = {
    'bounds': ['up to 5 LVS layers (several on one GDS layer, device, pin, label, unknown and unlisted ones) in any order, each empty or not',
               'up to 3 shapes with symbolic position and net, one of them inside a rotated or mirrored device cell; boxes and L shapes',
               'with and without black boxing', 'up to 2 devices with up to 3 terminals, up to 2 pins and 3 labels at any position; an L-shaped pin with another pin in its notch',
               'device terminals on extracted layers, blackboxed layers and layers the technology does not list'],
    'outside': ['LVS layers holding texts besides polygons', 'KLayout\'s build_all_nets and cell mapping (replaced by a stand-in that places the net shapes)'],
}

ORIENT = [(0, False), (1, False), (2, True), (3, True), (1, True)]


def cases(tier):
    out = []
    sets = {'two-on-one': ['m1_con', 'm2_con', 'm1_nr'], 'devices': ['res', 'm1_con', 'cap', 'm2_con'], 'unlisted': ['l13', 'm2_con', 'unlisted', 'm1_con']}
    for n, ls in sets.items():
        for bb in (False, True):
            out.append(dict(name='layers-%s-%d' % (n, bb), fn='layers', params=dict(ls=ls, bb=bb)))
    for i in range(len(ORIENT)):
        if tier == 'quick' and i in (1, 2):
            continue
        for ls in (['m1_con'], ['m1_con', 'm1_nr']):
            out.append(dict(name='hier-%d-%d' % (i, len(ls)), fn='hier', params=dict(o=i, ls=ls)))
    for nets in (False, True):
        out.append(dict(name='bbox-%d' % nets, fn='bbox', params=dict(nets=nets)))
    for two in (False, True):
        out.append(dict(name='pins-%d' % two, fn='pins', params=dict(two=two)))
        out.append(dict(name='notch-%d' % two, fn='notch', params=dict(two=two)))
    out.append(dict(name='devices', fn='devices', params={}))
    out.append(dict(name='terminals', fn='terminals', params={}))
    for bb in (False, True):
        out.append(dict(name='terminals-outside-%d' % bb, fn='outside', params=dict(bb=bb)))
    return out


def context(c, db, ti, bb=False):
    X = c.mod('klayout_pex.klayout.lvsdb_extractor')
    return X.KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell='TOP', tech=ti, blackbox_devices=bb)


def corners(p):
    return [(q.x, q.y) for q in p.each_point_hull()]


def same_poly(p, q):
    return len(p) == len(q) and all(any(bool(a[0] == b[0]) and bool(a[1] == b[1]) for b in q) for a in p)


def compare(c, region, want, what):
    """region: polygons with their nets; want: [(corners, net)]"""
    got = [(corners(p), p.property('net')) for p in region.each()] if region is not None else []
    c.check(len(got) == len(want), what + ': number of shapes')
    rest = list(got)
    for w in want:
        hit = [g for g in rest if same_poly(g[0], w[0]) and bool(c.eq(g[1], w[1]))]
        c.check(len(hit) >= 1, what + ': shape with its net')
        rest.remove(hit[0])


def box_corners(g):
    return list(g[1]) if isinstance(g[0], str) else [(g[0], g[1]), (g[0], g[3]), (g[2], g[3]), (g[2], g[1])]


def move(o, g):
    out = []
    for x, y in box_corners(g):
        if o[1]:
            y = -y
        for _ in range(o[0]):
            x, y = -y, x
        out.append((x + o[2], y + o[3]))
    return out


def check_context(c, x, ti, ls, shapes, bb, dev):
    k = c.kdb
    vis = [n for n in ls if not (bb and LV[n][0] in ('DEVICE_RESISTOR', 'DEVICE_CAPACITOR'))]
    place = lambda s: move(dev, s[1]) if s[3] else box_corners(s[1])
    have = [s for s in shapes if s[0] in vis and not (s[3] and bb)]
    listed = [n for n in vis if LV[n][0] and any(s[0] == n for s in have)]
    pairs = list(dict.fromkeys(LV[n][1] for n in listed))
    c.check(set(x.extracted_layers) == set(pairs), 'exactly the non-empty known layers')
    for g in pairs:
        c.check([l.lvs_layer_name for l in x.extracted_layers[g].source_layers] == [n for n in listed if LV[n][1] == g], 'LVS layers of a GDS layer')
        mine = [s for s in have if s[0] in listed and LV[s[0]][1] == g]
        compare(c, x.shapes_of_layer(g), [(place(s), s[2]) for s in mine], 'shapes of a layer')
        for s in mine:
            r = x.shapes_of_net(g, s[2])
            got = [corners(p) for p in r.each()]
            want = [place(q) for q in mine if bool(c.eq(q[2], s[2]))]
            c.check(len(got) == len(want) and all(any(same_poly(a, b) for b in got) for a in want), 'shapes of a net on a layer')
        r = x.shapes_of_net(g, 'no such net')
        c.check(r.count() == 0, 'no shapes of other nets')
    for g in ((1, 1), (66, 20), (90, 4)):
        if g not in pairs:
            c.check(x.shapes_of_layer(g) is None and x.shapes_of_net(g, 'A') is None, 'nothing on other layers')
    unk = [n for n in vis if LV[n][0] is None and LV[n][3] and any(s[0] == n for s in have)]
    c.check([l.lvs_layer_name for l in x.unnamed_layers] == unk, 'layers the technology does not list')
    for l in x.unnamed_layers:
        compare(c, l.region, [(place(s), s[2]) for s in have if s[0] == l.lvs_layer_name], 'shapes of an unlisted layer')


def layers(c, p):
    ti = technology(c)
    ls = p['ls']
    shapes = []
    for i, n in enumerate(ls):
        for j in range(2 if i == 1 else 1):
            if c.flag('on.%s%d' % (n, j)):
                x = c.int('x%d%d' % (i, j), -50, 50) if i < 2 else 7 * i
                net = c.str('net%d%d' % (i, j), 1, 65, 67) if i < 3 else 'A'
                shapes.append((n, (x, 3, x + 20 + i, 9 + j), net, False))
    db = LVSDB(c, ls, shapes)
    x = context(c, db, ti, p['bb'])
    c.check(x.dbu == 0.005 and x.annotated_layout.dbu == 0.005 and x.annotated_top_cell.name == 'TOP', 'database unit and cell')
    check_context(c, x, ti, ls, shapes, p['bb'], None)


def hier(c, p):
    ti = technology(c)
    o = ORIENT[p['o']]
    dev = (o[0], o[1], c.int('dx', -50, 50), c.int('dy', -50, 50))
    L = ('poly', ((0, 0), (0, 30), (10, 30), (10, 12), (25, 12), (25, 0)))
    na, nb = c.str('na', 1, 65, 67), c.str('nb', 1, 65, 67)
    ls = p['ls']
    w = c.int('w', 1, 40)
    shapes = [(ls[0], (0, 0, w, 12), na, True), (ls[-1], L, nb, True), (ls[0], (-10, -20, 70, -10), na, False)]
    x = context(c, LVSDB(c, ls, shapes, dev), ti)
    check_context(c, x, ti, ls, shapes, False, dev)


def bbox(c, p):
    ti = technology(c)
    bs = [box(c, 'b%d' % i, -50, 50) for i in range(2)]
    shapes = [('m1_con', bs[0], 'A', False)]
    if p['nets']:
        # nets reach beyond the layout of the LVS database
        bs = [bs[0]]
        shapes = [('m1_con', bs[0], 'A', False)]
        x = context(c, LVSDB(c, ['m1_con', 'm2_con'], shapes, extra=[(bs[0][0], bs[0][1], bs[0][0] + 1, bs[0][3])]), ti)
    else:
        x = context(c, LVSDB(c, ['m1_con'], shapes, extra=bs), ti)
    b = x.top_cell_bbox()
    c.check(c.all([c.all([b.left <= q[0], b.bottom <= q[1], b.right >= q[2], b.top >= q[3]]) for q in bs]), 'the bounding box encloses every shape')
    c.check(c.all([c.any([b.left == q[0] for q in bs]), c.any([b.bottom == q[1] for q in bs]), c.any([b.right == q[2] for q in bs]),
                   c.any([b.top == q[3] for q in bs])]), 'the bounding box is tight')


def pins(c, p):
    ti = technology(c)
    ls = ['m1_con', 'm1_pin', 'm1_label', 'm2_con'] if not p['two'] else ['m2_con', 'm1_label', 'm1_con', 'm1_pin']
    na, nb = c.str('na', 1, 65, 67), c.str('nb', 1, 65, 67)
    g = c.int('g', 1, 30)
    pin = [((0, 0, 20, 10), na), ((20 + g, 0, 40 + g, 10), nb)]
    metal = [('m1_con', (-5, -5, 25, 15), na, False)] if c.flag('metal') else []
    shapes = metal + [('m1_pin', b, n, False) for b, n in pin] + [('m2_con', (0, 0, 9, 9), 'A', False)]
    texts = [('m1_label', c.str('t%d' % i, 1, 65, 67), c.int('x%d' % i, -10, 80), c.int('y%d' % i, -5, 15) if i == 0 else 5) for i in range(2)]
    for _, s, x, y in texts:
        # labels at the very border of a pin are left open
        for b, n in pin:
            c.assume(c.all([x != b[0], x != b[2], y != b[1], y != b[3]]))
    x = context(c, LVSDB(c, ls, shapes, texts=texts), ti)
    inside = lambda q, b: bool(q[2] > b[0]) and bool(q[2] < b[2]) and bool(q[3] > b[1]) and bool(q[3] < b[3])
    got = {g: list(l) for g, l in x.pins_pb2_by_layer.items() if l}
    want = [(q, n) for q in texts for b, n in pin if inside(q, b)] if metal else []
    c.check(set(got) <= {(68, 20)}, 'pins are listed under their metal layer')
    mine = got.get((68, 20), [])
    c.check(len(mine) == len(want), 'every label inside a pin is a pin, others are not')
    c.check(c.all([c.eq(a.label, q[1]) for a, (q, n) in zip(mine, want)]), 'pin label')
    for a in mine:
        hit = [1 for q, n in want if bool(c.eq(a.label, q[1])) and bool(a.label_point.x == q[2]) and bool(a.label_point.y == q[3]) and
               bool(c.eq(a.net_name, n)) and bool(c.eq(a.label_point.net, n))]
        c.check(len(hit) >= 1, 'label, position and net of a pin')
        c.check(a.layer.canonical_layer_name == 'm1' and LV[a.layer.lvs_layer_name][1] == (68, 20) and
                x.annotated_layout.get_info(a.layer.id).datatype == 20, 'layer of a pin')
    compare(c, x.pins_of_layer((68, 20)), [(box_corners(b), n) for b, n in pin], 'pin shapes')
    c.check(x.pins_of_layer((69, 20)).count() == 0, 'no pins on other layers')


def notch(c, p):
    """an L-shaped pin with the pin of another net in its notch"""
    ti = technology(c)
    na, nb = c.str('na', 1, 65, 67), c.str('nb', 1, 65, 67)
    L = ('poly', ((0, 0), (0, 30), (10, 30), (10, 12), (25, 12), (25, 0)))
    B = (14, 16, 24, 26)
    pin = [(L, na), (B, nb)][::-1 if p['two'] else 1]
    shapes = [('m1_con', (-5, -5, 45, 45), na, False)] + [('m1_pin', b, n, False) for b, n in pin]
    x, y = c.int('x', -5, 40), c.int('y', -5, 40)
    c.assume(c.all([c.all([x != v for v in (0, 10, 25, 14, 24)]), c.all([y != v for v in (0, 12, 30, 16, 26)])]))
    ctx = context(c, LVSDB(c, ['m1_con', 'm1_pin', 'm1_label'], shapes, texts=[('m1_label', 'T', x, y)]), ti)
    got = [a for l in ctx.pins_pb2_by_layer.values() for a in l]
    in_l = c.all([x > 0, y > 0, c.any([c.all([x < 10, y < 30]), c.all([x < 25, y < 12])])])
    in_b = c.all([x > 14, x < 24, y > 16, y < 26])
    c.check(c.eq(len(got) == 1, c.any([in_l, in_b])) if len(got) < 2 else False, 'a label is a pin exactly inside a pin shape')
    for a in got:
        c.check(c.all([c.implies(in_l, c.eq(a.net_name, na)), c.implies(in_b, c.eq(a.net_name, nb)), c.eq(a.label, 'T'),
                       a.label_point.x == x, a.label_point.y == y]), 'a pin belongs to the net of the shape around its label')


def netlist(c, cls):
    k = c.kdb
    nl = k.Netlist()
    ci = k.Circuit()
    ci.name = 'TOP'
    nl.add(ci)
    d = getattr(k, cls)()
    d.name = 'MODEL'
    nl.add(d)
    return nl, ci, d


class Dev:
    """a device that knows its abstract (KLayout only makes abstracts while extracting)"""

    def __init__(self, d):
        self.d, self.device_abstract = d, types.SimpleNamespace(name='D$MODEL')

    def __getattr__(self, n):
        return getattr(self.d, n)


def top(ci):
    return types.SimpleNamespace(top_circuit=lambda: types.SimpleNamespace(each_device=lambda: [Dev(d) for d in ci.each_device()]))


class DevDB(LVSDB):
    def shapes_of_terminal(self, nt):
        key = (nt.device().expanded_name(), nt.terminal_def().name)
        out = {}
        for n, b in self.terms.get(tuple(self.c.text(x) for x in key), []):
            r = self.c.kdb.Region()
            r.insert(self.c.kdb.Polygon(self.c.kdb.Box(*b)))
            out[self.ix[self.names.index(n)]] = r
        return out


def devices(c, p):
    """two devices of a class, connected in any way: terminals carry their nets, parameters their values"""
    ti = technology(c)
    nl, ci, cls = netlist(c, 'DeviceClassMOS3Transistor')
    names = [c.str('a', 1, 65, 67), 'B', '']
    ns = [ci.create_net(n) for n in names]
    ds, conn = [], {}
    for i, n in enumerate(('M1', '')):
        d = ci.create_device(cls, n)
        ds.append(d)
        d.set_parameter('W', c.real('w%d' % i, 0, 100))
        for t in ('S', 'G', 'D'):
            q = c.choice('%s%d' % (t, i), [0, 1, 2, None]) if i == 0 or t == 'G' else 2
            conn[i, t] = q
            if q is not None:
                d.connect_terminal(t, ns[q])
    ls = ['res', 'm1_con']
    db = DevDB(c, ls, [('m1_con', (0, 0, 9, 9), 'B', False)], circuit=top(ci))
    db.terms = {}
    x = context(c, db, ti)
    dd = x.devices_by_name
    c.check(len(dd) == 2, 'every device')
    for i, d in enumerate(ds):
        m = dd[d.expanded_name()]
        c.check(m.device_name == d.expanded_name() and m.device_class_name == 'MODEL' and m.device_abstract_name == 'D$MODEL' and m.id == d.id(), 'identity of a device')
        ps = {q.name: q.value for q in m.parameters}
        c.check(set(ps) == {q.name for q in cls.parameter_definitions()}, 'every parameter')
        c.check_close(ps['W'], d.parameter('W'), 'parameter value')
        c.check([t.name for t in m.terminals] == ['S', 'G', 'D'], 'every terminal once')
        for t in m.terminals:
            q = conn[i, t.name]
            c.check(bool(c.eq(t.net_name, '' if q is None else ns[q].expanded_name())), 'net of a terminal')
            c.check(t.device_id == d.id() and t.terminal_id == cls.terminal_id(t.name), 'identity of a terminal')


def terminals(c, p):
    """terminal shapes keep layer and place"""
    ti = technology(c)
    nl, ci, cls = netlist(c, 'DeviceClassResistor')
    ns = [ci.create_net(n) for n in ('A', 'B')]
    ds = [ci.create_device(cls, n) for n in ('R1', 'R2')]
    for d in ds:
        d.connect_terminal('A', ns[c.choice('net', [0, 1]) if d is ds[0] else 1])
        d.connect_terminal('B', ns[1])
    ls = c.choice('order', [['res', 'm1_con', 'm2_con'], ['m2_con', 'res', 'm1_con']])
    db = DevDB(c, ls, [('m1_con', (0, 0, 9, 9), 'B', False)], circuit=top(ci))
    b = [box(c, 'b%d' % i, -50, 50, y=(0, 10)) for i in range(3)]
    ly = [c.choice('l%d' % i, ['m1_con', 'm2_con', 'res']) for i in range(2)]
    db.terms = {('R1', 'A'): [(ly[0], b[0])], ('R1', 'B'): [(ly[1], b[1])], ('R2', 'A'): [('m1_con', b[2]), ('m2_con', b[0])], ('R2', 'B'): []}
    x = context(c, db, ti)
    for dn in ('R1', 'R2'):
        for t in x.devices_by_name[dn].terminals:
            want = db.terms[dn, t.name]
            c.check(len(t.region_by_layer) == len(want), 'layers of a terminal')
            for r in t.region_by_layer:
                mine = [q for n, q in want if r.layer.canonical_layer_name == LV[n][2]]
                c.check(len(mine) == 1, 'layer name of a terminal shape')
                gi = x.annotated_layout.get_info(r.layer.id)
                c.check({(68, 20): 'm1', (69, 20): 'm2', (66, 20): 'poly'}[(gi.layer, gi.datatype)] == r.layer.canonical_layer_name, 'layer id of a terminal shape')
                c.check(len(r.region.polygons) == 1 and same_poly([(q.x, q.y) for q in r.region.polygons[0].hull_points], box_corners(mine[0])), 'terminal shape')


def outside(c, p):
    """terminals on layers that are not extracted: the device and its nets stay, with the shapes on extracted layers"""
    ti = technology(c)
    nl, ci, cls = netlist(c, 'DeviceClassCapacitor')
    ns = [ci.create_net(n) for n in ('A', 'B')]
    ds = [ci.create_device(cls, n) for n in ('C1', 'C2')]
    conn = {}
    for d in ds:
        for t in ('A', 'B'):
            conn[d.name, t] = ns[c.choice('net', [0, 1]) if (d is ds[0] and t == 'A') else 1 if t == 'B' else 0]
            d.connect_terminal(t, conn[d.name, t])
    ls = ['cap', 'l13', 'm1_con', 'unlisted', 'res', 'm2_con']
    db = DevDB(c, ls, [('m1_con', (0, 0, 9, 9), 'B', False)], circuit=top(ci))
    b = [box(c, 'b%d' % i, -50, 50, y=(0, 10)) for i in range(2)]
    other = c.choice('outer', ['cap', 'l13', 'unlisted', 'res'])
    inner = c.choice('inner', ['m1_con', 'm2_con', None])
    order = c.flag('first')
    at = [(other, b[0])] + ([(inner, b[1])] if inner else [])
    db.terms = {('C1', 'A'): at[::-1] if order else at, ('C1', 'B'): [('m2_con', b[1])], ('C2', 'A'): [(other, b[1])], ('C2', 'B'): [('m1_con', b[0])]}
    x = context(c, db, ti, p['bb'])
    seen = lambda n: LV[n][0] is not None and not (p['bb'] and LV[n][0] in ('DEVICE_RESISTOR', 'DEVICE_CAPACITOR'))
    c.check(set(x.devices_by_name) == {'C1', 'C2'}, 'every device')
    for dn in ('C1', 'C2'):
        d = x.devices_by_name[dn]
        c.check([t.name for t in d.terminals] == ['A', 'B'], 'every terminal once')
        for t in d.terminals:
            c.check(t.net_name == conn[dn, t.name].name, 'net of a terminal')
            want = [(LV[n][2], q) for n, q in db.terms[dn, t.name] if seen(n)]
            got = [(r.layer.canonical_layer_name, r) for r in t.region_by_layer if len(r.region.polygons)]
            c.check(sorted(n for n, _ in got) == sorted(n for n, _ in want), 'terminal shapes on the extracted layers')
            rest = list(got)
            for n, q in want:
                hit = [g for g in rest if g[0] == n and len(g[1].region.polygons) == 1 and
                       same_poly([(a.x, a.y) for a in g[1].region.polygons[0].hull_points], box_corners(q))]
                c.check(len(hit) >= 1, 'terminal shape')
                rest.remove(hit[0])
