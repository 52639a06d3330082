"""Resistance extraction: each net is extracted from its own pins, device terminals and shapes, results keep their nets."""
from lib import *

META = {
    'bounds': ['up to 3 nets (one unnamed), 2 layers, up to 3 pins and 2 devices with up to 2 terminals; any coordinates',
               'results: up to 4 nodes of any type, any port index, any layer, up to 3 resistors with any endpoints and values'],
    'outside': ['the numerical result of KLayout\'s RNetExtractor (replaced by a stand-in that returns any network)'],
}
DBU = 0.001


def cases(tier):
    out = [dict(name='request-%d%d' % (i, j), fn='request', params=dict(pins=i, devs=j)) for i, j in ((0, 1), (1, 0), (2, 1), (3, 0)) + (((2, 2),) if tier == 'thorough' else ())]
    out.append(dict(name='request-no-circuit', fn='nocircuit', params={}))
    out.append(dict(name='ports', fn='ports', params={}))
    for n in (1, 2):
        out.append(dict(name='nodes-%d' % n, fn='nodes', params=dict(n=n)))
    out.append(dict(name='elements', fn='elements', params={}))
    return out


GDS = {'m1': (68, 20), 'm2': (69, 20), 'm1.pin': (68, 16)}
LID = {(68, 20): 4, (69, 20): 7, (68, 16): 9}


def Lay():
    return LayerTable(LID)


class Plain:
    pass


class Src:
    def __init__(self, name, gds):
        self.lvs_layer_name, self.gds_pair = name, gds


class Merged:
    def __init__(self, src, gds):
        self.source_layers, self.gds_pair = src, gds


def base(c, kind='REGULAR', second=False):
    RX = c.mod('klayout_pex.rcx25.r.r_extractor')
    T = c.pb('tech.tech')
    tech = tech_pb(c)
    for n, g in GDS.items():
        e = tech.lvs_computed_layers.add()
        e.kind = getattr(T.ComputedLayerInfo.Kind, 'KIND_' + ('PIN' if n.endswith('pin') else kind if n == 'm2' else 'REGULAR'))
        e.layer_info.name = n + '_con'
        e.layer_info.purpose = T.LayerInfo.Purpose.PURPOSE_METAL
        e.layer_info.drw_gds_pair.layer, e.layer_info.drw_gds_pair.datatype = g
        e.original_layer_name = n.split('.')[0]
    for n in ('m1', 'm2'):
        e = tech.process_parasitics.resistance.layers.add()
        e.layer_name, e.resistance = n, 1000.0
    ctx = Plain()
    ctx.tech, ctx.dbu, ctx.annotated_layout = tech_info(c, tech), DBU, Lay()
    ctx.extracted_layers = {g: Merged([Src(n + '_con', g)], g) for n, g in GDS.items()}
    if second:
        ctx.extracted_layers[GDS['m1']].source_layers.append(Src('m1_ncon', GDS['m1']))
    ctx.annotated_top_cell = Plain()
    ctx.annotated_top_cell.name = 'TOP'
    ctx.devices_by_name = {}
    ctx.pins_pb2_by_layer = {}
    ctx.lvsdb = Plain()
    A = RX.pb_RExtractorTech.Algorithm
    rx = RX.RExtractor(pex_context=ctx, substrate_algorithm=A.ALGORITHM_SQUARE_COUNTING, wire_algorithm=A.ALGORITHM_SQUARE_COUNTING,
                       delaunay_b=0.5, delaunay_amax=0.0, via_merge_distance=0, skip_simplify=True)
    return RX, ctx, rx


def netlist(c, name='TOP'):
    k = c.kdb
    nl = k.Netlist()
    ci = k.Circuit()
    ci.name = name
    nl.add(ci)
    nets = {n: ci.create_net(n) for n in ('A', 'B')}
    u = ci.create_net('')
    nets[u.expanded_name()] = u
    return nl, ci, nets


def request(c, p):
    second = c.flag('two LVS layers')
    RX, ctx, rx = base(c, c.choice('kind of m2', ['REGULAR', 'DEVICE_CAPACITOR', 'DEVICE_RESISTOR']), second)
    nl, ci, nets = netlist(c)
    names = list(nets)
    ctx.lvsdb.netlist = lambda: nl
    shapes = {}
    for n in names:
        for l in ('m1', 'm2'):
            if (n, l) in (('A', 'm1'), ('B', 'm2')) or (n not in 'AB' and l == 'm1') or (n == 'A' and c.flag('s_%s_%s' % (n, l))):
                x = c.int('x_%s%d%s' % (l, names.index(n), ''), -500, 500)
                shapes[(GDS[l], n)] = (x, 0, x + 10, 20)

    def shapes_of_net(gds_pair, net):
        n = net if isinstance(net, str) else c.text(net.expanded_name())
        b = shapes.get((gds_pair, n))
        r = c.kdb.Region()
        if b is not None:
            r.insert(c.kdb.Polygon(c.kdb.Box(*b)))
        elif gds_pair == GDS['m2']:
            return None
        return r
    ctx.shapes_of_net = shapes_of_net
    Pin = c.pb('layout.pin').Pin
    Device = c.pb('layout.device').Device
    pins = []
    for i in range(p['pins']):
        q = Pin()
        q.net_name = c.choice('pn%d' % i, names[:2])
        q.label = 'lab%d' % i
        l = 'm1' if i != 1 else 'm2'
        q.layer.id = LID[GDS[l]]
        q.label_point.x, q.label_point.y = c.int('px%d' % i), c.int('py%d' % i)
        pins.append((l, q))
    for l in ('m1', 'm2'):
        ctx.pins_pb2_by_layer[GDS[l]] = [q for m, q in pins if m == l]
    devs = []
    terms = []
    for i in range(p['devs']):
        d = Device()
        d.id, d.device_name = i + 1, 'D%d' % i
        for t in range(2):
            e = d.terminals.add()
            e.device_id, e.terminal_id, e.name = i + 1, t, 'T%d' % t
            e.net_name = c.choice('tn%d%d' % (i, t), names)
            lr = e.region_by_layer.add()
            lr.layer.id = LID[GDS['m1']]
            pt = lr.region.polygons.add()
            v = pt.hull_points.add()
            v.x, v.y = c.int('tx%d%d' % (i, t), -100, 100), 5
            terms.append(e)
        devs.append(d)
        ctx.devices_by_name[d.device_name] = d
    rq = rx.prepare_request()
    x = c.text
    c.check([x(d.device_name) for d in rq.devices] == ['D%d' % i for i in range(p['devs'])], 'every device is part of the request')
    c.check(len(rq.pins) == len(pins), 'every pin is part of the request')
    by = {}
    for r in rq.net_extraction_requests:
        c.check(x(r.net_name) not in by, 'one request per net')
        by[x(r.net_name)] = r
    exp = set(q.net_name for _, q in pins) | set(t.net_name for t in terms) | set(n for _, n in shapes) | set(names)
    c.check(set(by) <= {x(n) for n in exp}, 'no request for unknown nets')
    for n in names:
        r = by.get(n)
        mine = [q for _, q in pins if q.net_name == n]
        if r is None:
            c.check(not mine and not any(m == n for _, m in shapes) and not any(t.net_name == n for t in terms), 'a net with pins, terminals or shapes is requested')
            continue
        c.check(sorted(x(q.label) for q in r.pins) == sorted(x(q.label) for q in mine), 'pins of the net')
        for q in r.pins:
            o = [m for m in mine if m.label == q.label][0]
            c.check(c.all([q.label_point.x == o.label_point.x, q.label_point.y == o.label_point.y, q.layer.id == o.layer.id]), 'pin position and layer')
        tm = [t for t in terms if t.net_name == n]
        c.check(sorted((t.device_id, t.terminal_id) for t in r.device_terminals) == sorted((t.device_id, t.terminal_id) for t in tm), 'device terminals of the net')
        for t in r.device_terminals:
            o = [m for m in tm if (m.device_id, m.terminal_id) == (t.device_id, t.terminal_id)][0]
            c.check(t.region_by_layer[0].region.polygons[0].hull_points[0].x == o.region_by_layer[0].region.polygons[0].hull_points[0].x, 'terminal shape')
        got = {}
        for l2r in r.region_by_layer:
            if len(l2r.region.polygons):
                got.setdefault(l2r.layer.id, []).append(l2r)
        c.check(set(got) == {LID[g] for g, m in shapes if m == n}, 'shapes of the net on every layer it has shapes on')
        for g, m in shapes:
            if m == n:
                for l2r in got[LID[g]]:
                    b = shapes[(g, m)]
                    c.check(len(l2r.region.polygons) == 1, 'only shapes of this net')
                    hp = [(v.x, v.y) for v in l2r.region.polygons[0].hull_points]
                    for u, v in ((b[0], b[1]), (b[0], b[3]), (b[2], b[3]), (b[2], b[1])):
                        c.check(c.any([c.all([s == u, t == v]) for s, t in hp]), 'net shape coordinates')
                    c.check(x(l2r.layer.canonical_layer_name) == {4: 'm1', 7: 'm2'}[LID[g]] and
                            x(l2r.layer.lvs_layer_name) in {4: ['m1_con', 'm1_ncon'][:1 + second], 7: ['m2_con']}[LID[g]], 'layer names')


def nocircuit(c, p):
    RX, ctx, rx = base(c)
    nl, ci, nets = netlist(c, c.choice('n', ['OTHER', 'TOP']))
    ctx.lvsdb.netlist = lambda: nl
    ctx.shapes_of_net = lambda gds_pair, net: None
    try:
        rx.prepare_request()
        ok = True
    except Exception as e:
        c.own(e)
        ok = False
    c.check(ok == (c.text(ci.name) == 'TOP'), 'a netlist without the extracted cell is rejected')


# ---------------------------------------------------------------- results

class Node:
    def __init__(self, oid, kind, layer, port, loc, name):
        self._v = (oid, kind, layer, port, loc, name)

    def object_id(self): return self._v[0]
    def type(self): return self._v[1]
    def layer(self): return self._v[2]
    def port_index(self): return self._v[3]
    def location(self): return self._v[4]
    def to_s(self): return self._v[5]


class El:
    def __init__(self, oid, a, b, r):
        self._v = (oid, a, b, r)

    def object_id(self): return self._v[0]
    def a(self): return self._v[1]
    def b(self): return self._v[2]
    def resistance(self): return self._v[3]


class Nw:
    def __init__(self, nodes, els):
        self.nodes, self.els = nodes, els

    def each_node(self): return iter(self.nodes)
    def each_element(self): return iter(self.els)


def stub(RX, results):
    calls = []

    class RNE:
        def __init__(self, dbu):
            self.dbu = dbu

        def extract(self, tech, regions, vp, pp):
            calls.append((self.dbu, tech, regions, vp, pp))
            return results[len(calls) - 1]

    class Klp:
        RNetExtractor = RNE

        class RNodeType:
            VertexPort, PolygonPort, Internal = 'vertex', 'polygon', 'internal'
    RX.klp = Klp
    RX.klayout_r_extractor_tech = lambda t: ('tech', t)
    return calls


def new_request(c):
    RQ = c.pb('request.pex_request').RExtractionRequest
    rq = RQ()
    for lid, n in ((4, 'm1'), (7, 'm2')):
        k = rq.tech.conductors.add()
        k.layer.id, k.layer.canonical_layer_name = lid, n
    v = rq.tech.vias.add()
    v.layer.id, v.layer.canonical_layer_name = 11, 'via'
    return rq


def add_pin(c, r, i, layer, net):
    q = r.pins.add()
    q.label, q.net_name = 'L%d' % i, net
    q.layer.id = layer
    q.label_point.x, q.label_point.y = c.int('px%d' % i, -1000, 1000), c.int('py%d' % i, -1000, 1000)
    return (q.label_point.x, q.label_point.y)


def add_term(c, r, i, layer, net, n=1):
    t = r.device_terminals.add()
    t.device_id, t.terminal_id, t.net_name = i + 1, i, net
    lr = t.region_by_layer.add()
    lr.layer.id = layer
    out = []
    for j in range(n):
        pg = lr.region.polygons.add()
        x, y = c.int('tx%d_%d' % (i, j), -1000, 1000), c.int('ty%d_%d' % (i, j), -1000, 1000)
        for dx, dy in ((0, 0), (0, 5), (7, 5), (7, 0)):
            h = pg.hull_points.add()
            h.x, h.y = x + dx, y + dy
        out.append((x, y))
    return out


def ports(c, p):
    """inputs handed to KLayout's extractor, per net"""
    RX, ctx, rx = base(c)
    rq = new_request(c)
    calls = stub(RX, [Nw([], []), Nw([], [])])
    r0 = rq.net_extraction_requests.add()
    r0.net_name = 'A'
    l0, l1 = c.choice('l0', [4, 7]), c.choice('l1', [4, 7])
    p0, p1 = add_pin(c, r0, 0, l0, 'A'), add_pin(c, r0, 1, l1, 'A')
    t0 = add_term(c, r0, 0, 4, 'A', 2)
    t1 = add_term(c, r0, 1, c.choice('l2', [4, 7]), 'A')
    for lid in (4, 11):
        lr = r0.region_by_layer.add()
        lr.layer.id = lid
        pg = lr.region.polygons.add()
        x = c.int('rx%d' % lid, -100, 100)
        for dx, dy in ((0, 0), (0, 5), (7, 5), (7, 0)):
            h = pg.hull_points.add()
            h.x, h.y = x + dx, dy
    r1 = rq.net_extraction_requests.add()
    r1.net_name = 'B'
    q0 = add_pin(c, r1, 2, 7, 'B')
    res = rx.extract(rq)
    c.check([c.text(n.net_name) for n in res.networks] == ['A', 'B'], 'one network per requested net')
    c.check(len(calls) == 2, 'one extraction per net')
    for k in calls:
        c.check_close(k[0], DBU, 'database unit')
    _, tech, regions, vp, pp = calls[0]
    eq = lambda a, b: c.all([a.x == b[0], a.y == b[1]])
    for lid in (4, 7):
        e = [q for l, q in ((l0, p0), (l1, p1)) if l == lid]
        g = vp.get(lid, [])
        c.check(len(g) == len(e) and c.all([eq(a, b) for a, b in zip(g, e)]), 'pins become vertex ports of their layer')
        e = [q for l, qs in ((4, t0), (r0.device_terminals[1].region_by_layer[0].layer.id, t1)) if l == lid for q in qs]
        g = pp.get(lid, [])
        c.check(len(g) == len(e), 'terminal polygons become polygon ports of their layer')
        for a, b in zip(g, e):
            bb = a.bbox()
            c.check(c.all([bb.left == b[0], bb.bottom == b[1], bb.right == b[0] + 7, bb.top == b[1] + 5]), 'polygon port shape')
    c.check(set(k for k, r in regions.items() if r.count() > 0) == {4, 11}, 'regions of the net')
    for lid in (4, 11):
        bb = regions[lid].bbox()
        c.check(regions[lid].count() == 1 and bool(bb.left == r0.region_by_layer[0 if lid == 4 else 1].region.polygons[0].hull_points[0].x), 'region shape')
    _, tech, regions, vp, pp = calls[1]
    c.check(not any(r.count() for r in regions.values()) and not any(len(v) for v in pp.values()), 'nothing leaks into the next net')
    g = {k: v for k, v in vp.items() if len(v)}
    c.check(set(g) == {7} and len(g[7]) == 1, 'pins of the second net only')
    c.check(eq(g[7][0], q0), 'pin of the second net')


def nodes(c, p):
    RX, ctx, rx = base(c)
    rq = new_request(c)
    r0 = rq.net_extraction_requests.add()
    r0.net_name = 'A'
    # ports on layer 4: pins of P0, P1; terminals on T0, T0, T1
    nm = {}
    add_pin(c, r0, 0, 4, 'P0')
    add_pin(c, r0, 1, 7, 'P1')
    add_pin(c, r0, 2, 4, 'P2')
    add_term(c, r0, 0, 4, 'T0', 2)
    add_term(c, r0, 1, 7, 'T1')
    add_term(c, r0, 2, 4, 'T2')
    vports = {4: ['P0', 'P2'], 7: ['P1']}
    pports = {4: ['T0', 'T0', 'T2'], 7: ['T1']}
    lst, exp = [], []
    k = c.kdb
    for i in range(p['n']):
        kind = c.choice('kind%d' % i, ['vertex', 'polygon', 'internal'])
        lid = c.choice('lid%d' % i, [4, 7] if kind != 'internal' else [4, 7, 11])
        port = 0
        net = None
        if kind != 'internal':
            opts = (vports if kind == 'vertex' else pports)[lid]
            port = c.choice('port%d' % i, range(len(opts)))
            net = opts[port]
        x, y = c.int('x%d' % i, -1000, 1000), c.int('y%d' % i, -1000, 1000)
        w, h = (0, 0) if kind == 'vertex' else (c.int('w%d' % i, 0, 50), c.int('h%d' % i, 0, 50))
        loc = k.DBox(x * DBU, y * DBU, (x + w) * DBU, (y + h) * DBU)
        oid = c.int('oid%d' % i, 1, 1000000)
        lst.append(Node(oid, kind, lid, port, loc, 'node%d' % i))
        exp.append((kind, {4: 'm1', 7: 'm2', 11: 'via'}[lid], net, (x, y, x + w, y + h), oid))
    if p['n'] == 2:
        c.assume(exp[0][4] != exp[1][4])
    r1 = rq.net_extraction_requests.add()
    r1.net_name = 'B'
    other = [Node(7000000 + i, 'internal', 11, 0, k.DBox(0, 0, 0.001, 0.001), 'node%d' % i) for i in range(p['n'])]
    stub(RX, [Nw(lst, []), Nw(other, [])])
    res = rx.extract(rq)
    nw = res.networks[0]
    foreign = [c.text(g.net_name) for g in res.networks[1].nodes]
    c.check(len(foreign) == p['n'] and len(set(foreign)) == p['n'], 'internal nodes of a network have distinct net names')
    LK = c.pb('layout.location').Location.Kind
    c.check(len(nw.nodes) == p['n'], 'every node is reported')
    seen = []
    for g, (kind, lay, net, b, oid) in zip(nw.nodes, exp):
        c.check(g.node_id == oid, 'node id')
        c.check(c.text(g.layer_name) == lay, 'node layer')
        name = c.text(g.net_name)
        if net is None:
            c.check(name not in foreign and name not in ('P0', 'P1', 'P2', 'T0', 'T1', 'T2', 'A', 'B') and name not in seen,
                    'an internal node is a net of its own')
            seen.append(name)
        else:
            c.check(name == net, 'a node carries the net of its pin or device terminal')
        if kind == 'vertex':
            c.check(g.location.kind == LK.LOCATION_KIND_POINT, 'pins are points')
            c.check(c.all([g.location.point.x == b[0], g.location.point.y == b[1]]), 'pin location')
        else:
            c.check(g.location.kind == LK.LOCATION_KIND_BOX, 'other nodes are boxes')
            q = g.location.box
            c.check(c.all([q.lower_left.x == b[0], q.lower_left.y == b[1], q.upper_right.x == b[2], q.upper_right.y == b[3]]), 'node location')


def elements(c, p):
    RX, ctx, rx = base(c)
    rq = new_request(c)
    n = {}
    for i in range(2):
        r = rq.net_extraction_requests.add()
        r.net_name = 'AB'[i]
    k = c.kdb
    ids = [c.int('id%d' % i, 0, 100000) for i in range(3)]
    c.assume(c.all([ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2]]))
    ns = [Node(ids[i], 'internal', 4, 0, k.DBox(0, 0, 0.001, 0.001), 'n%d' % i) for i in range(3)]
    els, exp = [], []
    for i in range(3):
        a, b = c.choice('e%d' % i, [(0, 1), (1, 2), (2, 0), (1, 0)])
        v = c.real('r%d' % i, 0, None)
        oid = c.int('eid%d' % i, 0, 100000)
        els.append(El(oid, ns[a], ns[b], v))
        exp.append((oid, ids[a], ids[b], v))
    stub(RX, [Nw(ns, els), Nw([], [])])
    res = rx.extract(rq)
    g = res.networks[0].elements
    c.check(len(g) == 3 and len(res.networks[1].elements) == 0, 'every resistor is reported in its network')
    for e, (oid, a, b, v) in zip(g, exp):
        c.check(c.all([e.element_id == oid, e.node_a.node_id == a, e.node_b.node_id == b]), 'resistor end points')
        c.check_close(e.resistance, v, 'resistance')
