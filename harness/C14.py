"""Field solver input: every conductor and dielectric of the process stack at its place."""
import types
from lib import *

META = {
    'bounds': ['stack of substrate, diffusion, field oxide and 3 metals with contacts; any heights, thicknesses and permittivities',
               'up to 2 nets (named or unnamed) with any subset of the layers, boxes with up to 2 symbolic coordinates',
               'on one or two metals up to 2 nested sidewall or conformal dielectrics and a simple one above, any widths, with and without metal on the layer',
               'dielectric filters'],
    'outside': ['the extraction context (C13) and the model generator (C15), here stand-ins',
                'the field oxide of layouts whose lowest metal is missing; conformal dielectrics on layers without any metal'],
}
DBU = 0.005
GDS = {'nsd': (65, 20), 'nsdc': (66, 44), 'poly': (66, 20), 'polyc': (66, 45), 'm1': (67, 20), 'via1': (68, 44), 'm2': (68, 20)}


def cases(tier):
    out = []
    for i, ls in enumerate((('poly', 'polyc', 'm1'), ('nsd', 'nsdc', 'poly'), ('m1', 'via1', 'm2'), ('nsd', 'polyc', 'm2'))):
        out.append(dict(name='conductors-%d' % i, fn='run', params=dict(flags=ls)))
    out.append(dict(name='substrate', fn='run', params=dict(nsd=True, flags=())))
    for n in (['s'], ['c'], ['cn'], ['s', 's'], ['s', 'c'], ['s', 'cn'], ['c', 's'], []):
        for simple in (True, False):
            if not simple and tier == 'quick' and n not in ([], ['s', 'cn'], ['c']):
                continue
            for lay in ('poly', 'm1', 'm2'):
                if tier == 'quick' and lay != ('m1' if len(n) % 2 else 'poly') and n != ['s', 'cn']:
                    continue
                out.append(dict(name='diel-%s-%s-%s' % (lay, '+'.join(n), 'simple' if simple else 'none'), fn='run',
                                params=dict(chain=n, layer=lay, simple=simple)))
    out.append(dict(name='diel-width', fn='run', params=dict(chain=['s', 'cn'], layer='m1', simple=True, width=True)))
    out.append(dict(name='diel-two-shapes', fn='run', params=dict(chain=['s', 'cn'], layer='m1', simple=True, two=True)))
    out.append(dict(name='diel-no-metal', fn='run', params=dict(chain=['s'], layer='m1', simple=True, empty=True)))
    for i, (lo, up, chl, chu) in enumerate((('poly', 'm1', ['cn'], []), ('m1', 'm2', ['cn'], ['cn']), ('poly', 'm2', ['s', 'cn'], ['c']), ('poly', 'm1', [], ['cn']),
                                            ('m1', 'm2', ['cn'], None))):
        out.append(dict(name='diel-both-%d' % i, fn='run', params=dict(chain=chl, layer=lo, simple=True, more={up: chu})))
    for f in ('none', 'none,+m1_d0', 'all,-m1_s', 'all,-m1_d1'):
        out.append(dict(name='filter-%s' % f, fn='run', params=dict(chain=['s', 'cn'], layer='m1', simple=True, filt=f)))
    out.append(dict(name='no-circuit', fn='missing', params={}))
    return out


def pos(c, n):
    return c.real(n, 0.05, 5)


def stack(c, p):
    """-> TechInfo, description"""
    tech = tech_pb(c)
    LT = c.pb('tech.process_stack').ProcessStackInfo.LayerType
    for n, g in GDS.items():
        e = tech.layers.add()
        e.name = n
        e.drw_gds_pair.layer, e.drw_gds_pair.datatype = g
    S = {}

    def layer(n, t):
        e = tech.process_stack.layers.add()
        e.name = n
        e.layer_type = getattr(LT, 'LAYER_TYPE_' + t)
        return e
    e = layer('subs', 'SUBSTRATE')
    S['subh'], S['subt'] = c.real('sub.h', 0, 2), pos(c, 'sub.t')
    e.substrate_layer.height, e.substrate_layer.thickness = S['subh'], S['subt']
    e = layer('nsd', 'DIFFUSION')
    S['nsdc'] = pos(c, 'nsdc')
    e.diffusion_layer.z = 0.3
    e.diffusion_layer.contact_above.name = 'nsdc'
    e.diffusion_layer.contact_above.thickness = S['nsdc']
    e = layer('fox', 'FIELD_OXIDE')
    S['fox'] = c.real('k.fox', 1, 9)
    e.field_oxide_layer.dielectric_k = S['fox']
    S['diel'] = []
    S['chain'] = {}
    S['simple'] = {}
    z = 0
    fixed = {'poly': (0.32, 0.18), 'm1': (0.93, 0.1), 'm2': (1.37, 0.36)}
    for n, con in (('poly', 'polyc'), ('m1', 'via1'), ('m2', None)):
        e = layer(n, 'METAL')
        chain = p['chain'] if n == p.get('layer') else p.get('more', {}).get(n)
        if 'chain' in p and n != p['layer'] and chain is None:
            S[n] = fixed[n]
        else:
            S[n] = (c.real('z.' + n, 0.1, 5), pos(c, 't.' + n))
        e.metal_layer.z, e.metal_layer.thickness = S[n]
        if con:
            S[con] = pos(c, 't.' + con)
            e.metal_layer.contact_above.name = con
            e.metal_layer.contact_above.thickness = S[con]
        if n == p.get('layer') or n in p.get('more', {}):
            ref = n
            S['chain'][n] = []
            for i, kind in enumerate(chain or []):
                d = '%s_d%d' % (n, i)
                k = c.real('k.' + d, 1, 9)
                w = (c.int('w%d' % i, 0, 12) + 0.5) * DBU if p.get('width') else (0.0231, 0.0462)[i]
                if kind == 's':
                    e = layer(d, 'SIDEWALL_DIELECTRIC').sidewall_dielectric_layer
                    e.dielectric_k, e.reference, e.width_outside_sidewall = k, ref, w
                    h = c.real('h.' + d, 0, 2) if c.flag('has height of ' + d) else 0.0
                    if h is not 0.0:
                        c.assume(h > 0.01)
                    e.height_above_metal = h
                    rec = (d, w, h, None)
                else:
                    e = layer(d, 'CONFORMAL_DIELECTRIC').conformal_dielectric_layer
                    e.dielectric_k, e.reference, e.thickness_sidewall = k, ref, w
                    over, none = c.real('over.' + d, 0, 2), pos(c, 'none.' + d) if kind == 'cn' else 0.0
                    e.thickness_over_metal, e.thickness_where_no_metal = over, none
                    rec = (d, w, over, none)
                S['chain'][n].append(rec)
                S['diel'].append((d, k))
                ref = d
            if p['simple'] and chain is not None:
                k = c.real('k.%s_s' % n, 1, 9)
                layer(n + '_s', 'SIMPLE_DIELECTRIC').simple_dielectric_layer.dielectric_k = k
                S['simple'][n] = n + '_s'
                S['diel'].append((n + '_s', k))
    return tech_info(c, tech, p.get('filt', 'all')), S


class Recorder:
    """stands for the model builder and notes what it is given"""
    last = None

    def __init__(self, dbu, k_void, delaunay_amax=0.0, delaunay_b=1.0):
        self.args = (dbu, k_void, delaunay_amax, delaunay_b)
        self.materials, self.layers = [], []
        Recorder.last = self

    def add_material(self, name, k):
        self.materials.append((name, k))

    def add_conductor(self, net_name, layer, z, height):
        self.layers.append(('+', net_name, layer.dup(), z, height))

    def add_dielectric(self, material_name, layer, z, height):
        if not any(bool(m[0] == material_name) for m in self.materials):
            raise ValueError('unknown material')
        self.layers.append(('-', material_name, layer.dup(), z, height))

    def generate(self):
        return self


def included(p, n):
    return {'all': True, 'none': False, 'none,+m1_d0': n == 'm1_d0', 'all,-m1_s': n != 'm1_s', 'all,-m1_d1': n != 'm1_d1'}[p.get('filt', 'all')]


def run(c, p):
    k = c.kdb
    ti, S = stack(c, p)
    bbox = (-300, -200, 500, 400)
    # shapes: layer -> net -> boxes
    names = ['', c.str('net', 2, 65, 90)]
    nl = k.Netlist()
    for cn in ('OTHER', 'TOP'):
        circ = k.Circuit()
        circ.name = cn
        nl.add(circ)
        for i, n in enumerate(names):
            x = circ.create_net(n)
            x.cluster_id = i + 1
    shapes = {l: {0: [], 1: []} for l in GDS}
    if 'chain' in p:
        if not p.get('empty'):
            l = c.int('l', 0, 90)
            shapes[p['layer']][c.choice('of', [0, 1])].append((l, 0, 100, 50))
            for i, m in enumerate(p.get('more', {})):
                shapes[m][i % 2].append((20, 10, c.int('r of ' + m, 80, 190), 90))
            if p.get('two'):
                l2 = c.int('l2', 90, 160)
                shapes[p['layer']][0].append((l2, 20, 200, 80))
    else:
        geo = {'nsd': (0, 0, 100, 50), 'nsdc': (10, 10, 30, 30), 'poly': (0, 100, 100, 150), 'polyc': (10, 110, 30, 130),
               'm1': (0, 0, 100, 160), 'via1': (50, 10, 70, 30), 'm2': (40, 0, 200, 50)}
        for l in GDS:
            if l in p['flags']:
                n = c.choice('net of ' + l, [None, 0, 1, 2])
                if n == 2:      # both nets
                    g = geo[l]
                    shapes[l][0].append(g)
                    shapes[l][1].append((g[0] + 200, g[1] + 200, g[2] + 200, g[3] + 200))
                elif n is not None:
                    a = c.int('shift of ' + l, 0, 9)
                    g = geo[l]
                    shapes[l][n].append((g[0] + a, g[1], g[2] + a, g[3]))
        if p.get('nsd'):
            a, b = c.int('a', -200, 100), c.int('b', 0, 300)
            c.assume(a < b)
            shapes['nsd'][0].append((a, 0, b, 50))
            if c.flag('second'):
                shapes['nsd'][1].append((c.int('c', -250, 150), 100, 180, 150))

    def reg(bs):
        r = k.Region()
        for b in bs:
            r.insert(k.Box(*b))
        return r
    gds = {g: l for l, g in GDS.items()}
    nets = {}

    class Context:
        dbu = DBU
        annotated_top_cell = types.SimpleNamespace(name='TOP')
        lvsdb = types.SimpleNamespace(netlist=lambda: nl)

        def top_cell_bbox(self):
            return k.Box(*bbox)

        def shapes_of_net(self, gds_pair, net):
            l = gds.get((int(gds_pair[0]), int(gds_pair[1])))
            i = net.cluster_id - 1
            c.check(net.circuit().name == 'TOP', 'nets of the top circuit')
            r = reg(shapes[l][i])
            return r if shapes[l][i] else None

        def shapes_of_layer(self, gds_pair):
            l = gds.get((int(gds_pair[0]), int(gds_pair[1])))
            bs = shapes[l][0] + shapes[l][1]
            return reg(bs) if bs else None
    M = c.mod('klayout_pex.fastercap.fastercap_input_builder')
    old = M.FasterCapModelBuilder
    M.FasterCapModelBuilder = Recorder
    kv, am, b_ = c.real('k_void', 1, 9), c.real('amax', 0, 9), c.real('bmin', 0, 1)
    try:
        got = M.FasterCapInputBuilder(pex_context=Context(), tech_info=ti, k_void=kv, delaunay_amax=am, delaunay_b=b_).build()
    finally:
        M.FasterCapModelBuilder = old
    c.check(got is Recorder.last, 'the model generated is returned')
    c.check(c.all([c.eq(x, y) for x, y in zip(got.args, (DBU, kv, am, b_))]), 'model parameters as requested')
    want = [('fox', S['fox'])] + [d for d in S['diel'] if included(p, d[0])]
    c.check(len(got.materials) == len(want) and all(c.text(a[0]) == w[0] for a, w in zip(got.materials, want)),
            'all dielectrics, the field oxide first, then in stack order')
    for a, w in zip(got.materials, want):
        c.check_close(a[1], w[1], 'permittivities of the stack')
    # ---- conductors
    exp = []
    ex = []
    for i, n in enumerate(names):
        nm = n if n else [x for x in nl.circuit_by_name('TOP').each_net()][i].expanded_name()
        for m, con in (('poly', 'polyc'), ('m1', 'via1'), ('m2', None)):
            z, t = S[m]
            exp.append(('+', nm, shapes[m][i], z, t))
            if con:
                exp.append(('+', nm, shapes[con][i], z + t, S[con]))
        exp.append(('+', nm, shapes['nsd'][i], 0, 0.1))
        exp.append(('+', nm, shapes['nsdc'][i], 0, S['nsdc']))
        ex += [(g[0] - 200, g[1] - 200, g[2] + 200, g[3] + 200) for g in shapes['nsd'][i]]
    exp = [(a, b, reg(g), z, h) for a, b, g, z, h in exp if g]
    big = k.Box(bbox[0] - 1600, bbox[1] - 1600, bbox[2] + 1600, bbox[3] + 1600)
    allr = lambda: k.Region(big)
    exp.append(('+', 'VSUBS', allr() - reg(ex), -S['subh'] - S['subt'], S['subt']))
    # ---- dielectrics
    exp.append(('-', 'fox', allr(), 0, S['poly'][0]))
    order = ['poly', 'm1', 'm2']
    for m in order:
        z, t = S[m]
        ms = shapes[m][0] + shapes[m][1]
        inner, height = (reg(ms) if ms else None), 0
        nomet = None
        grow = 0
        for d, w, h, none in S['chain'].get(m, []):
            if not ms or not included(p, d):
                break
            grow = grow + (w // DBU if not c.sym and not p.get('width') else floor(c, w))
            inner = reg([(g[0] - grow, g[1] - grow, g[2] + grow, g[3] + grow) for g in ms])
            if none is None:
                height = height + (t if bool(c.eq(h, 0)) else h)
            else:
                height = height + t + h
            exp.append(('-', d, inner, z, height))
            if none is not None and bool(none > 0):
                exp.append(('-', d, allr() - inner, z, none))
                nomet = none
        if m in S['simple'] and included(p, S['simple'][m]):
            s = S['simple'][m]
            nxt = order[order.index(m) + 1:]
            H = S[nxt[0]][0] - z if nxt else 5.0
            rest = allr()
            if inner is not None:
                rest = rest - inner
                exp.append(('-', s, inner, z + height, H - height))
            exp.append(('-', s, rest, z + (nomet or 0), H - (nomet or 0)))
    compare(c, got.layers, exp)


def floor(c, w):
    import math
    if not c.sym:
        return math.floor(w / DBU)
    return c.mod('klayout_pex.fastercap.fastercap_input_builder').math.floor(w / DBU)


def compare(c, got, exp):
    """the same space filled with the same material"""
    L = 'every conductor and dielectric at its place in plan and height'

    def groups(ls):
        out = []
        for kind, n, r, z, h in ls:
            r = r.merged()
            if r.is_empty():
                continue
            for g in out:
                if g[0] == kind and bool(c.all([c.eq(g[1], n), eq(c, g[3], z), eq(c, g[4], h)])):
                    g[2] += r
                    break
            else:
                out.append([kind, n, r, z, h])
        return out
    G, X = groups(got), groups(exp)
    c.check(len(G) == len(X), L)
    for x in X:
        m = [g for g in G if g[0] == x[0] and bool(c.all([c.eq(g[1], x[1]), eq(c, g[3], x[3]), eq(c, g[4], x[4])]))]
        c.check(len(m) == 1, L)
        c.check((m[0][2] ^ x[2]).is_empty(), L)
    c.observe('layers', len(G))


def eq(c, a, b):
    if c.sym:
        return c.eq(a, b)
    return abs(a - b) < 1e-9


def missing(c, p):
    k = c.kdb
    ti, S = stack(c, dict(flags=()))
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'OTHER'
    nl.add(circ)
    ctx = types.SimpleNamespace(dbu=DBU, annotated_top_cell=types.SimpleNamespace(name='TOP'),
                                lvsdb=types.SimpleNamespace(netlist=lambda: nl))
    M = c.mod('klayout_pex.fastercap.fastercap_input_builder')
    try:
        M.FasterCapInputBuilder(pex_context=ctx, tech_info=ti).build()
        c.check(False, 'a netlist without the cell is an error')
    except Exception as e:
        c.own(e)
        c.check('TOP' in str(e), 'a netlist without the cell is an error')
