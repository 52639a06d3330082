"""Resistance technology: every conductor and via of the extraction gets exactly its declared resistance in KLayout's units."""
from lib import *

META = {
    'bounds': ['up to 6 extracted computed layers (two metals, implant, contact, two vias sharing one canonical layer, pins, unknown), computed layers named differently from or like their drawn layer',
               'every resistance, contact width, triangulation parameter and merge distance'],
    'outside': ['more layers'],
}
# computed layer name -> (canonical, gds, purpose)
LAYERS = {
    'poly_con': ('poly', (66, 20), 'PURPOSE_METAL'),
    'met1_con': ('met1', (68, 20), 'PURPOSE_METAL'),
    'met2_con': ('met2', (69, 20), 'PURPOSE_METAL'),
    'nsd': ('nsdm', (93, 144), 'PURPOSE_N_IMPLANT'),
    'psd': ('psdm', (94, 20), 'PURPOSE_P_IMPLANT'),
    'licon_nsd': ('licon1', (66, 44), 'PURPOSE_CONTACT'),
    'licon_poly': ('licon1', (66, 144), 'PURPOSE_VIA'),
    'via1': ('via', (68, 44), 'PURPOSE_VIA'),
    'via1_cap': ('via', (68, 144), 'PURPOSE_VIA'),
    'met1_pin': ('met1', (68, 16), 'PURPOSE_METAL'),
    'nwell': ('nwell', (64, 20), 'PURPOSE_NWELL'),
}
IDS = {v[1]: i + 1 for i, v in enumerate(LAYERS.values())}


def cases(tier):
    sets = [['met1_con', 'met2_con', 'via1'], ['via1', 'via1_cap', 'met1_con'], ['nsd', 'licon_nsd', 'met1_con'], ['poly_con', 'licon_poly', 'met1_con'],
            ['met1_con', 'met1_pin'], ['nwell', 'met1_con', '?'], ['psd', 'nsd', 'licon_nsd', 'poly_con']]
    sets += [['via1_cap', 'met2_con', 'via1']]
    out = [dict(name='tech-%s%s' % ('+'.join(s), '-plain' if plain else ''), fn='rtech', params=dict(layers=s, plain=plain)) for s in sets for plain in (0, 1)]
    out.append(dict(name='klayout', fn='klayout', params={}))
    out.append(dict(name='units', fn='units', params={}))
    return out


# computed layers may also have the name of their drawn layer
PLAIN = {'poly_con': 'poly', 'met1_con': 'met1', 'met2_con': 'met2', 'nsd': 'nsdm', 'via1': 'via', 'licon_nsd': 'licon1'}


def namer(p):
    return (lambda n: PLAIN.get(n, n)) if p['plain'] else (lambda n: n)


def Lay():
    return LayerTable(IDS)


class Ctx:
    pass


class Src:
    def __init__(self, name, gds):
        self.lvs_layer_name, self.gds_pair = name, gds


class Merged:
    def __init__(self, src, gds):
        self.source_layers, self.gds_pair = src, gds


def technology(c, p, decl):
    tech = tech_pb(c)
    T = c.pb('tech.tech')
    K = T.ComputedLayerInfo.Kind
    nm = namer(p)
    for n, (can, gds, purpose) in LAYERS.items():
        e = tech.lvs_computed_layers.add()
        e.kind = K.KIND_PIN if n.endswith('_pin') else K.KIND_DEVICE_CAPACITOR if n.endswith('_cap') else K.KIND_REGULAR
        e.layer_info.name = nm(n)
        e.layer_info.purpose = getattr(T.LayerInfo.Purpose, purpose)
        e.layer_info.drw_gds_pair.layer, e.layer_info.drw_gds_pair.datatype = gds
        e.original_layer_name = can
    for can, g in (('poly', (66, 20)), ('met1', (68, 20)), ('met2', (69, 20)), ('nsdm', (93, 144)), ('psdm', (94, 20))):
        l = tech.layers.add()
        l.name = can
        l.drw_gds_pair.layer, l.drw_gds_pair.datatype = g
    LT = c.pb('tech.process_stack').ProcessStackInfo.LayerType

    def stack(name, kind, contact):
        ly = tech.process_stack.layers.add()
        ly.name = nm(name)
        ly.layer_type = LT.LAYER_TYPE_DIFFUSION if kind == 'd' else LT.LAYER_TYPE_METAL
        sub = ly.diffusion_layer if kind == 'd' else ly.metal_layer
        sub.z = 0.1
        if contact and contact[0] in decl['contacts']:
            ct = sub.contact_above
            ct.name, ct.layer_below, ct.metal_above, ct.width = nm(contact[0]), contact[1], contact[2], decl['contacts'][contact[0]]
    stack('nsd', 'd', ('licon_nsd', 'nsdm', 'met1'))
    stack('poly', 'm', ('licon_poly', 'poly', 'met1'))
    stack('met1', 'm', ('via1', 'met1', 'met2'))
    stack('mim', 'm', ('via1_cap', 'met1', 'met2'))
    stack('met2', 'm', None)
    R = tech.process_parasitics.resistance
    for n, v in decl['layers'].items():
        e = R.layers.add()
        e.layer_name, e.resistance = n, v
    for n, v in decl['cres'].items():
        e = R.contacts.add()
        e.device_layer_name, e.contact_name, e.resistance = n, 'licon1', v
    for n, v in decl['vias'].items():
        e = R.vias.add()
        e.via_name, e.resistance = n, v
    return tech


def rtech(c, p):
    RX = c.mod('klayout_pex.rcx25.r.r_extractor')
    RT = c.mod('klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2').RExtractorTech
    A = RT.Algorithm
    nm = namer(p)
    decl = dict(layers={}, cres={}, vias={}, contacts={})
    for n in ('poly', 'met1', 'met2'):
        decl['layers'][n] = c.real('r_' + n, 0, 100000)
    use = p['layers']
    if 'licon_nsd' in use:
        if c.flag('has_c'):
            decl['contacts']['licon_nsd'] = c.real('w_c', 0, 10)
        if c.flag('has_cres'):
            decl['cres']['nsdm'] = c.real('r_c', 0, 1000000)
    asked = set()
    for n, can in (('licon_poly', 'licon1'), ('via1', 'via'), ('via1_cap', 'via')):
        if n in use:
            if c.flag('has_' + n):
                decl['contacts'][n] = c.real('w_' + n, 0, 10)
            if can not in asked:
                asked.add(can)
                if c.flag('hasr_' + can):
                    decl['vias'][can] = c.real('r_' + can, 0, 1000000)
    ti = tech_info(c, technology(c, p, decl))
    ctx = Ctx()
    ctx.tech, ctx.dbu, ctx.annotated_layout = ti, 0.001, Lay()
    ctx.extracted_layers = {}
    for n in use:
        g = LAYERS[n][1] if n != '?' else (99, 99)
        ctx.extracted_layers[g] = Merged([Src(nm(n), g)], g)
    b, amax, md = c.real('b', 0, 10), c.real('amax', 0, 100), c.real('md', 0, 10)
    skip = c.flag('skip')
    rx = RX.RExtractor(pex_context=ctx, substrate_algorithm=A.ALGORITHM_TESSELATION, wire_algorithm=A.ALGORITHM_SQUARE_COUNTING,
                       delaunay_b=b, delaunay_amax=amax, via_merge_distance=md, skip_simplify=skip)
    t = RT()
    rx.prepare_r_extractor_tech_pb(t)
    c.check(t.skip_simplify == skip, 'simplification flag')
    exp_c, exp_v = {}, {}
    for n in use:
        if n in ('?', 'nwell') or n.endswith('_pin'):
            continue
        can, g, purpose = LAYERS[n]
        if purpose == 'PURPOSE_METAL':
            exp_c[nm(n)] = (decl['layers'][can] / 1000.0, A.ALGORITHM_SQUARE_COUNTING)
        elif purpose in ('PURPOSE_N_IMPLANT', 'PURPOSE_P_IMPLANT'):
            exp_c[nm(n)] = (0.0, A.ALGORITHM_TESSELATION)
        elif n == 'licon_nsd':
            if n in decl['contacts'] and 'nsdm' in decl['cres']:
                exp_v[nm(n)] = (decl['cres']['nsdm'] / 1000.0 * decl['contacts'][n] * decl['contacts'][n], 'nsdm', 'met1')
        else:
            if n in decl['contacts'] and can in decl['vias']:
                bt = {'licon_poly': ('poly', 'met1'), 'via1': ('met1', 'met2'), 'via1_cap': ('met1', 'met2')}[n]
                exp_v[nm(n)] = (decl['vias'][can] / 1000.0 * decl['contacts'][n] * decl['contacts'][n],) + bt
    x = c.text
    back = {nm(n): v for n, v in LAYERS.items()}
    c.check(sorted(x(k.layer.lvs_layer_name) for k in t.conductors) == sorted(exp_c), 'one conductor per extracted conducting layer')
    c.check(sorted(x(k.layer.lvs_layer_name) for k in t.vias) == sorted(exp_v), 'one via per extracted via layer with a declared resistance')
    for k in t.conductors:
        n = x(k.layer.lvs_layer_name)
        r, alg = exp_c[n]
        c.check_close(k.resistance, r, 'sheet resistance in Ohm')
        c.check(k.layer.id == IDS[back[n][1]] and x(k.layer.canonical_layer_name) == back[n][0], 'conductor layer')
        c.check(k.algorithm == alg, 'algorithm')
        c.check_close(k.triangulation_min_b, b, 'Delaunay b')
        c.check_close(k.triangulation_max_area, amax, 'Delaunay max area')
    gds = {'poly': (66, 20), 'met1': (68, 20), 'met2': (69, 20), 'nsdm': (93, 144)}
    for k in t.vias:
        n = x(k.layer.lvs_layer_name)
        r, bot, top = exp_v[n]
        c.check_close(k.resistance, r, 'via resistance times cut area in Ohm')
        c.check(k.layer.id == IDS[back[n][1]] and x(k.layer.canonical_layer_name) == back[n][0], 'via layer')
        c.check(k.bottom_conductor.id == IDS[gds[bot]] and k.top_conductor.id == IDS[gds[top]], 'layers connected by the via')
        c.check_close(k.merge_distance, md, 'merge distance')
    c.observe('t', [[x(k.layer.lvs_layer_name), k.resistance] for k in list(t.conductors) + list(t.vias)])


class Rec:
    def __init__(self):
        self.conductors, self.vias = [], []

    def add_conductor(self, x):
        self.conductors.append(x)

    def add_via(self, x):
        self.vias.append(x)


class Plain:
    pass


class Klp:
    RExtractorTech, RExtractorTechConductor, RExtractorTechVia = Rec, Plain, Plain

    class Algorithm:
        SquareCounting, Tesselation = 'SC', 'TE'


def klayout(c, p):
    """transfer to the KLayout extractor (recorded by a stand-in)"""
    M = c.mod('klayout_pex.klayout.rex_core')
    RT = c.mod('klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2').RExtractorTech
    M.klp = Klp
    t = RT()
    t.skip_simplify = c.flag('skip')
    n, m = c.choice('n', [0, 1, 2]), c.choice('m', [0, 1, 2])
    exp = []
    for i in range(n):
        k = t.conductors.add()
        k.layer.id = c.int('id%d' % i, 0, 1000)
        alg = c.choice('alg%d' % i, ['SC', 'TE'])
        k.algorithm = RT.Algorithm.ALGORITHM_SQUARE_COUNTING if alg == 'SC' else RT.Algorithm.ALGORITHM_TESSELATION
        k.triangulation_min_b, k.triangulation_max_area = c.real('b%d' % i), c.real('a%d' % i)
        k.resistance = c.real('r%d' % i, 0, None)
        exp.append((k, alg))
    for i in range(m):
        k = t.vias.add()
        k.layer.id, k.bottom_conductor.id, k.top_conductor.id = [c.int('%s%d' % (x, i), 0, 1000) for x in ('v', 'vb', 'vt')]
        k.resistance, k.merge_distance = c.real('vr%d' % i, 0, None), c.real('vm%d' % i, 0, None)
    r = M.klayout_r_extractor_tech(t)
    c.check(len(r.conductors) == n and len(r.vias) == m, 'every conductor and via is passed on')
    c.check(r.skip_simplify == t.skip_simplify, 'simplification flag')
    for (k, alg), g in zip(exp, r.conductors):
        c.check(g.layer == k.layer.id, 'conductor layer')
        c.check(g.algorithm == alg, 'algorithm')
        c.check_close(g.triangulation_min_b, k.triangulation_min_b, 'b')
        c.check_close(g.triangulation_max_area, k.triangulation_max_area, 'max area')
        c.check_close(g.resistance, k.resistance, 'resistance')
    for k, g in zip(t.vias, r.vias):
        c.check(c.all([g.cut_layer == k.layer.id, g.bottom_conductor == k.bottom_conductor.id, g.top_conductor == k.top_conductor.id]), 'via layers')
        c.check_close(g.resistance, k.resistance, 'via resistance')
        c.check_close(g.merge_distance, k.merge_distance, 'merge distance')


def units(c, p):
    T = c.mod('klayout_pex.tech_info').TechInfo
    PS = c.pb('tech.process_stack').ProcessStackInfo
    PP = c.pb('tech.process_parasitics').ResistanceInfo
    r, w = c.real('r', 0, 1000000), c.real('w', 0, 100)
    c.check_close(T.milliohm_to_ohm(r), r / 1000, 'milliohm to ohm')
    ct = PS.Contact()
    ct.width = w
    v = PP.ViaResistance()
    v.resistance = r
    k = PP.ContactResistance()
    k.resistance = r
    c.check_close(T.milliohm_by_cnt_to_ohm_by_square_for_via(contact=ct, via_resistance=v), r * w * w / 1000, 'via resistance area product')
    c.check_close(T.milliohm_by_cnt_to_ohm_by_square_for_contact(contact=ct, contact_resistance=k), r * w * w / 1000, 'contact resistance area product')
