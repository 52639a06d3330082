"""The 2.5D engine from the LVS database to the result: overlap, sidewall and fringe capacitances of all layers; modes; resistance."""
from sidelib import *
from ctxlib import LVSDB
import ctxlib

META = {
    'bounds': ['technology with 4 conductors, one of them made of two LVS layers (drawn and capacitor part), vias, substrate',
               'up to 3 boxes in any LVS layers with one or two symbolic coordinates, every net assignment among them; with and without black boxing',
               'every extraction mode, both fringe models, halo of 1, 2 or 3.5 µm, database units 0.05 and 0.025, any triangulation parameters'],
    'outside': ['the resistance extraction itself (C11) and the marker database', 'cells whose LVS layout is smaller than its nets'],
}
SW = {'poly': (17.0, 0.25), 'li': (31.0, 0.125), 'cm': (11.0, 0.75), 'met1': (21.0, 0.5)}
L = [SUB, 'poly', 'li', 'cm', 'met1']
OV = {('poly', SUB): 3.0, ('li', SUB): 4.0, ('cm', SUB): 5.0, ('met1', SUB): 2.0, ('li', 'poly'): 50.0, ('cm', 'poly'): 30.0, ('met1', 'poly'): 20.0,
      ('cm', 'li'): 900.0, ('met1', 'li'): 70.0, ('met1', 'cm'): 80.0}
SO = {}
for i_, (t_, b_) in enumerate(OV):
    SO[t_, b_] = 3000.0 + 100 * i_
    if b_ != SUB:
        SO[b_, t_] = 6000.0 + 70 * i_
# LVS layers of this technology
MY = {'m1_con': ('REGULAR', (68, 20), 'poly', (68, 20)), 'm2_ncap': ('REGULAR', (69, 20), 'li', None), 'm2_cap': ('DEVICE_CAPACITOR', (69, 120), 'li', None),
      'cm': ('DEVICE_CAPACITOR', (89, 44), 'cm', None), 'm3_con': ('REGULAR', (70, 20), 'met1', None), 'v1_con': ('REGULAR', (68, 44), 'v1', None),
      'v2_ncap': ('REGULAR', (69, 144), 'v2', None), 'm1_pin': ('PIN', (68, 16), 'm1.pin', None), 'm1_vpp': ('DEVICE_CAPACITOR', (68, 200), 'poly', None)}
LVSOF = {n: v[2] for n, v in MY.items()}
BB = ('m2_cap', 'cm', 'm1_vpp')


def technology(c, halo):
    T = c.pb('tech.tech')
    P = c.pb('tech.process_stack').ProcessStackInfo
    tech = tech_pb(c)
    for n, g in (('poly', (68, 20)), ('li', (69, 20)), ('cm', (89, 44)), ('met1', (70, 20)), ('v1', (68, 44))):
        e = tech.layers.add()
        e.name = n
        e.drw_gds_pair.layer, e.drw_gds_pair.datatype = g
    for n, (kind, g, orig, _) in MY.items():
        e = tech.lvs_computed_layers.add()
        e.kind = getattr(T.ComputedLayerInfo.Kind, 'KIND_' + kind)
        e.layer_info.name = n
        e.layer_info.drw_gds_pair.layer, e.layer_info.drw_gds_pair.datatype = g
        e.original_layer_name = orig
    e = tech.process_stack.layers.add()
    e.name, e.layer_type = SUB, P.LAYER_TYPE_SUBSTRATE
    e = tech.process_stack.layers.add()
    e.name, e.layer_type = 'fox', P.LAYER_TYPE_FIELD_OXIDE
    for n, via in (('poly', 'v1_con'), ('m2_ncap', 'v2_ncap'), ('m2_cap', None), ('cm', 'v2_cap'), ('met1', None)):
        e = tech.process_stack.layers.add()
        e.name, e.layer_type = n, P.LAYER_TYPE_METAL
        e.metal_layer.z = 1.0
        if via:
            e.metal_layer.contact_above.name = via
    tech.process_parasitics.side_halo = halo
    add_caps(tech, substrates=[(l, OV[l, SUB], SO[l, SUB]) for l in L[1:]],
             overlaps=[(t, b, v) for (t, b), v in OV.items() if b != SUB], sidewalls=[(l, v, o) for l, (v, o) in SW.items()],
             sideoverlaps=[(i, o, v) for (i, o), v in SO.items() if o != SUB])
    return tech_info(c, tech)


def cases(tier):
    out = []
    for k in ('split', 'stack', 'lateral', 'plate', 'vpp'):
        for bb in (False, True):
            if bb and k in ('lateral', 'stack') and tier == 'quick':
                continue
            out.append(dict(name='%s-%d' % (k, bb), fn='run', params=dict(kind=k, bb=bb)))
    for h, dbu in ((1.0, 0.05), (3.5, 0.05), (2.0, 0.025)):
        out.append(dict(name='halo-%g-%g' % (h, dbu), fn='run', params=dict(kind='border', bb=False, halo=h, dbu=dbu)))
    out.append(dict(name='scaled', fn='run', params=dict(kind='lateral', bb=False, scale=True)))
    for m in ('CC', 'RC', 'R', 'DEFAULT'):
        out.append(dict(name='mode-' + m, fn='mode', params=dict(mode=m)))
    return out


def run_engine(c, ls, shapes, bb, halo, dbu, mode='CC', scale=False, amax=50, bpar=0.5, frame=(-20, -20, 120, 120)):
    k = c.kdb
    nl = k.Netlist()
    ci = k.Circuit()
    ci.name = 'TOP'
    nl.add(ci)
    ctxlib.LV.update(MY)
    db = LVSDB(c, ls, [(n, g, net, False) for n, net, g in shapes], circuit=nl, extra=[frame])
    db.lay.dbu = dbu
    ti = technology(c, halo)
    X = c.mod('klayout_pex.klayout.lvsdb_extractor')
    ctx = X.KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell='TOP', tech=ti, blackbox_devices=bb)
    E = c.mod('klayout_pex.rcx25.extractor')
    M = c.mod('klayout_pex.rcx25.pex_mode').PEXMode
    log = []

    class Rex:
        def __init__(self, *a, **kw):
            log.append(('init', kw))

        def prepare_request(self):
            return 'REQUEST'

        def extract(self, rq):
            log.append(('extract', rq))
            return 'NETWORKS'
    old = E.ExtractionReporter, E.RExtractor
    E.ExtractionReporter, E.RExtractor = (lambda **kw: Sink()), Rex
    try:
        res = E.RCX25Extractor(pex_context=ctx, pex_mode=getattr(M, mode), scale_ratio_to_fit_halo=scale, delaunay_amax=amax,
                               delaunay_b=bpar, tech_info=ti, report_path='/nowhere/report').extract()
    finally:
        E.ExtractionReporter, E.RExtractor = old
    c.check(list(res.cell_extraction_results) == ['TOP'] and res.cell_extraction_results['TOP'].cell_name == 'TOP', 'result of the extracted cell')
    return res.cell_extraction_results['TOP'], log, ctx


def overlaps(c, shapes, dbu):
    out = []
    for i, (lb, nb, gb) in enumerate(shapes):
        for lt, nt, gt in shapes:
            if L.index(lt) <= L.index(lb) or bool(c.eq(nb, nt)):
                continue
            cut = [s[2] for s in shapes if L.index(lb) < L.index(s[0]) < L.index(lt) and not bool(c.eq(s[1], nb))]
            v = area_minus(inter(gb, gt), cut)
            if not bool(v == 0):
                out.append((lt, nt, lb, nb, v * dbu * dbu * OV[lt, lb] / 1000))
    return out


def compare_overlap(c, res, want):
    got = []
    for key, lst in res.overlap_table.items():
        for e in lst:
            got.append((c.text(key.layer_top), key.net_top, c.text(key.layer_bot), key.net_bot, e.cap_value))
    same = lambda p, q: p[0] == q[0] and p[2] == q[2] and bool(c.eq(p[1], q[1])) and bool(c.eq(p[3], q[3]))
    for e in want + got:
        c.check_close(total(c, got, lambda x: same(x, e)), total(c, want, lambda x: same(x, e)), 'overlap capacitance of two nets')


def scene(c, p):
    """-> LVS layers, shapes (LVS layer, net, box)"""
    k = p['kind']
    net = lambda n: c.choice('net.' + n, ['A', 'B'])
    g = c.int('g', 1, 30)
    if k == 'split':
        # a plate made of a capacitor part and the rest, over a wire
        w = c.int('w', 5, 50)
        return ['cm', 'm2_cap', 'm1_con', 'm2_ncap', 'm3_con'], [('m1_con', 'C', (0, 10, 90, 20)), ('m2_ncap', 'A', (5, 0, 5 + w, 60)), ('m2_cap', net('c'), (60 + g, 0, 100, 60))]
    if k == 'plate':
        return ['m2_cap', 'cm', 'm2_ncap', 'm1_con', 'm1_pin'], [('m2_cap', 'A', (0, 0, 50 + g, 60)), ('cm', net('p'), (10, 10, 60, 40)), ('m1_con', 'C', (-10, 5, 30 + g, 25)),
                                                                ('m1_pin', 'C', (0, 5, 9, 25))]
    if k == 'stack':
        t = c.int('t', 2, 70)
        return ['m3_con', 'v1_con', 'm2_ncap', 'm1_con'], [('m1_con', 'A', (0, 0, 60, 40)), ('m2_ncap', net('m'), (20, 5, 20 + t, 30)), ('m3_con', 'C', (10, 10, 20 + g, 60)),
                                                           ('v1_con', 'A', (22, 6, 26, 10))]
    if k == 'lateral':
        return ['m1_con', 'm2_ncap', 'm3_con'], [('m1_con', 'A', (0, 0, 60, 20)), ('m1_con', net('l'), (5, 20 + g, 50, 60 + g)), ('m2_ncap', 'C', (0, 25, 40, 45))]
    if k == 'vpp':
        return ['m1_vpp', 'm1_con', 'm2_ncap'], [('m1_vpp', 'B', (0, 30 + g, 60, 80)), ('m1_con', 'A', (0, 0, 60, 20)), ('m2_ncap', net('v'), (0, 5, 60, 20 + g))]
    # a wire at the border of the cell
    return ['m1_con', 'm2_ncap'], [('m1_con', 'A', (0, 0, 20 + g, 20)), ('m2_ncap', net('b'), (-15, 40, 0, 80))]


def run(c, p):
    halo, dbu = p.get('halo', 2.0), p.get('dbu', 0.05)
    ls, shapes = scene(c, p)
    scale = p.get('scale', False)
    frame = (-15, 0, 50, 90) if p['kind'] == 'border' else (-20, -20, 120, 120)
    res, log, ctx = run_engine(c, ls, shapes, p['bb'], halo, dbu, scale=scale, frame=frame)
    q = int(round(halo / dbu))
    sub = (SUB, SUB, (frame[0] - q, frame[1] - q, frame[2] + q, frame[3] + q))
    mine = [sub] + [(LVSOF[n], net, g) for n, net, g in shapes if not (p['bb'] and n in BB) and n not in ('m1_pin', 'v1_con', 'm1_vpp')]
    compare_overlap(c, res, overlaps(c, mine, dbu))
    side, fringe = expected(c, L, mine, dbu, halo, SW, OV, SO, scale)
    compare_sidewall(c, res, side)
    compare_fringe(c, res, fringe)
    c.check(not log and res.r_extraction_result is None or not res.r_extraction_result.networks, 'no resistances unless asked for')


def mode(c, p):
    amax, bpar = c.real('amax', 0, 1000), c.real('b', 0, 10)
    g = c.int('g', 1, 30)
    shapes = [('m1_con', 'A', (0, 0, 60, 20)), ('m1_con', 'B', (5, 20 + g, 50, 60 + g)), ('m2_ncap', 'C', (0, 5, 60, 20 + g))]
    res, log, ctx = run_engine(c, ['m2_ncap', 'm1_con'], shapes, False, 2.0, 0.05, mode=p['mode'], amax=amax, bpar=bpar)
    n = len(res.overlap_table) + len(res.sidewall_table) + len(res.sideoverlap_table)
    if p['mode'] == 'R':
        c.check(n == 0, 'no capacitances unless asked for')
    else:
        c.check(len(res.overlap_table) > 0 and len(res.sidewall_table) > 0 and len(res.sideoverlap_table) > 0, 'capacitances of every kind')
    if p['mode'] in ('R', 'RC'):
        c.check(res.r_extraction_result == 'NETWORKS', 'resistances are part of the result')
        kw = [k for w, k in log if w == 'init'][0]
        c.check(kw['pex_context'] is ctx, 'resistances of the same cell')
        c.check_close(kw['delaunay_b'], bpar, 'triangulation parameter b')
        c.check_close(kw['delaunay_amax'], amax, 'triangulation parameter amax')
        c.check([k for w, k in log if w == 'extract'] == ['REQUEST'], 'the prepared request is extracted')
    else:
        c.check(not log, 'no resistances unless asked for')
