"""Technology tables: every declared coefficient is found under its own layers, and nothing else is."""
from lib import *

META = {
    'bounds': ['3 conducting layers; every subset of substrate / overlap / sidewall / side-overlap declarations, in two orders', 'all coefficient values'],
    'outside': ['more layers', 'several declarations for one layer pair'],
}
SUB = 'VSUBS'
LS = ['poly', 'li', 'met1']


def cases(tier):
    out = []
    for rev in (False, True):
        for k in ('substrate', 'overlap', 'sideoverlap', 'sidewall'):
            out.append(dict(name='%s-%d' % (k, rev), fn=k, params=dict(rev=rev, n=3 if tier == 'thorough' else 2 if k != 'sidewall' else 3)))
    out.append(dict(name='resistance', fn='resistance', params={}))
    return out


def order(p, xs):
    return list(reversed(xs)) if p['rev'] else xs


def substrate(c, p):
    tech = tech_pb(c)
    d = [(l, c.real('a.' + l), c.real('p.' + l)) for l in order(p, LS) if c.flag('sub.' + l)]
    add_caps(tech, substrates=d)
    ti = tech_info(c, tech)
    d = {l: (a, q) for l, a, q in d}
    t, o, s = ti.substrate_cap_by_layer_name, ti.overlap_cap_by_layer_names, ti.side_overlap_cap_by_layer_names
    c.check(set(t.keys()) == set(d) and set(o.keys()) == set(d) and set(s.keys()) == set(d), 'tables list exactly the declared layers')
    for l, (a, q) in d.items():
        c.check_close(t[l].area_capacitance, a, 'substrate area coefficient')
        c.check_close(t[l].perimeter_capacitance, q, 'substrate perimeter coefficient')
        c.check(set(o[l].keys()) == {SUB} and set(s[l].keys()) == {SUB}, 'substrate is the only partner')
        c.check_close(o[l][SUB].capacitance, a, 'overlap with the substrate is the area coefficient')
        c.check_close(s[l][SUB].capacitance, q, 'side overlap with the substrate is the perimeter coefficient')
        c.check(c.text(o[l][SUB].top_layer_name) == l and c.text(o[l][SUB].bottom_layer_name) == SUB, 'converted overlap names')
        c.check(c.text(s[l][SUB].in_layer_name) == l and c.text(s[l][SUB].out_layer_name) == SUB, 'converted side overlap names')
    c.observe('n', len(t))


def table(c, p, kind):
    tech = tech_pb(c)
    subs = [(l, c.real('a.' + l), c.real('p.' + l)) for l in LS[:2] if c.flag('sub.' + l)]
    pairs = [('li', 'poly'), ('met1', 'poly'), ('met1', 'li')] if kind == 'o' else [('poly', 'li'), ('li', 'poly'), ('met1', 'poly'), ('poly', 'met1')]
    d = [(a, b, c.real('k.%s.%s' % (a, b))) for a, b in order(p, pairs) if c.flag('has.%s.%s' % (a, b))]
    add_caps(tech, substrates=subs, **({'overlaps': d} if kind == 'o' else {'sideoverlaps': d}))
    ti = tech_info(c, tech)
    t = ti.overlap_cap_by_layer_names if kind == 'o' else ti.side_overlap_cap_by_layer_names
    exp = {(l, SUB): (a if kind == 'o' else q) for l, a, q in subs}
    exp.update({(a, b): v for a, b, v in d})
    got = [(a, b) for a in t.keys() for b in t[a].keys()]
    c.check(sorted(got) == sorted(exp), 'exactly the declared layer pairs are listed')
    for (a, b), v in exp.items():
        c.check_close(t[a][b].capacitance, v, 'coefficient of the layer pair')
    c.observe('pairs', sorted(map(list, got)))


def overlap(c, p):
    table(c, p, 'o')


def sideoverlap(c, p):
    table(c, p, 's')


def sidewall(c, p):
    tech = tech_pb(c)
    d = [(l, c.real('k.' + l), c.real('o.' + l)) for l in order(p, LS) if c.flag('has.' + l)]
    add_caps(tech, sidewalls=d)
    t = tech_info(c, tech).sidewall_cap_by_layer_name
    c.check(set(t.keys()) == {l for l, _, _ in d}, 'exactly the declared layers are listed')
    for l, k, o in d:
        c.check_close(t[l].capacitance, k, 'sidewall coefficient')
        c.check_close(t[l].offset, o, 'sidewall offset')
    c.observe('n', len(t))


def resistance(c, p):
    tech = tech_pb(c)
    r = tech.process_parasitics.resistance
    lay = [(l, c.real('r.' + l)) for l in LS if c.flag('lay.' + l)]
    con = [(l, c.real('c.' + l)) for l in ('nsdm', 'poly') if c.flag('con.' + l)]
    via = [(l, c.real('v.' + l)) for l in ('via1', 'via2') if c.flag('via.' + l)]
    for l, v in lay:
        e = r.layers.add()
        e.layer_name, e.resistance = l, v
    for l, v in con:
        e = r.contacts.add()
        e.contact_name, e.device_layer_name, e.layer_above, e.resistance = 'licon', l, 'li1', v
    for l, v in via:
        e = r.vias.add()
        e.via_name, e.resistance = l, v
    ti = tech_info(c, tech)
    for t, d in ((ti.layer_resistance_by_layer_name, lay), (ti.contact_resistance_by_device_layer_name, con), (ti.via_resistance_by_layer_name, via)):
        c.check(set(t.keys()) == {l for l, _ in d}, 'exactly the declared resistances are listed')
        for l, v in d:
            c.check_close(t[l].resistance, v, 'resistance value')
    m = c.real('m')
    w = c.real('w')
    ct = c.pb('tech.process_stack').ProcessStackInfo.Contact()
    ct.width = w
    c.check_close(ti.milliohm_to_ohm(m) * 1000, m, 'milliohm to ohm')
    cr = c.pb('tech.process_parasitics').ResistanceInfo.ContactResistance()
    cr.resistance = m
    vr = c.pb('tech.process_parasitics').ResistanceInfo.ViaResistance()
    vr.resistance = m
    c.check_close(ti.milliohm_by_cnt_to_ohm_by_square_for_contact(ct, cr) * 1000, m * w * w, 'contact resistance per area')
    c.check_close(ti.milliohm_by_cnt_to_ohm_by_square_for_via(ct, vr) * 1000, m * w * w, 'via resistance per area')
