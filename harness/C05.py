"""Technology stack queries: layer kinds, dielectric filter, dielectric neighbours, GDS layers, contacts."""
from lib import *

META = {
    'bounds': ['stacks of up to 5 layers (thorough: 6), each of any kind, any reference; every heights/permittivity value',
               'dielectric filter patterns all/none/+name/-name', 'up to 3 drawn and 2 computed layers with any GDS numbers'],
    'outside': ['larger stacks'],
}


def cases(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    for f in (None, 'all', 'none', 'all,-d2', 'none,+d2,+d3'):
        out.append(dict(name='stack-%s' % f, fn='stack', params=dict(n=n, filt=f)))
    out.append(dict(name='gds', fn='gds', params={}))
    out.append(dict(name='contacts', fn='contacts', params={}))
    return out


def included(f, name):
    return {None: True, 'all': True, 'none': False, 'all,-d2': name != 'd2', 'none,+d2,+d3': name in ('d2', 'd3')}[f]


def stack(c, p):
    tech = tech_pb(c)
    PS = c.pb('tech.process_stack').ProcessStackInfo
    LT = PS.LayerType
    lay = []
    kinds = ['metal', 'simple', 'conformal', 'sidewall', 'diffusion']
    # first layer metal; then anything
    for i in range(p['n']):
        kind = 'metal' if i == 0 else c.choice('kind%d' % i, kinds[:4] if i < p['n'] - 1 else ['metal', 'simple', 'diffusion'])
        ly = tech.process_stack.layers.add()
        ly.name = 'd%d' % i
        k = c.real('k%d' % i, 1, 10)
        ref = None
        if kind == 'metal':
            ly.layer_type = LT.LAYER_TYPE_METAL
            ly.metal_layer.z = k
            ly.metal_layer.thickness = 0.3
        elif kind == 'simple':
            ly.layer_type = LT.LAYER_TYPE_SIMPLE_DIELECTRIC
            ly.simple_dielectric_layer.dielectric_k = k
        elif kind == 'diffusion':
            ly.layer_type = LT.LAYER_TYPE_DIFFUSION
            ly.diffusion_layer.z = 0.0
        else:
            ref = c.choice('ref%d' % i, ['d0', 'd1'])
            if kind == 'conformal':
                ly.layer_type = LT.LAYER_TYPE_CONFORMAL_DIELECTRIC
                ly.conformal_dielectric_layer.dielectric_k = k
                ly.conformal_dielectric_layer.reference = ref
            else:
                ly.layer_type = LT.LAYER_TYPE_SIDEWALL_DIELECTRIC
                ly.sidewall_dielectric_layer.dielectric_k = k
                ly.sidewall_dielectric_layer.reference = ref
        lay.append((kind, 'd%d' % i, k, ref))
    if p['filt'] is None:
        ti = c.mod('klayout_pex.tech_info').TechInfo(tech=tech, dielectric_filter=None)
    else:
        ti = tech_info(c, tech, p['filt'])
    f = p['filt']
    T = c.text
    diel = [x for x in lay if x[0] in ('simple', 'conformal', 'sidewall') and included(f, x[1])]
    c.check([T(x.name) for x in ti.filtered_dielectric_layers] == [x[1] for x in diel], 'filtered dielectrics in stack order')
    c.check([T(x.name) for x in ti.process_metal_layers] == [x[1] for x in lay if x[0] == 'metal'], 'metal layers in stack order')
    c.check([T(x.name) for x in ti.process_diffusion_layers] == [x[1] for x in lay if x[0] == 'diffusion'], 'diffusion layers')
    c.check(T(ti.gate_poly_layer.name) == 'd0', 'gate poly is the lowest conductor')
    d = ti.dielectric_by_name
    c.check(sorted(d.keys()) == sorted(x[1] for x in diel), 'permittivities of exactly the filtered dielectrics')
    for kind, n, k, ref in diel:
        c.check_close(d[n], k, 'permittivity')
    for q in ('d0', 'd1'):
        side = [x for x in diel if x[3] == q]
        if len(side) >= 2:
            try:
                ti.sidewall_dielectric_layer(q)
                c.check(False, 'ambiguous sidewall dielectrics are rejected')
            except Exception as e:
                c.own(e)
        else:
            r = ti.sidewall_dielectric_layer(q)
            c.check((r is None) == (not side), 'sidewall dielectric found iff declared')
            if side:
                c.check(T(r.name) == side[0][1], 'sidewall dielectric of the layer')
    for i, (kind, n, k, ref) in enumerate(lay):
        if kind != 'metal':
            continue
        r, h = ti.simple_dielectric_above_metal(n)
        above = []
        top = None
        for x in lay[i + 1:]:
            if x[0] == 'metal':
                top = x
                break
            above.append(x)
        simple = [x for x in above if x[0] == 'simple']
        if simple and not included(f, simple[0][1]):
            c.check(r is None, 'a filtered-out dielectric is not returned')
        else:
            c.check((r is None) == (not simple), 'simple dielectric above found iff present')
            if simple:
                c.check(T(r.name) == simple[0][1], 'first simple dielectric above the metal')
            if top is not None:
                c.check_close(h, top[2] - k, 'dielectric reaches up to the next metal')
    c.observe('d', sorted(d.keys()))


def gds(c, p):
    tech = tech_pb(c)
    pairs = []
    for i in range(3):
        l = tech.layers.add()
        l.name = 'drawn%d' % i
        l.drw_gds_pair.layer, l.drw_gds_pair.datatype = c.int('l%d' % i, 0, 300), c.int('d%d' % i, 0, 60)
        pairs.append((l.drw_gds_pair.layer, l.drw_gds_pair.datatype))
    comp = []
    for i in range(2):
        l = tech.lvs_computed_layers.add()
        nm = c.choice('cname%d' % i, ['comp%d' % i, 'drawn%d' % i])
        l.layer_info.name = nm
        l.original_layer_name = 'drawn%d' % i
        l.layer_info.drw_gds_pair.layer, l.layer_info.drw_gds_pair.datatype = c.int('cl%d' % i, 0, 300), c.int('cd%d' % i, 0, 60)
        comp.append((nm, (l.layer_info.drw_gds_pair.layer, l.layer_info.drw_gds_pair.datatype), 'drawn%d' % i))
    c.assume(c.not_(c.all([comp[0][1][0] == comp[1][1][0], comp[0][1][1] == comp[1][1][1]])))
    ti = tech_info(c, tech)
    cn = {n: g for n, g, _ in comp}
    for n in ['drawn0', 'drawn1', 'drawn2', 'comp0', 'comp1', 'other']:
        exp = cn.get(n) or (pairs[int(n[-1])] if n.startswith('drawn') else None)
        got = ti.gds_pair(n)
        c.check((got is None) == (exp is None), 'GDS layer found iff declared')
        if exp is not None:
            c.check(c.all([got[0] == exp[0], got[1] == exp[1]]), 'computed layers take precedence over drawn layers')
    can = ti.canonical_layer_name_by_gds_pair
    for n, g, o in comp:
        c.check(c.text(can[g]) == o, 'canonical name of a computed layer')
        c.check(c.text(ti.computed_layer_info_by_gds_pair[g].layer_info.name) == n, 'computed layer by GDS pair')
        c.check(c.text(ti.computed_layer_info_by_name[n].original_layer_name) == o, 'computed layer by name')
    for i in range(3):
        c.check(c.all([ti.layer_info_by_name['drawn%d' % i].drw_gds_pair.layer == pairs[i][0],
                       ti.layer_info_by_name['drawn%d' % i].drw_gds_pair.datatype == pairs[i][1]]), 'drawn layer by name')


def contacts(c, p):
    tech = tech_pb(c)
    PS = c.pb('tech.process_stack').ProcessStackInfo
    LT = PS.LayerType
    exp_cnt, dev, via = {}, {}, {}
    for i in range(4):
        kind = c.choice('k%d' % i, ['metal', 'diffusion', 'nwell'])
        has = c.flag('c%d' % i)
        ly = tech.process_stack.layers.add()
        ly.name = 'L%d' % i
        ly.layer_type = {'metal': LT.LAYER_TYPE_METAL, 'diffusion': LT.LAYER_TYPE_DIFFUSION, 'nwell': LT.LAYER_TYPE_NWELL}[kind]
        sub = {'metal': ly.metal_layer, 'diffusion': ly.diffusion_layer, 'nwell': ly.nwell_layer}[kind]
        sub.z = 0.5
        w = c.real('w%d' % i)
        if has or kind != 'metal':
            ct = sub.contact_above
            ct.name, ct.layer_below, ct.metal_above, ct.width = 'v%d' % i, 'b%d' % i, 'a%d' % i, w
            if kind == 'metal':
                via['v%d' % i] = ('b%d' % i, 'a%d' % i)
            else:
                dev['L%d' % i] = 'v%d' % i
            exp_cnt['v%d' % i] = w
    ti = tech_info(c, tech)
    T = c.text
    t = ti.bottom_and_top_layer_name_by_via_computed_layer_name
    c.check({T(k): (T(v[0]), T(v[1])) for k, v in t.items()} == via, 'layers connected by each via')
    d = ti.contact_by_device_lvs_layer_name
    c.check({T(k): T(v.name) for k, v in d.items()} == dev, 'contact of each device layer')
    k = ti.contact_by_contact_lvs_layer_name
    for n, w in exp_cnt.items():
        c.check_close(k[n].width, w, 'contact by contact name')
