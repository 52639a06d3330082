"""Overlap capacitance: coefficient x area of the overlap that is not covered in between."""
from sidelib import *

META = {
    'bounds': ['up to 3 symbolic rectangles on up to 4 conducting layers (incl. substrate); every coordinate in [-2000, 2000] dbu '
               '(one axis fixed per case for 3 rectangles)', 'every net assignment', 'L and U shaped conductors at the bottom, in the middle and at the top with 3 symbolic coordinates', 'all coefficients >= 0, every dbu in (0, 1]'],
    'outside': ['other bent shapes than L and U shapes', 'more than 3 shapes at once', 'conductors of the lower net lying between the two layers',
                'overlapping shapes of one layer'],
}
SUB = 'VSUBS'


def cases(tier):
    out = [dict(name='pair', fn='run', params=dict(shapes=[('poly', 0, None, None), ('li', 1, None, None)], nets='distinct')),
           dict(name='pair-skip', fn='run', params=dict(shapes=[('poly', 0, None, None), ('met1', 1, None, None)], nets='distinct')),
           dict(name='pair-units', fn='run', params=dict(shapes=[('poly', 0, (-7, 50), (0, 40)), ('li', 1, (10, 80), (-5, 31))], units=True)),
           dict(name='pair-units-skip', fn='run', params=dict(shapes=[('poly', 0, (-7, 50), (0, 40)), ('met1', 1, (10, 80), (-5, 31))], units=True)),
           dict(name='same-layer', fn='run', params=dict(shapes=[('li', 0, None, (0, 50)), ('li', 1, None, (60, 90))]))]
    ys = {'wide': [(0, 90), (10, 60), (20, 100)], 'nested': [(0, 90), (20, 40), (10, 60)], 'tall': [(10, 30), (0, 100), (5, 50)]}
    for yn, y in ys.items():
        if tier == 'quick' and yn == 'tall':
            continue
        for ax in 'xy':
            for name, L in (('stack', ('poly', 'li', 'met1')), ('two-top', ('poly', 'li', 'li')), ('two-bottom', ('poly', 'poly', 'li')),
                            ('missing-mid', ('poly', 'mx', 'met1')), ('sandwich', ('met1', 'poly', 'li'))):
                if tier == 'quick' and (name, yn) in (('two-bottom', 'wide'), ('missing-mid', 'nested'), ('sandwich', 'wide')):
                    continue
                sh = []
                for i, l in enumerate(L):
                    fy = y[i]
                    sh.append((l, i, None, fy) if ax == 'x' else (l, i, fy, None))
                out.append(dict(name='%s-%s-%s' % (name, yn, ax), fn='run', params=dict(shapes=sh, nets='distinct')))
    for nets in ([0, 1, 1], [0, 1, 0]):
        out.append(dict(name='nets-%s' % ''.join(map(str, nets)), fn='run',
                        params=dict(shapes=[('poly', nets[0], None, (0, 50)), ('li', nets[1], None, (0, 50)),
                                            ('li', nets[2], None, (60, 90))], nets='distinct')))
    G = {'L': lambda a: ell(0, 0, 100, 100, 40, 30), 'U': lambda a: you(0, 0, 100, 100, 20, 70, 30)}
    for kind in ('mid', 'bot', 'top', 'both'):
        for g in 'LU':
            if tier == 'quick' and (kind, g) in (('both', 'U'), ('both', 'L'), ('top', 'L'), ('bot', 'U')):
                continue
            for ax in 'xy':
                out.append(dict(name='bent-%s-%s-%s' % (kind, g, ax), fn='bent', params=dict(kind=kind, g=g, ax=ax)))
    return out


def bent(c, p):
    g = p['g']
    a, d = c.int('from', -20, 110), c.int('size', 1, 120)
    B = (a, 15, a + d, 75) if p['ax'] == 'x' else (15, a, 75, a + d)
    m = c.int('m', 5, 95)
    P = ell(0, 0, 100, 100, m, 30) if g == 'L' else you(0, 0, 100, 100, 20, mx(m, 25), 30)
    k = p['kind']
    if k == 'mid':
        shapes = [('poly', 'n0', (-10, 10, 110, 90)), ('li', 'n1', P), ('met1', 'n2', B)]
    elif k == 'bot':
        shapes = [('poly', 'n0', P), ('li', 'n1', B), ('met1', 'n2', (-10, 20, 60, 120))]
    elif k == 'top':
        shapes = [('poly', 'n0', (-10, 10, 110, 90)), ('li', 'n1', B), ('met1', 'n2', P)]
    else:
        shapes = [('poly', 'n0', ell(-5, -5, 90, 105, 50, 60)), ('li', 'n1', B), ('met1', 'n2', P)]
    layers = [SUB, 'poly', 'li', 'met1']
    co = {('poly', SUB): 10.0, ('li', SUB): 20.0, ('met1', SUB): 30.0, ('li', 'poly'): 400.0, ('met1', 'poly'): 500.0, ('met1', 'li'): 600.0}
    body(c, layers, shapes, co, 0.005, layers)


def kreal(c, name, p):
    v = c.real(name, 0)
    if not p.get('units'):
        c.assume(v > 0)
    return v


def run(c, p):
    layers = [SUB, 'poly', 'mx', 'li', 'met1']
    dbu = c.real('dbu', 0, 1) if p.get('units') else 0.005
    if p.get('units'):
        c.assume(dbu > 0)
    co = {}
    for l in layers[1:]:
        if l != 'mx' and l in {s[0] for s in p['shapes']}:
            co[(l, SUB)] = kreal(c, 'k.%s' % l, p)
    used = {s[0] for s in p['shapes']}
    ls = [l for l in layers[1:] if l in used]
    for i, b in enumerate(ls):
        for t in ls[i + 1:]:
            if 'mx' not in (t, b):
                co[(t, b)] = kreal(c, 'k.%s.%s' % (t, b), p)
    nmax = max(s[1] for s in p['shapes']) + 1
    if p.get('nets') == 'distinct':
        names = ['n%d' % i for i in range(nmax)]
    else:
        names = [c.str('net%d' % i, 1, 65, 70) for i in range(nmax)]
    shapes = []
    for i, (l, n, x, y) in enumerate(p['shapes']):
        shapes.append((l, names[n], box(c, 's%d' % i, x=x, y=y)))
    # shapes of one layer do not overlap
    for i in range(len(shapes)):
        for j in range(i):
            if shapes[i][0] == shapes[j][0]:
                a, b = shapes[i][2], shapes[j][2]
                c.assume(c.any([a[2] < b[0], b[2] < a[0], a[3] < b[1], b[3] < a[1]]))
    body(c, layers, shapes, co, dbu, [SUB] + [l for l in layers if l in used])


def body(c, layers, shapes, co, dbu, present):
    NN = c.mod('klayout_pex.rcx25.extraction_results')
    OX = c.mod('klayout_pex.rcx25.c.overlap_extractor').OverlapExtractor
    tech = tech_pb(c)
    add_caps(tech, substrates=[(l, v, 1.0) for (l, b), v in co.items() if b == SUB],
             overlaps=[(t, b, v) for (t, b), v in co.items() if b != SUB])
    ti = tech_info(c, tech)
    # no conductor of the lower net between two conductors of other nets (outside the property)
    sub = (-2100, -2100, 2100, 2100)
    regs = {}
    for l in layers:
        if l == SUB:
            r = c.kdb.Region()
            r.enable_properties()
            r.insert(c.kdb.Box(*sub))
            regs[l] = r
        elif l in present:
            regs[l] = region(c, [(s[2], s[1]) for s in shapes if s[0] == l])
    names_in = list(regs)
    res = NN.CellExtractionResults(cell_name='top')
    OX(all_layer_names=names_in, layer_regions_by_name=regs, dbu=dbu, tech_info=ti, results=res, report=Sink()).extract()
    # ---- specification
    conduct = [(SUB, SUB, sub)] + shapes
    got = []
    for key, lst in res.overlap_table.items():
        for e in lst:
            c.check(c.all([c.eq(e.key.layer_top, key.layer_top), c.eq(e.key.net_top, key.net_top),
                           c.eq(e.key.layer_bot, key.layer_bot), c.eq(e.key.net_bot, key.net_bot)]), 'entries are filed under their own key')
            got.append((key, e))
    matched = []
    for i, (lb, nb, rb) in enumerate(conduct):
        for lt in layers[layers.index(lb) + 1:]:
            tops = []
            for (l, n, r) in conduct:
                if l == lt:
                    for m, rs in tops:
                        if bool(c.eq(m, n)):
                            rs.append(r)
                            break
                    else:
                        tops.append((n, [r]))
            for n, rs in tops:
                if (lt, lb) not in co:
                    continue
                same = bool(c.eq(n, nb))
                exp = 0
                cut = [q for s in shapes if layers.index(lb) < layers.index(s[0]) < layers.index(lt)
                       and (s[0], lb) in co and not bool(c.eq(s[1], nb)) for q in boxes_of(s[2])]
                for r in rs:
                    for u in boxes_of(rb):
                        for w in boxes_of(r):
                            exp = exp + area_minus(inter(u, w), cut)
                exp = 0 if same else exp * dbu * dbu * co[(lt, lb)] / 1000
                mine = [e for k, e in got if c.text(k.layer_top) == lt and c.text(k.layer_bot) == lb and bool(c.eq(k.net_top, n))
                        and bool(c.eq(k.net_bot, nb))]
                matched += [id(e) for e in mine]
                others = [s for s in conduct if s[0] == lb and s[2] is not rb and bool(c.eq(s[1], nb))]
                if others:
                    continue   # several bottom shapes of the net share the key; the sum is checked below
                tot = 0
                for e in mine:
                    tot = tot + e.cap_value
                c.check_close(tot, exp, 'overlap capacitance = coefficient x uncovered overlap area')
    # every entry belongs to an expected pair; total is the total
    tot = 0
    for k, e in got:
        c.check(id(e) in matched, 'no entry outside the specified layer/net pairs')
        c.check(e.cap_value > 0, 'entries are positive')
        c.check(not bool(c.eq(k.net_top, k.net_bot)), 'no capacitance of a net to itself')
        tot = tot + e.cap_value
    c.observe('total', tot)
