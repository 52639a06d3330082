"""Extraction summary: no capacitance or resistance is lost, double counted or attributed to another net pair."""
from itertools import product

META = {
    'bounds': ['up to 4 partial capacitances over up to 2 cells, each of any of the 3 kinds',
               'net names: every text of 1..2 printable characters',
               'capacitance/resistance values: every real number'],
    'outside': ['more than 4 entries per summary', 'longer net names'],
}


def cases(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for kinds in product('OSX', repeat=n):
        if list(kinds) != sorted(kinds):
            continue
        for cells in ((0,) * n, tuple(i % 2 for i in range(n))):
            out.append(dict(name='caps-%s-%s' % (''.join(kinds), ''.join(map(str, cells))), fn='caps',
                            params=dict(kinds=kinds, cells=cells, names=[1] * 4)))
    out.append(dict(name='caps-len2', fn='caps', params=dict(kinds=('O', 'S'), cells=(0, 1), names=[2, 1, 2, 2])))
    for n in (1, 2, 3):
        out.append(dict(name='res-%d' % n, fn='res', params=dict(n=n, distinct=True)))
    out.append(dict(name='res-ports-2', fn='res', params=dict(n=2, distinct=False)))
    out.append(dict(name='res-ports-3', fn='res', params=dict(n=3, distinct=False)))
    out.append(dict(name='res-cells', fn='res_cells', params={}))
    return out


def add(ER, res, kind, a, b, v, i):
    if kind == 'O':
        res.add_overlap_cap(ER.OverlapCap(key=ER.OverlapKey('L%d' % i, a, 'M', b), cap_value=v, shielded_area=0.0,
                                          unshielded_area=0.0, tech_spec=None))
    elif kind == 'S':
        res.add_sidewall_cap(ER.SidewallCap(key=ER.SidewallKey('L%d' % i, a, b), cap_value=v, distance=1.0, length=1.0,
                                            tech_spec=None))
    else:
        res.add_sideoverlap_cap(ER.SideOverlapCap(key=ER.SideOverlapKey('L%d' % (i % 2), a, 'M', b), cap_value=v))


def same_pair(c, p, q):
    return c.any([c.all([c.eq(p[0], q[0]), c.eq(p[1], q[1])]), c.all([c.eq(p[0], q[1]), c.eq(p[1], q[0])])])


def verify(c, table, pairs, vals, what):
    keys = list(table.keys())
    for k in keys:
        hit = False
        for p in pairs:
            if bool(same_pair(c, (k.net1, k.net2), p)):
                hit = True
        c.check(hit, what + ': every summarised pair is an extracted pair')
    for i, p in enumerate(pairs):
        mine = [k for k in keys if bool(same_pair(c, (k.net1, k.net2), p))]
        c.check(len(mine) == 1, what + ': one entry per unordered net pair')
        exp = 0.0
        mv = [v for q, v in zip(pairs, vals) if bool(same_pair(c, p, q))]
        if what == 'resistance':
            # parallel: product over sum, in any order of combination
            got = table[mine[0]]
            if len(mv) > 1:
                c.check(c.implies(c.any([v <= 0 for v in mv]), got <= 0), 'resistance: a short stays a short')
            if len(mv) == 1:
                c.check_close(got, mv[0], 'resistance: entry is the extracted value')
            elif len(mv) == 2:
                c.check_close(got * (mv[0] + mv[1]), mv[0] * mv[1], 'resistance: parallel resistors')
            else:
                a, b, d = mv
                c.check_close(got * (a * b + b * d + a * d), a * b * d, 'resistance: parallel resistors')
            continue
        for v in mv:
            exp = exp + v
        c.check_close(table[mine[0]], exp, what + ': entry is the sum of the extracted values')
    c.observe(what, [table[k] for k in keys])


def caps(c, p):
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    pool = [c.str('net%d' % i, n, 65, 98) for i, n in enumerate(p['names'][:3])]
    results = ER.ExtractionResults()
    for j in sorted(set(p['cells'])):
        results.cell_extraction_results['cell%d' % j] = ER.CellExtractionResults(cell_name='cell%d' % j)
    pairs, vals = [], []
    order = [(0, 1), (1, 0), (0, 2), (2, 1)]
    for i, (k, j) in enumerate(zip(p['kinds'], p['cells'])):
        a, b = pool[order[i][0]], pool[order[i][1]]
        v = c.real('c%d' % i)
        add(ER, results.cell_extraction_results['cell%d' % j], k, a, b, v, i)
        pairs.append((a, b))
        vals.append(v)
    s = results.summarize()
    verify(c, s.capacitances, pairs, vals, 'capacitance')
    c.check(len(s.resistances) == 0, 'no resistance is invented')


def res(c, p):
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    rn = c.pb('r.r_network')
    cell = ER.CellExtractionResults(cell_name='cell')
    net = cell.r_extraction_result.networks.add()
    names = []
    for i in range(3):
        n = net.nodes.add()
        n.node_id = 10 + i
        n.net_name = nm = c.str('n%d' % i, 1, 65, 98)
        names.append(nm)
    if p['distinct']:
        c.assume(c.not_(c.eq(names[0], names[1])))
        c.assume(c.not_(c.eq(names[0], names[2])))
        c.assume(c.not_(c.eq(names[1], names[2])))
    # otherwise: two ports of one net carry the same name
    order = [(0, 1), (2, 0), (1, 2)]
    pairs, vals = [], []
    for i in range(p['n']):
        e = net.elements.add()
        a, b = order[i]
        e.element_id = i
        e.node_a.node_id = 10 + a
        e.node_b.node_id = 10 + b
        v = c.real('r%d' % i, 0, 1000000)
        if p['n'] == 3 and not p['distinct'] and i:
            v = c.choice('rv%d' % i, [0.5, 4.0])    # keeps the three-fold parallel decidable
        e.resistance = v
        pairs.append((names[a], names[b]))
        vals.append(v)
    s = ER.ExtractionResults(cell_extraction_results={'cell': cell}).summarize()
    verify(c, s.resistances, pairs, vals, 'resistance')
    c.check(len(s.capacitances) == 0, 'no capacitance is invented')


def res_cells(c, p):
    """resistances of several cells, in both orders of the node pair"""
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    a, b = c.str('a', 1, 65, 98), c.str('b', 1, 65, 98)
    c.assume(c.not_(c.eq(a, b)))
    cells, vals = {}, []
    for j in range(2):
        cell = ER.CellExtractionResults(cell_name='cell%d' % j)
        net = cell.r_extraction_result.networks.add()
        for i, nm in enumerate((a, b)):
            n = net.nodes.add()
            n.node_id = i
            n.net_name = nm
        e = net.elements.add()
        o = c.choice('o%d' % j, [(0, 1), (1, 0)])
        e.node_a.node_id, e.node_b.node_id = o
        v = c.real('r%d' % j, 0, 1000000)
        e.resistance = v
        vals.append(v)
        cells['cell%d' % j] = cell
    s = ER.ExtractionResults(cell_extraction_results=cells).summarize()
    verify(c, s.resistances, [(a, b), (b, a)], vals, 'resistance')
    c.check(len(s.capacitances) == 0, 'no capacitance is invented')
