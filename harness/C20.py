"""2.5D netlist expansion: each summarised parasitic becomes one device with the right value (in SI units) between the right nets."""
from netlib import *

META = {
    'bounds': ['up to 3 capacitances and 3 resistances between up to 3 circuit nets (named or unnamed), the substrate and internal resistor nodes',
               'net names: every text of 1..2 characters in A..b; every value', 'one device of each KLayout device class'],
    'outside': ['more parasitics', 'names that differ only in upper/lower case'],
}
CAPS = ['DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk']
KINDS = CAPS + ['DeviceClassResistor', 'DeviceClassResistorWithBulk', 'DeviceClassInductor', 'DeviceClassDiode', 'DeviceClassBJT3Transistor',
                'DeviceClassBJT4Transistor', 'DeviceClassMOS3Transistor', 'DeviceClassMOS4Transistor']


def cases(tier):
    out = []
    for nc, nr in ((1, 0), (0, 1), (2, 1), (1, 2)) + (((3, 0), (0, 3), (2, 2)) if tier == 'thorough' else ()):
        out.append(dict(name='par-%d-%d' % (nc, nr), fn='expand', params=dict(nc=nc, nr=nr, names=['?', '?'])))
    out.append(dict(name='new-node', fn='expand', params=dict(nc=2, nr=0, names=['?', '?'], newcap=True)))
    out.append(dict(name='new-node-r', fn='expand', params=dict(nc=1, nr=1, names=['?', ''], newcap=True)))
    out.append(dict(name='unnamed', fn='expand', params=dict(nc=2, nr=1, names=['', '?'])))
    out.append(dict(name='vsubs', fn='expand', params=dict(nc=2, nr=0, names=['VSUBS', '?'])))
    for kd in KINDS:
        for bb in (True, False):
            out.append(dict(name='dev-%s-%s' % (kd[11:], bb), fn='expand', params=dict(nc=1, nr=0, names=['A', 'B'], device=kd, blackbox=bb)))
    return out


def expand(c, p):
    k = c.kdb
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    NE = c.mod('klayout_pex.rcx25.netlist_expander').RCX25NetlistExpander
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    other = k.Circuit()
    other.name = 'OTHER'
    nl.add(other)
    names = [c.str('net%d' % i, 1 + i % 2, 65, 98) if n == '?' else n for i, n in enumerate(p['names'])]
    distinct(c, names)
    ns = nets(c, circ, names)
    keep = p.get('blackbox', True) or p.get('device') not in CAPS
    if p.get('device'):
        dc = getattr(k, p['device'])()
        dc.name = 'DEV'
        nl.add(dc)
        for j in range(2):
            d = circ.create_device(dc, 'X%d' % j)
            for i, t in enumerate(dc.terminal_definitions()):
                d.connect_terminal(t.id(), ns[(i + j) % 2])
            d.set_parameter(dc.parameter_definitions()[0].id(), c.real('par%d' % j, 0, 1000))
        other.create_device(dc, 'Y')
    before = snapshot(circ)
    ex = [n.expanded_name() for n in ns]
    inner = c.str('inner', 2, 65, 98) if p['nr'] or p.get('newcap') else 'VSUBS'
    if inner != 'VSUBS':
        for n in names:
            if n:
                c.assume(c.not_(c.eq(inner, n)))
    pool = ex + ['VSUBS', inner, 'a node of three words']
    cell = ER.CellExtractionResults(cell_name='TOP')
    res = ER.ExtractionResults(cell_extraction_results={'TOP': cell})
    allp = [(0, 3), (3, 2), (0, 4), (4, 3)] if p.get('newcap') else [(0, 1), (0, 2), (1, 2), (1, 0)]
    caps, ress = [], []
    for i in range(p['nc']):
        a, b = c.choice('cp%d' % i, allp)
        v = c.real('c%d' % i, 0, 1000000)
        cell.add_sideoverlap_cap(ER.SideOverlapCap(key=ER.SideOverlapKey('m1', pool[a], 'm2', pool[b]), cap_value=v))
        caps.append((pool[a], pool[b], v))
    if p['nr']:
        net = cell.r_extraction_result.networks.add()
        rp = [0, 1, 3]
        for i, x in enumerate(rp):
            n = net.nodes.add()
            n.node_id, n.net_name = i, pool[x]
        for i in range(p['nr']):
            a, b = [(0, 2), (2, 1), (1, 0)][i]
            e = net.elements.add()
            e.node_a.node_id, e.node_b.node_id = a, b
            v = c.real('r%d' % i, 0, 1000000)
            e.resistance = v
            ress.append((pool[rp[a]], pool[rp[b]], v))
    out = NE.expand(extracted_netlist=nl, top_cell_name='TOP', extraction_results=res, blackbox_devices=p.get('blackbox', True))
    c.check(same(c, snapshot(circ), before), 'the extracted netlist is left alone')
    top = out.circuit_by_name('TOP')
    c.check(unique_nets(c, top), 'no net is duplicated')
    snap = snapshot(top)
    old = [s for s in snap if s[1] == 'DEV']
    c.check(same(c, old, before if keep else []), 'only whiteboxed capacitors are removed')
    c.check(len(list(out.circuit_by_name('OTHER').each_device())) == (1 if p.get('device') else 0), 'other circuits are left alone')
    mine = [d for d in top.each_device() if d.device_class().name != 'DEV']
    for cls, par, want, scale, what in ((k.DeviceClassCapacitor, 'C', caps, 1e-15, 'capacitor'), (k.DeviceClassResistor, 'R', ress, 1.0, 'resistor')):
        found = 0
        seen = []
        for a, b, v in want:
            if any(same(c, (a, b), s) or same(c, (b, a), s) for s in seen):
                continue
            seen.append((a, b))
            exp = 0.0
            for x, y, w in want:
                if same(c, (a, b), (x, y)) or same(c, (a, b), (y, x)):
                    exp = exp + w
            hits = []
            for d in mine:
                if type(d.device_class()) is not cls:
                    continue
                e = (d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name())
                if same(c, e, (a, b)) or same(c, e, (b, a)):
                    hits.append(d)
            c.check(len(hits) == 1, 'one %s per net pair' % what)
            found += len(hits)
            c.check_close(hits[0].parameter(par) * (1 / scale), exp, what + ' value')
        c.check(len([d for d in mine if type(d.device_class()) is cls]) == found, 'no other %s' % what)
    c.check(len(set(d.expanded_name() + type(d.device_class()).__name__ for d in mine)) == len(mine), 'device names are unique')
