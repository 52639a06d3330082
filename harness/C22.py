"""Capacitance CSV report: every parasitic capacitor is one row with its nets and its value in femtofarad."""
from netlib import *
from vfs import FS

META = {
    'bounds': ['up to 3 devices of any class and name between any of 3 nets (named with 1..2 characters, or unnamed), every capacitance up to 1 nF'],
    'outside': ['more devices', 'net names containing the separator'],
}


def cases(tier):
    out = []
    for names in (['?', '?', '?'], ['', '?', ''], ['', '', '']):
        for n in (1, 2) + ((3,) if tier == 'thorough' else ()):
            out.append(dict(name='csv-%s-%d' % (''.join(x or '$' for x in names), n), fn='csv', params=dict(names=names, n=n)))
    return out


def csv(c, p):
    k = c.kdb
    M = c.mod('klayout_pex.klayout.netlist_csv')
    fs = FS(c)
    M.open = fs.open
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    names = [c.str('net%d' % i, 1 + i % 2, 65, 98) if n else '' for i, n in enumerate(p['names'])]
    distinct(c, names)
    ns = nets(c, circ, names)
    cls = []
    for nm, t in (('PEX_CAP', k.DeviceClassCapacitor), ('OTHER', k.DeviceClassCapacitor), ('PEX_RES', k.DeviceClassResistor)):
        d = t()
        d.name = nm
        nl.add(d)
        cls.append(d)
    rows = []
    for i in range(p['n']):
        ci = c.choice('cls%d' % i, [0, 1, 2]) if i < 2 else 0
        a, b = c.choice('pair%d' % i, [(0, 1), (1, 2), (2, 0)])
        nm = c.choice('named%d' % i, ['Cext_%d' % i, '', '?']) if i < 2 else 'Cext_%d' % i
        if nm == '?':
            nm = c.str('dev%d' % i, 1 + i % 2, 65, 98)
        d = circ.create_device(cls[ci], nm)
        d.connect_terminal('A', ns[a])
        d.connect_terminal('B', ns[b])
        v = c.real('v%d' % i, 0, 1000000)
        d.set_parameter('C' if ci < 2 else 'R', v * 1e-15)
        if ci == 0:
            rows.append((d.expanded_name(), ns[a].expanded_name(), ns[b].expanded_name(), v))
    M.NetlistCSVWriter.write_csv(netlist=nl, top_cell_name='TOP', output_path='out.csv')
    ls = fs.lines('out.csv')
    c.check(len(ls) == 1 + len(rows), 'one row per parasitic capacitor')
    c.check(bool(c.eq(ls[0], 'Device;Net1;Net2;Capacitance [fF]')), 'header')
    for l, (dn, a, b, v) in zip(ls[1:], rows):
        cells = l.split(';')
        c.check(len(cells) == 4, 'four cells')
        c.check(bool(c.eq(cells[0], dn)), 'device name')
        c.check(bool(c.eq(cells[1], a)) and bool(c.eq(cells[2], b)), 'net names identify the nets')
        got = c.num(cells[3])
        c.check(c.all([got - v <= 0.0050001, v - got <= 0.0050001]), 'value in femtofarad, two digits')
