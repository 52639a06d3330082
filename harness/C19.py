"""Maxwell capacitance matrix -> netlist: every matrix entry becomes the right capacitor between the right nets."""
from netlib import *

META = {
    'bounds': ['matrices up to 3x3 (thorough 4x4) with arbitrary real entries (symmetric, as averaged)',
               'net names: every text of 1..2 printable characters, unnamed nets, nets already called VSUBS/GND/FC_GND',
               'conductors in any order; a circuit with one device of four kinds'],
    'outside': ['larger matrices', 'conductor names without the g<number>_ prefix'],
}
KINDS = ['DeviceClassMOS4Transistor', 'DeviceClassCapacitor', 'DeviceClassResistor', 'DeviceClassDiode']


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        out.append(dict(name='matrix-%d' % n, fn='matrix', params=dict(names=['?'] * n, n=n, blackbox=True, fixed=n > 2)))
    out.append(dict(name='unnamed', fn='matrix', params=dict(names=['?', '', ''], n=2, blackbox=True)))
    out.append(dict(name='vsubs-net', fn='matrix', params=dict(names=['VSUBS', '?', ''], n=3, blackbox=True)))
    out.append(dict(name='gnd-net', fn='matrix', params=dict(names=['GND', '?', 'FC_GND'], n=3, blackbox=True)))
    out.append(dict(name='with-substrate', fn='matrix', params=dict(names=['?', '?'], n=3, blackbox=True, vsubs=True)))
    for kind in KINDS:
        for bb in (True, False):
            out.append(dict(name='device-%s-%s' % (kind[11:], 'black' if bb else 'white'), fn='matrix',
                            params=dict(names=['?', '?'], n=2, blackbox=bb, device=kind, fixed=True)))
    out.append(dict(name='missing-net', fn='missing', params={}))
    return out


def matrix(c, p):
    k = c.kdb
    CM = c.mod('klayout_pex.common.capacitance_matrix').CapacitanceMatrix
    NE = c.mod('klayout_pex.klayout.netlist_expander').NetlistExpander
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    other = k.Circuit()
    other.name = 'SUB'
    nl.add(other)
    names = [('N%d' % i if p.get('fixed') else c.str('net%d' % i, 1 + i % 2, 65, 98)) if n == '?' else n for i, n in enumerate(p['names'])]
    distinct(c, names)
    ns = nets(c, circ, names)
    ex = [n.expanded_name() for n in ns]
    if p.get('device'):
        dc = getattr(k, p['device'])()
        dc.name = 'DEV'
        nl.add(dc)
        d = circ.create_device(dc, 'X1')
        for i, t in enumerate(dc.terminal_definitions()):
            d.connect_terminal(t.id(), ns[i % 2])
        d2 = other.create_device(dc, 'X2')
    before = snapshot(circ)
    pool = (['VSUBS'] if p.get('vsubs') else []) + ex
    # which conductor is which net
    cond, left = [], list(pool)
    for i in range(p['n']):
        x = c.choice('cond%d' % i, range(len(left))) if len(left) > 1 and p['n'] <= 3 else 0
        cond.append(left.pop(x))
    m = [[None] * p['n'] for _ in cond]
    for i in range(p['n']):
        for j in range(i, p['n']):
            m[i][j] = m[j][i] = c.real('m%d%d' % (i, j), -1000, 1000)
    cm = CM(conductor_names=['g%d_%s' % (i + 1, n) if isinstance(n, str) else 'g%d_' % (i + 1) + n for i, n in enumerate(cond)], rows=m)
    res = NE.expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=cm, blackbox_devices=p['blackbox'])
    c.check(same(c, snapshot(circ), before), 'the extracted netlist is left alone')
    top = res.circuit_by_name('TOP')
    # total capacitance per pair
    total = 0
    for i in range(p['n']):
        for j in range(i + 1, p['n']):
            want, cnt = 0.0, 0
            if bool(-m[i][j] > 0):
                want, cnt = -m[i][j], 1
            if i == 0:
                g = sum(m[j][1:], m[j][0])
                if bool(g > 0):
                    want, cnt = want + g, cnt + 1
            mine = [d for d in devices(top, k.DeviceClassCapacitor) if d.device_class().name == 'PEX_CAP']
            got, n = 0.0, 0
            for d in mine:
                a, b = d.net_for_terminal('A'), d.net_for_terminal('B')
                if (net_like(c, a, cond[i]) and net_like(c, b, cond[j])) or (net_like(c, a, cond[j]) and net_like(c, b, cond[i])):
                    got, n = got + d.parameter('C'), n + 1
            total += n
            c.check_close(got, want, 'total capacitance between two conductors')
            c.check(n <= 2 and (n > 0) == (cnt > 0), 'capacitors only for positive entries')
    c.check(len([d for d in top.each_device() if d.device_class().name == 'PEX_CAP']) == total, 'no capacitor to any other net, none to itself')
    # grounds are shorted
    rs = [d for d in top.each_device() if d.device_class().name == 'PEX_RES']
    ends = sorted(tuple(sorted(d.net_for_terminal(t).expanded_name() for t in 'AB')) for d in rs) if all(isinstance(c.text(d.net_for_terminal(t).expanded_name()), str) for d in rs for t in 'AB') else None
    c.check(ends == [('FC_GND', 'GND'), ('GND', 'VSUBS')], 'substrate and field solver ground are shorted to GND')
    c.check(all(bool(c.eq(d.parameter('R'), 0)) for d in rs), 'the shorts have no resistance')
    c.check(unique_nets(c, top), 'no net is duplicated')
    # devices
    old = [s for s in snapshot(top) if bool(c.eq(s[1], 'DEV'))]
    c.check(same(c, old, before if p['blackbox'] else []), 'devices are kept exactly when blackboxed')
    if p.get('device'):
        c.check(len(list(res.circuit_by_name('SUB').each_device())) == 1, 'other circuits are left alone')


def missing(c, p):
    k = c.kdb
    CM = c.mod('klayout_pex.common.capacitance_matrix').CapacitanceMatrix
    NE = c.mod('klayout_pex.klayout.netlist_expander').NetlistExpander
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    n = c.str('net', 2, 65, 98)
    nets(c, circ, [n])
    q = c.str('cond', 2, 65, 98)
    c.assume(c.not_(c.eq(n, q)))
    cm = CM(conductor_names=['g1_VSUBS', 'g2_' + q], rows=[[2.0, -1.0], [-1.0, 2.0]])
    try:
        NE.expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=cm, blackbox_devices=True)
        ok = False
    except Exception as e:
        c.own(e)
        ok = True
    c.check(ok, 'a conductor that is no net of the circuit is an error')
