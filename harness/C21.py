"""Netlist reduction: parallel parasitics merge, exactly the capacitors below the threshold go, nothing else changes."""
from netlib import *

META = {
    'bounds': ['up to 4 capacitors / 3 resistors of two device classes between any of 3 nets, every value and threshold'],
    'outside': ['the copy of a netlist (KLayout 0.30.3 leaves the identity of copied device classes uninitialised, see DESIGN.md; replays use a clean copy)', 'series combination through nets without a pin (KLayout)', 'more devices'],
}


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        out.append(dict(name='caps-%d' % n, fn='reduce', params=dict(caps=n, res=0, thr=True)))
    out.append(dict(name='default-threshold', fn='reduce', params=dict(caps=2, res=0, thr=False)))
    out.append(dict(name='res', fn='reduce', params=dict(caps=1, res=2, thr=True)))
    for kind in ('DeviceClassDiode', 'DeviceClassMOS4Transistor'):
        out.append(dict(name='other-' + kind[11:], fn='reduce', params=dict(caps=1, res=1, thr=True, other=kind)))
    return out


def build(k, nl, p, data):
    """fills a netlist from choices and values"""
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    other = k.Circuit()
    other.name = 'OTHER'
    nl.add(other)
    dcs = []
    for nm, cls in (('PEX_CAP', k.DeviceClassCapacitor), ('PEX_CAP2', k.DeviceClassCapacitor), ('PEX_RES', k.DeviceClassResistor), ('DEV', getattr(k, p.get('other', 'DeviceClassDiode')))):
        d = cls()
        d.name = nm
        nl.add(d)
        dcs.append(d)
    ns = nets(None, circ, ['A', 'B', 'C'])
    os = nets(None, other, ['A', 'B'])
    for cc, xs in ((circ, ns), (other, os)):
        for n in xs:
            pin = cc.create_pin(n.name)
            cc.connect_pin(pin, n)
    for i, (cls, (a, b), par, v) in enumerate(data['items']):
        d = circ.create_device(dcs[cls], 'd%d' % i)
        d.connect_terminal('A', ns[a])
        d.connect_terminal('B', ns[b])
        d.set_parameter(par, v)
    if p.get('other'):
        d = circ.create_device(dcs[3], 'm')
        for t in dcs[3].terminal_definitions():
            d.connect_terminal(t.id(), ns[(t.id() + 1) % 3])
        d.set_parameter('A' if p['other'] == 'DeviceClassDiode' else 'W', data['w'])
    d = other.create_device(dcs[0], 'o')
    d.connect_terminal('A', os[0])
    d.connect_terminal('B', os[1])
    d.set_parameter('C', data['oc'])
    return circ, other, ns


def reduce(c, p):
    k = c.kdb
    NR = c.mod('klayout_pex.klayout.netlist_reducer').NetlistReducer
    pairs = [(0, 1), (1, 0), (0, 2)]
    unit = 1e-15
    if p['thr']:
        thr = c.real('thr', 0, 100)
        kw = dict(cap_threshold=thr * unit)
    else:
        thr, kw = 0.05, {}
    items, data = [], dict(items=[])
    for i in range(p['caps']):
        pr = c.choice('cp%d' % i, pairs)
        cls = c.choice('cc%d' % i, [0, 1]) if i < 2 else 0
        v = c.real('c%d' % i, 0, 1000)
        data['items'].append((cls, pr, 'C', v * unit))
        items.append((['PEX_CAP', 'PEX_CAP2'][cls], frozenset(pr), v))
    for i in range(p['res']):
        pr = c.choice('rp%d' % i, pairs)
        v = c.real('r%d' % i, 0.001, 1000)
        data['items'].append((2, pr, 'R', v))
        items.append(('PEX_RES', frozenset(pr), v))
    if p.get('other'):
        data['w'] = c.real('w', 0, 0.001)
    data['oc'] = c.real('oc', 0, 1) * unit

    class Netlist(k.Netlist):
        def dup(self):
            n = k.Netlist()
            build(k, n, p, data)
            return n
    nl = k.Netlist() if c.sym else Netlist()
    circ, other, ns = build(k, nl, p, data)
    before, obefore = snapshot(circ), snapshot(other)
    out = NR.reduce(netlist=nl, top_cell_name='TOP', **kw)
    c.check(same(c, snapshot(circ), before), 'the given netlist is left alone')
    top = out.circuit_by_name('TOP')
    c.check(same(c, snapshot(out.circuit_by_name('OTHER')), obefore), 'other circuits are left alone')
    left = 0
    for cn, par in (('PEX_CAP', 'C'), ('PEX_CAP2', 'C'), ('PEX_RES', 'R')):
        for pr in (frozenset((0, 1)), frozenset((0, 2))):
            vals = [v for n, q, v in items if n == cn and q == pr]
            hits = [d for d in top.each_device() if d.device_class().name == cn and
                    frozenset(d.net_for_terminal(t).name for t in 'AB') == frozenset(ns[i].name for i in pr)]
            left += len(hits)
            if not vals:
                c.check(not hits, 'nothing is invented')
                continue
            if par == 'C':
                tot = sum(vals[1:], vals[0])
                # (the threshold itself is exact up to rounding)
                if bool(tot > thr * 1.000001 + 0.000001):
                    c.check(len(hits) == 1, 'a capacitor above the threshold stays')
                    c.check_close(hits[0].parameter('C') * 1e15, tot, 'parallel capacitors add up')
                elif bool(tot < thr * 0.999999 - 0.000001):
                    c.check(not hits, 'a capacitor below the threshold goes')
            else:
                c.check(len(hits) == 1, 'a resistor stays')
                inv = vals[0] if len(vals) == 1 else vals[0] * vals[1] / (vals[0] + vals[1])
                c.check_close(hits[0].parameter('R'), inv, 'parallel resistors combine')
    if p.get('other'):
        c.check(same(c, [s for s in snapshot(top) if s[1] == 'DEV'], [s for s in before if s[1] == 'DEV']), 'other devices stay as they are')
        left += 1
    c.check(len(list(top.each_device())) == left, 'no other device')
    c.check(len(list(top.each_net())) == 3 and len(list(top.each_pin())) == 3, 'nets and pins stay')
