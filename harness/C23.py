"""Netlist JSON: the drawing has every port, device and instance once, and two terminals share a bit exactly when they share a net."""
from netlib import *
from vfs import FS

META = {
    'bounds': ['up to 3 capacitors/resistors and 2 subcircuit instances between any of 3-4 nets (named 1..2 characters, unnamed, VSUBS, GND), every value'],
    'outside': ['more devices'],
}


def cases(tier):
    out = []
    for names in (['?', '?', '?'], ['', '?', ''], ['VSUBS', '?', 'GND'], ['?', 'GND', '?']):
        for kinds in (['C'], ['R', 'C'], ['C', 'C'], ['R', 'R']) + ((['C', 'R', 'C'],) if tier == 'thorough' else ()):
            out.append(dict(name='dev-%s-%s' % (','.join(names), ''.join(kinds)), fn='devs', params=dict(names=names, kinds=kinds, subs=[])))
    for subs in (['INV'], ['INV', 'INV'], ['INV', 'BUF']):
        for inst in (['?', '?'], ['', '']):
            out.append(dict(name='sub-%s-%s' % ('+'.join(subs), ''.join(inst)), fn='devs', params=dict(names=['?', '?', ''], kinds=['C'], subs=subs, inst=inst)))
    out.append(dict(name='unsupported', fn='unsupported', params={}))
    return out


def devs(c, p):
    k = c.kdb
    M = c.mod('klayout_pex.netlistsvg.netlist_json')
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    names = [c.str('net%d' % i, 1 + i % 2, 65, 98) if n == '?' else n for i, n in enumerate(p['names'])]
    distinct(c, names)
    ns = nets(c, circ, names)
    npins = c.choice('pins', [0, 2, 3])
    pins = []
    for i in range(npins):
        pin = circ.create_pin('P%d' % i)
        j = c.choice('pin%d' % i, [0, 1, 2]) if i < 2 else 2
        circ.connect_pin(pin, ns[j])
        pins.append(j)
    dc = {'C': k.DeviceClassCapacitor(), 'R': k.DeviceClassResistor()}
    for n, d in dc.items():
        d.name = n
        nl.add(d)
    exp = []
    for i, kd in enumerate(p['kinds']):
        d = circ.create_device(dc[kd], ['dev%d' % i, ''][i % 2])
        a, b = c.choice('pair%d' % i, [(0, 1), (1, 2), (2, 0), (0, 0)])
        d.connect_terminal('A', ns[a])
        d.connect_terminal('B', ns[b])
        v = c.real('v%d' % i, 0, 1000000)
        d.set_parameter(kd, v * 1e-15 if kd == 'C' else v)
        exp.append((kd, a, b, v))
    children, subs = {}, []
    for i, s in enumerate(p['subs']):
        if s not in children:
            x = k.Circuit()
            x.name = s
            nl.add(x)
            for q in 'ab':
                n = x.create_net(q)
                x.connect_pin(x.create_pin(q), n)
            children[s] = x
        x = children[s]
        inst = c.str('inst%d' % i, 1, 65, 98) if p['inst'][i] == '?' else ''
        if i and inst:
            c.assume(c.not_(c.eq(inst, subs[0][3])))
        sc = circ.create_subcircuit(x, inst)
        a, b = c.choice('sub%d' % i, [(0, 1), (1, 2), (2, 2)])
        for pin, j in zip(x.each_pin(), (a, b)):
            sc.connect_pin(pin, ns[j])
        subs.append((s, a, b, inst))
    w = M.NetlistJSONWriter()
    d = w.netlist_json_dict(netlist=nl, top_circuit=circ)
    c.check(list(d['modules'].keys()) == ['TOP'], 'one module')
    mod = d['modules']['TOP']
    bits = {}      # net index -> bit
    used = []

    def at(j, lst):
        c.check(len(lst) == 1, 'one bit per terminal')
        used.append((j, lst[0]))
    c.check(len(mod['ports']) == npins, 'every pin is a port')
    for i, j in enumerate(pins):
        at(j, mod['ports']['P%d' % i]['bits'])
    vals = list(mod['cells'].values())
    gnds = [x for x in vals if x['type'] == 'gnd']
    cap = [x for x in vals if x['type'] == 'c_v']
    res = [x for x in vals if x['type'] == 'r_v']
    sub = [x for x in vals if x not in gnds and x not in cap and x not in res]
    c.check(len(cap) == p['kinds'].count('C') and len(res) == p['kinds'].count('R'), 'every device is drawn once')
    c.check(len(sub) == len(subs), 'every instance is drawn once')
    for got, want, unit in ((cap, [e for e in exp if e[0] == 'C'], 'f'), (res, [e for e in exp if e[0] == 'R'], '')):
        for g, (kd, a, b, v) in zip(got, want):
            at(a, g['connections']['A'])
            at(b, g['connections']['B'])
            t = g['attributes']['value']
            if unit:
                c.check(bool(t.endswith(unit)), 'unit')
                t = t[:-1]
            x = c.num(t)
            c.check(c.all([x - v <= 0.00050001, v - x <= 0.00050001]), 'device value')
    for g, (s, a, b, inst) in zip(sub, subs):
        c.check(bool(c.eq(g['type'], '$' + s)), 'instance type')
        cl = list(g['connections'].values())
        if a == b:
            # (two pins on one net share a name, the pin id keeps them apart)
            pass
        c.check(len(cl) == 2 and len(g['port_directions']) == 2, 'every pin of an instance is drawn')
        at(a, cl[0])
        at(b, cl[1])
    for g in gnds:
        hit = [i for i, n in enumerate(names) if bool(c.eq(n, g['attributes']['value']))]
        c.check(len(hit) == 1, 'ground symbols only for ground nets')
        at(hit[0], g['connections']['A'])
    touched = set(j for j, _ in used)
    for i, n in enumerate(p['names']):
        if n in ('VSUBS', 'GND') and i in touched:
            c.check(len([g for g in gnds if g['attributes']['value'] == n]) == 1, 'every used ground net has its symbol')
    for i, (j, x) in enumerate(used):
        for j2, x2 in used[:i]:
            c.check((j == j2) == (x == x2), 'same bit exactly for the same net')
    # the file holds exactly this description
    got = []

    class J:
        @staticmethod
        def dump(o, f, **kw):
            got.append(o)
            f.write('{description}')

        @staticmethod
        def dumps(o, **kw):
            got.append(o)
            return '{description}'
    fs = FS(c)
    M.json = J
    M.open = fs.open
    fs.files['x.json'] = 'drawing of an earlier run'
    M.NetlistJSONWriter().write_json(netlist=nl, top_circuit=circ, output_path='x.json')
    c.check(len(got) == 1 and same_json(c, got[0], d) and str(fs.files.get('x.json', '')).strip() == '{description}', 'the file holds the description')


def same_json(c, a, b):
    if isinstance(a, (dict,)) or hasattr(a, 'keys'):
        if len(a) != len(b):
            return False
        for (x, y), (p, q) in zip(a.items(), b.items()):
            if not bool(c.eq(x, p)) or not same_json(c, y, q):
                return False
        return True
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(c, x, y) for x, y in zip(a, b))
    return True if not isinstance(a, (int, str)) else bool(c.eq(a, b))


def unsupported(c, p):
    k = c.kdb
    M = c.mod('klayout_pex.netlistsvg.netlist_json')
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = 'TOP'
    nl.add(circ)
    n = nets(c, circ, ['A', 'B'])
    dc = getattr(k, c.choice('cls', ['DeviceClassDiode', 'DeviceClassMOS4Transistor', 'DeviceClassInductor']))()
    nl.add(dc)
    d = circ.create_device(dc, 'x')
    for i, t in enumerate(dc.terminal_definitions()):
        d.connect_terminal(t.id(), n[i % 2])
    try:
        M.NetlistJSONWriter().netlist_json_dict(netlist=nl, top_circuit=circ)
        ok = False
    except NotImplementedError:
        ok = True
    c.check(ok, 'a device that cannot be drawn is reported, not dropped')
