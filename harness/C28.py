"""Magic extraction files: every declaration is read with all its fields and appears in the report at its place."""
import pathlib
import sys
import types
from vfs import FS
from vos import VOS

META = {
    'bounds': ['files of up to 3 declarations of every kind, in any order, between unrelated lines', 'numbers of up to 3 digits with sign, resistances with fraction',
               'names: every printable character except the quote, 1..3 characters', 'cells with and without resistance file', 'dbu 0.001..0.005'],
    'outside': ['longer numbers and names', 'floating point rounding of marker coordinates'],
}
KINDS = ['port', 'node', 'substrate', 'device']
TYPES = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']


def cases(tier):
    out = []
    for k in KINDS:
        for ln in (1, 2):
            out.append(dict(name='ext-%s-%d' % (k, ln), fn='ext', params=dict(kinds=[k], digits=2, ln=ln)))
    out.append(dict(name='ext-mixed', fn='ext', params=dict(kinds=['port', 'node', 'device', 'port'], digits=1, ln=1, few=True)))
    out.append(dict(name='ext-mixed2', fn='ext', params=dict(kinds=['device', 'substrate', 'node', 'device'], digits=1, ln=1, few=True)))
    for k in (['rnode'], ['resist'], ['rnode', 'resist', 'rnode']):
        out.append(dict(name='res-' + '+'.join(k), fn='res', params=dict(kinds=k, digits=1 if len(k) > 1 else 2)))
    out.append(dict(name='run', fn='run', params={}))
    out.append(dict(name='report', fn='report', params={}))
    out.append(dict(name='report-res', fn='report_res', params={}))
    for i in range(2):
        out.append(dict(name='tool-%d' % i, fn='tool', params=dict(second=i)))
    return out


def num(c, name, digits, neg=True):
    """decimal text of a symbolic number and its value"""
    s = c.str(name, digits, 48, 57)
    v = 0
    for k in range(digits):
        v = v * 10 + dig(c, s[k])
    if neg and c.choice(name + '.neg', [False, True]):
        return '-' + s, -v
    return s, v


def dig(c, ch):
    if isinstance(ch, str):
        return ord(ch) - 48
    import symx.values as V
    return V.SymInt(ch.items[0].t) - 48


def name(c, n, ln):
    return c.str(n, ln, 32, 126, exclude='"')


def word(c, n, ln=2):
    return c.str(n, ln, 97, 122)


NOISE = ['tech sky130A\n', 'timestamp 17\n', 'scale 1000 1 500000\n', 'resistclasses 4400000 2200000\n', 'cap "A" "B" 12\n', '\n', 'use x y 1 0 0 0 1 0\n', 'merge "A" "B"\n']


def ext(c, p):
    M = c.mod('klayout_pex.magic.magic_ext_file_parser')
    t = c.choice('noise', NOISE[:3]) if not p.get('few') else NOISE[0]
    exp = dict(ports=[], nodes=[], devices=[])
    d = p['digits']
    for i, k in enumerate(p['kinds']):
        few = p.get('few') and i != 1
        f = lambda n, neg=True: num(c, '%s%d' % (n, i), d, neg and not few)
        indent = c.choice('indent%d' % i, ['', '  ']) if not few else ''
        if k == 'port':
            nm = name(c, 'name%d' % i, p['ln'])
            nr, xs = f('nr', False), [f(q, q in ('xb', 'yt')) for q in ('xb', 'yb', 'xt', 'yt')]
            ly = word(c, 'layer%d' % i)
            t = t + indent + 'port "' + nm + '" ' + nr[0] + ''.join([' ']) + xs[0][0] + ' ' + xs[1][0] + ' ' + xs[2][0] + ' ' + xs[3][0] + ' ' + ly + '\n'
            exp['ports'].append((nm, [x[1] for x in xs], ly))
        elif k in ('node', 'substrate'):
            nm = name(c, 'name%d' % i, p['ln'])
            r, cp, x, y = f('r', False), f('c', False), f('x'), f('y')
            ly = word(c, 'layer%d' % i)
            t = t + indent + k + ' "' + nm + '" ' + r[0] + ' ' + cp[0] + ' ' + x[0] + ' ' + y[0] + ' ' + ly + ' 0 0 0 0 12 14\n'
            exp['nodes'].append((nm, [r[1], cp[1], x[1], y[1]], ly))
        else:
            ty = c.choice('type%d' % i, TYPES if p['ln'] == 2 else TYPES[:2])
            model = word(c, 'model%d' % i)
            xs = [f(q, q in ('xb', 'yt')) for q in ('xb', 'yb', 'xt', 'yt')]
            t = t + indent + 'device ' + ty + ' ' + model + ' ' + xs[0][0] + ' ' + xs[1][0] + ' ' + xs[2][0] + ' ' + xs[3][0] + ' l=30 "VSUBS" "G" 60 0\n'
            exp['devices'].append((ty, model, [x[1] for x in xs]))
        t = t + NOISE[(i + 3) % len(NOISE)]
    M.open = FS(c, {'a.ext': t}).open
    r = M.parse_magic_ext_file(pathlib.Path('a.ext'))
    c.check(len(r.ports) == len(exp['ports']) and len(r.nodes) == len(exp['nodes']) and len(r.devices) == len(exp['devices']), 'every declaration is read once')
    for g, (nm, xs, ly) in zip(r.ports, exp['ports']):
        c.check(bool(c.eq(g.net, nm)) and bool(c.eq(g.layer, ly)), 'port name and layer')
        c.check(c.all([g.x_bot == xs[0], g.y_bot == xs[1], g.x_top == xs[2], g.y_top == xs[3]]), 'port box')
    for g, (nm, xs, ly) in zip(r.nodes, exp['nodes']):
        c.check(bool(c.eq(g.net, nm)) and bool(c.eq(g.layer, ly)), 'node name and layer')
        c.check(c.all([g.int_r == xs[0], g.fin_c == xs[1], g.x_bot == xs[2], g.y_bot == xs[3]]), 'node values')
    for g, (ty, model, xs) in zip(r.devices, exp['devices']):
        c.check(str(g.device_type.value) == ty and bool(c.eq(g.model, model)), 'device type and model')
        c.check(c.all([g.x_bot == xs[0], g.y_bot == xs[1], g.x_top == xs[2], g.y_top == xs[3]]), 'device box')


def res(c, p):
    M = c.mod('klayout_pex.magic.magic_ext_file_parser')
    t = 'scale 1000 1 0.5\n'
    rn, rs = [], []
    for i, k in enumerate(p['kinds']):
        f = lambda n, neg=True: num(c, '%s%d' % (n, i), p['digits'], neg)
        if k == 'rnode':
            nm = name(c, 'name%d' % i, 2)
            cp, x, y = f('c', False), f('x', i == 0), f('y')
            t = t + 'rnode "' + nm + '" 0 ' + cp[0] + ' ' + x[0] + ' ' + y[0] + ' 0\n'
            rn.append((nm, [cp[1], x[1], y[1]]))
        else:
            a, b = name(c, 'a%d' % i, 2), name(c, 'b%d' % i, 1)
            v, w = f('v', False), f('w', False)
            frac = c.choice('frac%d' % i, [True, False])
            t = t + 'resist "' + a + '" "' + b + '" ' + v[0] + (('.' + w[0]) if frac else '') + '\n'
            rs.append((a, b, v[1] + (w[1] * 10.0 ** -p['digits'] if frac else 0)))
        t = t + ['killnode "A"\n', '\n'][i % 2]
    M.open = FS(c, {'a.res.ext': t}).open
    r = M.parse_magic_res_ext_file(pathlib.Path('a.res.ext'))
    c.check(len(r.rnodes) == len(rn) and len(r.resistors) == len(rs), 'every declaration is read once')
    for g, (nm, xs) in zip(r.rnodes, rn):
        c.check(bool(c.eq(g.name, nm)), 'node name')
        c.check(c.all([g.int_r == 0, g.fin_c == xs[0], g.x_bot == xs[1], g.y_bot == xs[2]]), 'node values')
    for g, (a, b, v) in zip(r.resistors, rs):
        c.check(bool(c.eq(g.node1, a)) and bool(c.eq(g.node2, b)), 'resistor nodes')
        c.check_close(g.value_ohm, v, 'resistance')
    for nm, _ in rn:
        want = [q for q, _ in rn if bool(c.eq(q, nm))]
        c.check(len(r.rnodes_by_name(nm)) == len(want), 'look-up by name')


def run(c, p):
    M = c.mod('klayout_pex.magic.magic_ext_file_parser')
    files, names = {}, []
    cells = ['inv', 'a.b', 'res']
    rev = c.flag('reverse')
    exp = {}
    for i, cell in enumerate(cells):
        k = c.choice('kind%d' % i, ['none', 'ext', 'both', 'res-only'] if i == 0 else ['none', 'ext', 'both'])
        if k in ('ext', 'both'):
            files[cell + '.ext'] = 'port "P%d" 1 0 0 1 1 m1\n' % i
            exp[cell] = k == 'both'
        if k in ('both', 'res-only'):
            files[cell + '.res.ext'] = 'rnode "R%d" 0 1 2 3 0\n' % i
        names += [n for n in (cell + '.ext', cell + '.res.ext', cell + '.sim') if n in files or n.endswith('.sim')]
    if rev:
        names.reverse()
    v = VOS(c)
    v.mkdirs('/vfs/run')
    v.mkdirs('/vfs/run/sub')
    for n in names:
        v.put('/vfs/run/' + n, files.get(n, 'noise'))
    v.put('/vfs/run/sub/other.ext', 'port "X" 1 0 0 1 1 m1')
    v.order = names
    M.open = v.open
    try:
        with v.installed():
            r = M.parse_magic_pex_run(pathlib.Path('/vfs/run'))
    except Exception as e:
        c.own(e)
        c.check(not exp, 'a run with extraction files is read')
        return
    c.check(bool(exp), 'a run without any extraction file is an error')
    c.check(sorted(r.cells.keys()) == sorted(exp), 'every cell with an extraction file')
    for cell, both in exp.items():
        d = r.cells[cell]
        i = cells.index(cell)
        c.check([q.net for q in d.ext_data.ports] == ['P%d' % i], 'the extraction file of this cell')
        c.check((d.res_ext_data is not None) == both, 'resistance data exactly if there is a file for this cell')
        if both:
            c.check([q.name for q in d.res_ext_data.rnodes] == ['R%d' % i], 'the resistance file of this cell')


class Rec:
    """records what a report database is given"""

    class Item:
        def __init__(self, i, name, parent):
            self.i, self.name, self.parent = i, name, parent

        def rdb_id(self):
            return self.i

    def __init__(self):
        self.cats, self.cells, self.items = [], [], []

    def create_category(self, *a, **k):
        name = k.get('name', a[-1] if a else None)
        parent = k.get('parent', a[0] if len(a) > 1 else None)
        self.cats.append(Rec.Item(len(self.cats) + 1, name, parent))
        return self.cats[-1]

    def create_cell(self, name):
        self.cells.append(Rec.Item(len(self.cells) + 100, name, None))
        return self.cells[-1]

    def create_items(self, cell_id, category_id, trans, shapes):
        boxes = [(s.box.left, s.box.bottom, s.box.right, s.box.top) for s in shapes.each()]
        self.items.append((cell_id, category_id, trans, boxes))


def run_report(c, cells, dbu):
    A = c.mod('klayout_pex.magic.magic_log_analyzer')
    D = c.mod('klayout_pex.magic.magic_ext_data_structures')
    rec = Rec()
    a = A.MagicLogAnalyzer(magic_pex_run=D.MagicPEXRun(run_dir=None, cells=cells), report=rec, dbu=dbu)
    a.analyze()
    out = {}
    for cell, cat, trans, boxes in rec.items:
        ct = [x for x in rec.cats if x.i == cat][0]
        top = ct.parent.name
        out.setdefault(top, []).append(([x.name for x in rec.cells if x.i == cell][0], ct.name, trans.mag, boxes))
    return out


def tool(c, p):
    """the analyzer as a program: options, run directory, report file"""
    A = c.mod('klayout_pex.magic.magic_log_analyzer')
    E = c.mod('klayout_pex.magic.magic_ext_file_parser')
    v = VOS(c)
    d = '/vfs/' + c.choice('directory', ['run', 'a b', 'r.1'])
    exists = c.choice('directory is', ['there', 'missing', 'a file'])
    sx, x = num(c, 'x', 2)
    sy, y = num(c, 'y', 2, False)
    if exists == 'there':
        v.mkdirs(d)
        v.put(d + '/top.ext', 'port "PA" 1 %s %s 200 300 m1\n' % (sx, sy))
        if p['second']:
            v.put(d + '/sub.ext', 'port "PB" 1 0 0 10 10 m1\n')
    elif exists == 'a file':
        v.put(d, 'x')
    o = c.choice('output', [None, '/vfs/o.rdb'])
    args = ['--magic_log_dir', d] if c.flag('long options') else ['-m', d]
    if o:
        args += [c.choice('out option', ['--out', '-o']), o]
    if c.flag('output first'):
        args = args[2:] + args[:2]
    recs = []

    class R(Rec):
        def __init__(self, *a):
            Rec.__init__(self)
            self.saved = []
            recs.append(self)

        def save(self, path):
            self.saved.append((str(path), len(self.items)))
    old = sys.argv, getattr(A, 'rdb', None)
    sys.argv = ['magic_log_analyzer'] + args
    A.rdb = types.SimpleNamespace(ReportDatabase=R)
    E.open = v.open
    try:
        with v.installed():
            A.main()
    except Exception as e:
        c.own(e)
        c.check(exists != 'there', 'a run directory is analyzed')
        c.check(all(not r.saved for r in recs), 'no report without a run directory')
        return
    finally:
        sys.argv, A.rdb = old
    c.check(exists == 'there', 'a missing run directory is an error')
    c.check(len(recs) == 1 and recs[0].saved == [(o or d + '/report.rdb.gz', 1 + p['second'])], 'the complete report is saved once, where requested')
    r = recs[0]
    c.check(sorted(q.name for q in r.cells) == ['sub', 'top'][1 - p['second']:], 'every cell is reported')
    cell, cat, trans, boxes = [q for q in r.items if [z.name for z in r.cells if z.i == q[0]] == ['top']][0]
    c.check(abs(trans.mag - 1e-3) < 1e-12 and len(boxes) == 1, 'one marker per declaration')
    c.check(near(c, boxes[0], [x * 5, y * 5, 1000, 1500], 1e-3), 'marker position')


def near(c, box, exp, dbu):
    """markers lie on the grid point next to the exact position"""
    ok = []
    for g, e in zip(box, exp):
        d = g - e
        ok += [d <= 0.5 + 1e-6, -d <= 0.5 + 1e-6]
    return c.all(ok)


def report(c, p):
    D = c.mod('klayout_pex.magic.magic_ext_data_structures')
    dbu = c.choice('dbu', [0.001, 0.002, 0.003, 0.005])
    xs = lambda n: (c.int(n + 'l', -1000, 1000), c.int(n + 'b', -1000, 1000))
    def bx(n):
        l, b = xs(n)
        return (l, b, l + c.int(n + 'w', 1, 500), b + c.int(n + 'h', 1, 500))
    P0, P1, D0 = bx('p0'), bx('p1'), bx('d0')
    n0 = xs('n0')
    ext = D.ExtData(path=None, ports=[D.Port('A', *P0, 'm1'), D.Port('B', *P1, 'm2')], nodes=[D.Node('N', 1, 2, *n0, 'm1')],
                    devices=[D.Device(D.DeviceType.MOSFET, 'nfet', *D0)])
    out = run_report(c, {'TOP': D.CellExtData(ext_data=ext, res_ext_data=None)}, dbu)
    u = 1 / 200.0 / dbu
    c.check(sorted(out) == ['Devices', 'Nodes', 'Ports'], 'one category per kind')
    for top, exp in (('Ports', [('A', 'm1', P0), ('B', 'm2', P1)]), ('Devices', [('mosfet', 'nfet', D0)])):
        c.check(len(out[top]) == len(exp), 'every declaration has a marker')
        for (cell, nm, mag, boxes), (a, b, box) in zip(out[top], exp):
            c.check(cell == 'TOP' and a in nm and b in nm, 'marker names its declaration')
            c.check(abs(mag - dbu) < 1e-12, 'marker scale')
            c.check(len(boxes) == 1, 'one marker per declaration')
            c.check(near(c, boxes[0], [x * u for x in box], dbu), 'marker position')
    (cell, nm, mag, boxes), = out['Nodes']
    c.check(cell == 'TOP' and 'N' in nm and abs(mag - dbu) < 1e-12, 'node marker')
    c.check(len(boxes) == 1 and bool(near(c, boxes[0][:2], [x * u for x in n0], dbu)), 'node marker position')


def report_res(c, p):
    D = c.mod('klayout_pex.magic.magic_ext_data_structures')
    dbu = c.choice('dbu', [0.001, 0.005])
    pts = [(c.int('x%d' % i, -1000, 1000), c.int('y%d' % i, -1000, 1000)) for i in range(3)]
    nm = ['A', 'B', c.choice('third', ['A', 'C'])]
    a, b = c.choice('ends', [(0, 1), (1, 2), (2, 0)])
    u = 1 / 200.0 / dbu
    rext = D.ResExtData(path=None, rnodes=[D.ResNode(n, 0, 1, *q) for n, q in zip(nm, pts)], resistors=[D.Resistor(nm[a], nm[b], 12.5)])
    ext = D.ExtData(path=None, ports=[], nodes=[], devices=[])
    out = run_report(c, {'TOP': D.CellExtData(ext_data=ext, res_ext_data=rext)}, dbu)
    c.check(sorted(out) == ['Resistor Nodes', 'Resistors'], 'one category per kind')
    c.check([x[1] for x in out['Resistor Nodes']] == nm, 'every resistor node has a marker')
    for (cell, n, mag, boxes), q in zip(out['Resistor Nodes'], pts):
        c.check(len(boxes) == 1 and bool(near(c, boxes[0][:2], [x * u for x in q], dbu)), 'resistor node position')
    (cell, n, mag, boxes), = out['Resistors']
    c.check(nm[a] in n and nm[b] in n and '12.5' in n, 'resistor marker names its nodes and value')
    want = [i for i in range(3) if nm[i] == nm[a]] + [i for i in range(3) if nm[i] == nm[b]]
    c.check(len(boxes) == len(want), 'a resistor is marked at its nodes')
    for i in set(want):
        c.check(c.any([near(c, q[:2], [x * u for x in pts[i]], dbu) for q in boxes]), 'a resistor is marked at its nodes')
    for q in boxes:
        c.check(c.any([near(c, q[:2], [x * u for x in pts[i]], dbu) for i in set(want)]), 'a resistor is marked only at its nodes')
