"""Conversion of layouts between PDKs: every shape arrives on exactly the layers its layer corresponds to, unmapped layers are kept apart."""
import os
import shutil
import sys
import tempfile
import types
import xml.etree.ElementTree as ET

META = {
    'bounds': ['layouts of up to 3 layers (thorough 4) of a pool that has drawing, pin, label, cut, unknown and already shifted layers of both PDKs', 'one box per layer (beside each other), one text, a subcell placed beside it in any of 4 orientations, one or two top cells',
               'up to 3 layers of any numbers up to 2000, one of them possibly mapped',
               'layer property files with names and numbers of up to 3 characters', 'every documented log level in any case, unknown ones, missing input'],
    'outside': ['layouts whose layers fit both PDKs equally well', 'reading and writing GDS (done by KLayout)', 'paths and properties of shapes'],
}
# drawn layers of SKY130 and their counterparts of SG13G2 (GDS numbers of the PDK documentation)
FORTH = {
    (68, 20): {(10, 0)}, (67, 20): {(8, 0)}, (67, 5): {(8, 2), (8, 25)}, (67, 16): {(8, 2)}, (66, 20): {(5, 0)}, (65, 20): {(1, 0)}, (65, 44): {(1, 0)}, (64, 20): {(31, 0)},
    (67, 44): {(19, 0)}, (68, 44): {(29, 0)}, (72, 20): {(126, 0)}, (72, 5): {(126, 2), (126, 25)}, (66, 44): {(6, 0)}, (72, 16): {(126, 2)},
}
BACK = {}
for a_, bs_ in FORTH.items():
    for b_ in bs_:
        BACK.setdefault(b_, set()).add(a_)
POOL = {
    'sky': [(68, 20), (67, 5), (65, 20), (65, 44), (999, 3), (1067, 5)],
    'ihp': [(10, 0), (8, 2), (8, 25), (1, 0), (999, 3), (1008, 2)],
    'sky2': [(67, 20), (66, 20), (67, 44), (72, 5), (64, 20)],
    'ihp2': [(8, 0), (5, 0), (19, 0), (126, 2), (6, 0)],
}


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for k in POOL:
            if n > 2 and k[-1] == '2' and tier == 'quick':
                continue
            out.append(dict(name='convert-%s-%d' % (k, n), fn='convert', params=dict(pool=k, n=n)))
    for k in ('sky', 'ihp'):
        out.append(dict(name='cells-' + k, fn='convert', params=dict(pool=k, n=1, cells=True)))
    for n in (1, 2):
        out.append(dict(name='lyp-%d' % n, fn='lyp', params=dict(n=n)))
    out.append(dict(name='unknown', fn='unknown', params={}))
    for n in (1, 2, 3):
        out.append(dict(name='numbers-%d' % n, fn='numbers', params=dict(n=n)))
    out.append(dict(name='options', fn='options', params={}))
    return out


def convert(c, p):
    M = c.mod('convert_layout_pdk')
    k = c.kdb
    pool = POOL[p['pool']]
    sky = p['pool'].startswith('sky')
    src = k.Layout()
    src.dbu = 0.005
    top = src.create_cell('TOP')
    sub, other = (src.create_cell(n) if p.get('cells') else None for n in ('SUB', 'OTHER'))
    used, want = [], {}
    tr = None
    if p.get('cells'):
        r, m = c.choice('orient', [(0, False), (1, False), (2, True), (3, True)])
        dx, dy = c.int('dx', 30000, 50000), c.int('dy', -1000, 1000)
        tr = k.Trans(r, m, dx, dy)
        top.insert(k.CellInstArray(sub.cell_index(), tr))
    for i in range(p['n']):
        pair = c.choice('layer%d' % i, [q for q in pool if q not in used])
        used.append(pair)
        li = src.layer(*pair)
        x, y, w, h = c.int('x%d' % i, i * 4000, i * 4000 + 2000), c.int('y%d' % i, -10000, 10000), c.int('w%d' % i, 1, 1000), c.int('h%d' % i, 1, 1000)
        b = k.Box(x, y, x + w, y + h)
        tx, ty = c.int('tx%d' % i, -1000, 1000), c.int('ty%d' % i, -1000, 1000)
        t = k.Text('t%d' % i, k.Trans(tx, ty))
        shapes, texts = [], []
        top.shapes(li).insert(b)
        shapes.append(('TOP', b))
        if p.get('cells'):
            sub.shapes(li).insert(b)
            sub.shapes(li).insert(t)
            other.shapes(li).insert(b)
            shapes += [('TOP', tr * b), ('OTHER', b)]
            q = tr * t
            texts.append(('TOP', 't%d' % i, q.x, q.y))
        else:
            top.shapes(li).insert(t)
            texts.append(('TOP', 't%d' % i, t.x, t.y))
        for d in (FORTH if sky else BACK).get(pair) or {(1000 + pair[0], pair[1])}:
            e = want.setdefault(d, ([], []))
            e[0].extend(shapes)
            e[1].extend(texts)
    # the PDK the layout is for is recognised by its layers
    rank = [sum(q in lyp_pairs(f) for q in used) for f in ('pdk/sky130A/libs.tech/kpex/sky130A.lyp', 'pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lyp')]
    c.assume(rank[0] > rank[1] if sky else rank[1] > rank[0])
    d = tempfile.mkdtemp(prefix='kpexv')
    argv = sys.argv
    try:
        a, b = os.path.join(d, 'in.gds'), os.path.join(d, 'out.gds')
        src.write(a)
        open(a, 'a').close()
        sys.argv = ['convert_layout_pdk', c.choice('opt', ['-i', '--in']) if p['n'] == 1 else '-i', a, '-o', b]
        M.main()
        res = k.Layout()
        res.read(b)
    finally:
        sys.argv = argv
        shutil.rmtree(d)
    c.check(res.dbu == 0.005, 'grid')
    tops = ['TOP'] + (['OTHER'] if p.get('cells') else [])
    c.check(sorted(x.name for x in res.top_cells()) == sorted(tops), 'top cells')
    got = {}
    for li in res.layer_indexes():
        info = res.get_info(li)
        for name in tops:
            reg, texts = k.Region(), []
            it = res.begin_shapes(res.cell(name), li)
            while not it.at_end():
                s = it.shape()
                if s.is_text():
                    q = it.trans() * s.text
                    texts.append((name, q.string, q.x, q.y))
                else:
                    reg.insert(it.trans() * s.polygon)
                it.next()
            e = got.setdefault((info.layer, info.datatype), ({}, []))
            e[0][name] = reg
            e[1].extend(texts)
    got = {q: e for q, e in got.items() if e[1] or any(not r.is_empty() for r in e[0].values())}
    c.check(set(got) == set(want), 'layers of the converted layout')
    for q, (shapes, texts) in want.items():
        for name in tops:
            w = k.Region()
            for n, s in shapes:
                if n == name:
                    w.insert(s)
            c.check((w ^ got[q][0][name]).is_empty(), 'shapes of a converted layer')
        for a, b, label in ((texts, got[q][1], 'texts are kept'), (got[q][1], texts, 'no other texts')):
            for t in a:
                c.check(any(t[0] == u[0] and t[1] == u[1] and bool(c.all([c.eq(t[2], u[2]), c.eq(t[3], u[3])])) for u in b), label)


_LYP = {}


def lyp_pairs(f):
    if f not in _LYP:
        from symx.world import REPO
        out = set()
        for e in ET.parse(os.path.join(REPO, f)).getroot().findall('./properties'):
            s = e.find('./source').text.split('@')[0]
            out.add(tuple(int(x) for x in s.split('/')[:2]))
        _LYP[f] = out
    return _LYP[f]


def lyp(c, p):
    """the layers declared by a layer property file"""
    M = c.mod('convert_layout_pdk')
    rows, want = [], []
    for i in range(p['n']):
        n = c.choice('len%d' % i, [1, 2])
        name = word(c, 'n%d' % i, n)
        purpose = word(c, 'p%d' % i, n) if c.flag('purpose%d' % i) else None
        t = name if purpose is None else name + '.' + purpose
        if i == 0:
            t = t + c.choice('comment', ['', ' - 1/2', '\tx'])
        l, d = c.str('l%d' % i, n, 48, 57), c.str('d%d' % i, 1, 48, 57)
        rows.append((t, l + '/' + d + c.choice('at%d' % i, ['@1', ''])))
        want.append((name, purpose, l, d))

    class Node:
        def __init__(self, text):
            self.text = text

    class Row:
        def __init__(self, r):
            self.r = dict(zip(('./name', './source'), r))

        def find(self, q):
            return Node(self.r[q])

    class Tree:
        def __init__(self, path):
            pass

        def getroot(self):
            return self

        def findall(self, q):
            assert q == './properties'
            return [Row(r) for r in rows]
    M.ET = types.SimpleNamespace(parse=Tree)
    try:
        r = M.parse_layers('x.lyp')
    finally:
        M.ET = ET
    c.check(len(r.layers) == len(want), 'every layer of the file')
    num = lambda s: sum((ord_(c, s[i]) - 48) * 10 ** (len(s) - 1 - i) for i in range(len(s)))
    for e, (name, purpose, l, d) in zip(r.layers, want):
        c.check(bool(c.eq(e.layer, name)), 'layer name')
        c.check((e.purpose is None) == (purpose is None) and (purpose is None or bool(c.eq(e.purpose, purpose))), 'layer purpose')
        c.check(c.all([c.eq(e.gds_pair.layer, num(l)), c.eq(e.gds_pair.datatype, num(d))]), 'layer numbers')


def ord_(c, ch):
    if not c.sym:
        return ord(ch)
    from symx.strings import items_of, SymChar
    from symx.values import SymInt
    i, = items_of(ch)
    return SymInt(i.t) if isinstance(i, SymChar) else ord(i)


def word(c, name, n):
    t = c.str(name, n, 48, 122)
    for i in range(n):
        x = ord_(c, t[i])
        c.assume(c.any([c.all([x >= 48, x <= 57]), c.all([x >= 65, x <= 90]), c.eq(x, 95), c.all([x >= 97, x <= 122])]))
    return t


def unknown(c, p):
    """a mapping naming a layer the PDK does not have is reported with that name"""
    M = c.mod('convert_layout_pdk')
    lay = lambda n, q: M.Layer(layer=n, purpose=None, gds_pair=M.GDSPair(*q))
    src = M.LayerList([lay('a', (1, 0)), lay('b', (2, 0))])
    dst = M.LayerList([lay('A', (5, 0)), lay('B', (6, 0))])
    bad_s, bad_d = c.flag('src'), c.flag('dst')
    s = 'metalX' if bad_s else 'a'
    m = M.LayerMapping(lpp_mapping={s: ('A', 'metalY' if bad_d else 'B'), 'b': ('metalZ',) if c.flag('both') else ('B',)}, src_layers=src, dest_layers=dst)
    names = [n for n, f in (('metalX', bad_s), ('metalY', bad_d and not bad_s), ('metalZ', m.lpp_mapping['b'] == ('metalZ',))) if f]
    try:
        d = m.dest_layers_by_source_gds_pair
        err = None
    except Exception as e:
        c.own(e)
        err = str(e)
    c.check((err is not None) == bool(names), 'unknown layers are an error')
    if err is not None:
        c.check(all(n in err for n in names), 'unknown layers are named')
    else:
        c.check({(q.layer, q.datatype): {(x.layer, x.datatype) for x in l.as_gds_list} for q, l in d.items()} == {(1, 0): {(5, 0), (6, 0)}, (2, 0): {(6, 0)}}, 'mapping')


def numbers(c, p):
    """layers of any numbers: the mapped one and only it arrives on its counterpart, all others on a layer of their own"""
    M = c.mod('convert_layout_pdk')
    k = c.kdb
    lay = k.Layout()
    top = lay.create_cell('TOP')
    m = c.int('ml', 0, 300), c.int('md', 0, 300)
    pairs = []
    for i in range(p['n']):
        q = (c.int('l%d' % i, 0, 2000), c.int('d%d' % i, 0, 2000)) if i < 2 else m
        for o in pairs:
            c.assume(c.not_(c.all([c.eq(q[0], o[0]), c.eq(q[1], o[1])])))
        pairs.append(q)
        top.shapes(lay.layer(*q)).insert(k.Box(100 * i, 0, 100 * i + 50, 30))
    src = M.LayerList([M.Layer(layer='a', purpose='drawing', gds_pair=M.GDSPair(*m))])
    dst = M.LayerList([M.Layer(layer='A', purpose='drawing', gds_pair=M.GDSPair(7, 5))])
    res = M.map_gds_layers(src_layout=lay, src_tech='x', dest_tech='y', layer_mapping=M.LayerMapping({'a.drawing': ('A.drawing',)}, src, dst))
    got = []
    for li in res.layer_indexes():
        info = res.get_info(li)
        it = res.begin_shapes(res.cell('TOP'), li)
        while not it.at_end():
            got.append((info.layer, info.datatype, it.shape().bbox().left))
            it.next()
    c.check(len(got) == p['n'], 'every shape is kept once')
    for i, q in enumerate(pairs):
        mapped = bool(c.all([c.eq(q[0], m[0]), c.eq(q[1], m[1])]))
        want = (7, 5) if mapped else (1000 + q[0], q[1])
        hit = [g for g in got if g[2] == 100 * i]
        c.check(len(hit) == 1 and bool(c.all([c.eq(hit[0][0], want[0]), c.eq(hit[0][1], want[1])])), 'the layer of a shape')


LEVELS = ['all', 'debug', 'subprocess', 'verbose', 'info', 'warning', 'error', 'critical']


def options(c, p):
    """documented log levels are accepted and used, unknown ones and missing files end the run before anything is written"""
    M = c.mod('convert_layout_pdk')
    L = c.mod('klayout_pex.log.logger')
    k = c.kdb
    name = c.choice('level', [None] + LEVELS + ['default', 'verbos', 'infox', '10', ''])
    if name and c.flag('upper'):
        name = name.upper()
    missing = c.flag('missing')
    d = tempfile.mkdtemp(prefix='kpexv')
    argv = sys.argv
    before = L.get_log_level()
    try:
        a, b = os.path.join(d, 'in.gds'), os.path.join(d, 'out.gds')
        src = k.Layout()
        src.dbu = 0.005
        src.create_cell('TOP').shapes(src.layer(68, 20)).insert(k.Box(0, 0, 10, 20))
        if not missing:
            src.write(a)
            open(a, 'a').close()
        sys.argv = ['convert_layout_pdk', '-i', a, '-o', b] + ([] if name is None else ['--log_level', name])
        try:
            M.main()
            code = 0
        except SystemExit as e:
            code = e.code
        level = L.get_log_level()
        known = name is None or name.lower() in LEVELS + ['default']
        if known and not missing:
            c.check(code == 0, 'a documented log level is accepted')
            c.check(level.name == ('SUBPROCESS' if name is None or name.lower() == 'default' else name.upper()), 'the requested log level is used')
            res = k.Layout()
            res.read(b)
            c.check(len(res.top_cells()) == 1, 'the layout is converted')
        else:
            c.check(code not in (0, None), 'an impossible request ends with an error status')
            res = k.Layout()
            try:
                res.read(b)
                written = True
            except (RuntimeError, KeyError):
                written = False
            c.check(not written, 'nothing is written')
    finally:
        L.set_log_level(before)
        sys.argv = argv
        shutil.rmtree(d)
