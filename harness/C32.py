"""Repair of marker databases: every item's category exists exactly once at its path; nothing else changes."""
import types
import xml.etree.ElementTree as ET

META = {
    'bounds': ['up to 3 items with category paths of depth 1..3', 'names of up to 3 symbolic characters (every printable character), names with control and non-ASCII characters',
               'every subset of the categories already present'],
    'outside': ['longer names, deeper hierarchies', 'empty names', 'reading and writing the XML text itself (done by the standard library)'],
}


def cases(tier):
    out = []
    for n, d in ((1, 1), (1, 2), (2, 1), (3, 1)):
        out.append(dict(name='parse-%d-%d' % (n, d), fn='parse', params=dict(n=n, depth=d)))
    out.append(dict(name='parse-escapes', fn='parse_escapes', params={}))
    for n, d in ((1, 2), (2, 2), (3, 2)) + (((3, 3),) if tier == 'thorough' else ()):
        out.append(dict(name='repair-%d-%d' % (n, d), fn='repair', params=dict(n=n, depth=d)))
    out.append(dict(name='file', fn='file', params={}))
    return out


def quoted(c, chars):
    """the form KLayout writes a name in; chars: list of one-character texts"""
    t = "'"
    for ch in chars:
        if bool(c.any([c.eq(ch, "'"), c.eq(ch, '\\')])):
            t = t + '\\' + ch
        elif isinstance(ch, str) and ch in '\n\r\t':
            t = t + {'\n': '\\n', '\r': '\\r', '\t': '\\t'}[ch]
        elif isinstance(ch, str) and not 32 <= ord(ch) < 127:
            for b in ch.encode():
                t = t + '\\%03o' % b
        else:
            t = t + ch
    return t + "'"


def text(chars):
    t = ''
    for ch in chars:
        t = t + ch
    return t


def word(c, name, n):
    """a name and its written form"""
    if c.choice(name + '.form', ['word', 'quoted']) == 'word':
        t = c.str(name, n, 97, 122)
        return t, t
    s = c.str(name, n, 32, 126)
    chars = [s[i] for i in range(n)]
    if not c.sym and not all(ch.isalnum() or ch in '_$' for ch in chars):
        import klayout.rdb
        assert klayout.rdb.ReportDatabase('').create_category(s).path() == quoted(c, chars)
    return s, quoted(c, chars)


def join(ws):
    t = ws[0]
    for w in ws[1:]:
        t = t + '.' + w
    return t


def same(c, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(bool(c.eq(x, y)) for x, y in zip(a, b))


def parse(c, p):
    M = c.mod('klayout_pex.klayout.repair_rdb')
    ws = [word(c, 'w%d' % i, p['n']) for i in range(p['depth'])]
    c.check(same(c, M.parse_category_path(join([w for _, w in ws])), [n for n, _ in ws]), 'components of the category path')


ODD = ['\n', '\t', '\r', '\u00e9', '\u20ac', '\\', "'", '.', 'n', '3', '$']


def parse_escapes(c, p):
    M = c.mod('klayout_pex.klayout.repair_rdb')
    chars = [c.choice('a', ODD), c.choice('b', ODD)]
    s = c.str('x', 1, 32, 126)
    chars = chars + [s[0]]
    last = c.flag('more')
    path = quoted(c, chars) + ('.abc' if last else '')
    c.check(same(c, M.parse_category_path(path), [text(chars)] + (['abc'] if last else [])), 'components of the category path')


def build(c, p):
    """a database with symbolic paths and some of their categories present"""
    root = ET.Element('report-database')
    cats = ET.SubElement(root, 'categories')
    items = ET.SubElement(root, 'items')
    paths = []
    pool = ['a', 'b', c.str('name', 1, 32, 126)]
    for i in range(p['n']):
        d = c.choice('depth%d' % i, range(1, p['depth'] + 1))
        path = []
        for k in range(d):
            path.append(pool[2] if i == 0 and k == d - 1 else c.choice('n%d_%d' % (i, k), ['a', 'b'] if k == 0 else ['a']) if p['n'] > 2 else
                        c.choice('n%d_%d' % (i, k), pool))
        paths.append(path)
        it = ET.SubElement(items, 'item')
        e = ET.SubElement(it, 'category')
        e.text = join([w if w is not pool[2] else quoted(c, [w[0]]) for w in path])
        ET.SubElement(it, 'cell').text = 'TOP'
        if c.flag('present%d' % i):
            at = cats
            for w in path:
                f = [x for x in at.findall('./category') if bool(c.eq(x.find('./name').text, w))]
                if not f:
                    f = [ET.SubElement(at, 'category')]
                    ET.SubElement(f[0], 'name').text = w
                    ET.SubElement(f[0], 'description').text = 'D'
                    ET.SubElement(f[0], 'categories')
                at = f[0].find('./categories')
    other = ET.SubElement(cats, 'category')
    ET.SubElement(other, 'name').text = 'unused'
    ET.SubElement(other, 'description').text = 'D'
    ET.SubElement(other, 'categories')
    return root, paths


def shape(cats):
    return [(e, e.find('./name').text, e.find('./description').text, shape(e.find('./categories'))) for e in cats.findall('./category')]


def stub(M, root, log):
    class Tree:
        def getroot(self):
            return root

        def write(self, path, *a, **k):
            log.append(('write', path, [shape(root.find('./categories')), len(root.findall('./items/item'))]))

        def __getattr__(self, n):
            return getattr(ET.ElementTree(root), n)
    m = types.SimpleNamespace(Element=ET.Element, SubElement=ET.SubElement, ElementTree=ET.ElementTree, indent=lambda *a, **k: None)
    m.parse = lambda f, *a: (log.append(('parse', f)), Tree())[1]
    M.ET = m


def verify(c, root, paths, before, items):
    seen = {}

    def locate(path):
        at = root.find('./categories')
        for w in path:
            f = [e for e in at.findall('./category') if bool(c.eq(e.find('./name').text, w))]
            c.check(len(f) == 1, "the item's category exists exactly once")
            c.check(f[0].find('./description') is not None and f[0].find('./categories') is not None, 'a complete category')
            seen[id(f[0])] = 1
            at = f[0].find('./categories')
    for path in paths:
        locate(path)

    def kept(old, at):
        now = at.findall('./category')
        for e, name, desc, sub in old:
            c.check(sum(x is e for x in now) == 1 and bool(c.eq(e.find('./name').text, name)) and e.find('./description').text == desc, 'present categories are kept')
            kept(sub, e.find('./categories'))
        for x in now:
            c.check(any(x is e for e, _, _, _ in old) or id(x) in seen, 'no category nobody asked for')
    kept(before, root.find('./categories'))
    c.check([e.find('./category').text for e in root.findall('./items/item')] == items if all(isinstance(t, str) for t in items) else
            len(root.findall('./items/item')) == len(items), 'items are left alone')


def repair(c, p):
    M = c.mod('klayout_pex.klayout.repair_rdb')
    root, paths = build(c, p)
    before = shape(root.find('./categories'))
    items = [e.find('./category').text for e in root.findall('./items/item')]
    log = []
    stub(M, root, log)
    M.repair_rdb_xml('FILE', '/o/new.xml')
    c.check([x[1] for x in log if x[0] == 'write'] == ['/o/new.xml'], 'written once to the requested path')
    verify(c, root, paths, before, items)


def file(c, p):
    M = c.mod('klayout_pex.klayout.repair_rdb')
    log, opened = [], []
    root, paths = build(c, dict(n=1, depth=1))
    before = shape(root.find('./categories'))
    stub(M, root, log)

    class F:
        def __init__(self, kind, path, mode):
            opened.append((kind, path, mode))
            self.kind = kind

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    path = c.choice('path', ['/o/x.rdb', '/o/x.rdb.gz', '/o/y.gz', '/o.gz/x.lyrdb'])
    M.open = lambda q, mode='r', *a, **k: F('plain', q, mode)
    M.gzip = types.SimpleNamespace(open=lambda q, mode='rb', *a, **k: F('gz', q, mode), GzipFile=lambda q, mode='rb', *a, **k: F('gz', q, mode))
    bad = c.flag('unreadable')

    class DB:
        def __init__(self, name=''):
            pass

        def load(self, q):
            log.append(('load', q))
            if bad:
                raise RuntimeError('broken')
    M.rdb = types.SimpleNamespace(ReportDatabase=DB)
    M.repair_rdb(path)
    c.check(len(opened) == 1 and opened[0][0] == ('gz' if path.endswith('.gz') else 'plain') and opened[0][1] == path and 'w' not in opened[0][2]
            and 'a' not in opened[0][2] and '+' not in opened[0][2], 'the database is read, compressed or not')
    w = [x[1] for x in log if x[0] == 'write']
    c.check(w == [path + '.repair.xml'], 'the original is kept, the repaired one lies beside it')
    c.check([x[1] for x in log if x[0] == 'load'] == w, 'the repaired database is tried')
    verify(c, root, paths, before, [e.find('./category').text for e in root.findall('./items/item')])
