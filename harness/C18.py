"""Capacitance matrix: CSV round trip, averaging of the off-diagonals."""
from vfs import FS

META = {
    'bounds': ['matrices up to 4x4, every entry (also in units of 1e-6, 1e-15 and 1e-18)', 'conductor names of 1..3 printable characters', 'separators ; , and tab'],
    'outside': ['larger matrices'],
}


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        out.append(dict(name='average-%d' % n, fn='average', params=dict(n=n)))
    for sep in (None, ';', ',', '\t'):
        for n in (1, 2, 3):
            out.append(dict(name='roundtrip-%r-%d' % (sep, n), fn='roundtrip', params=dict(n=n, sep=sep)))
    for unit in (1e-6, 1e-15, 1e-18):
        out.append(dict(name='roundtrip-%g' % unit, fn='roundtrip', params=dict(n=2, sep=None, unit=unit)))
    out.append(dict(name='parse', fn='parse', params={}))
    out.append(dict(name='short', fn='short', params={}))
    return out


def entries(c, n):
    return [[c.real('m%d_%d' % (i, j), -1000000, 1000000) for j in range(n)] for i in range(n)]


def average(c, p):
    CM = c.mod('klayout_pex.common.capacitance_matrix').CapacitanceMatrix
    n = p['n']
    m = entries(c, n)
    names = ['g%d' % i for i in range(n)]
    cm = CM(conductor_names=list(names), rows=[list(r) for r in m])
    a = cm.averaged_off_diagonals()
    c.check(a.dimension == n and list(a.conductor_names) == names, 'conductors stay')
    for i in range(n):
        for j in range(n):
            c.check_close(a[i][j], m[i][j] if i == j else (m[i][j] + m[j][i]) * 0.5, 'average of the two mutual entries')
            c.check(bool(c.eq(cm[i][j], m[i][j])), 'the given matrix is left alone')
    a[0][0] = 7.0
    c.check(bool(c.eq(cm[0][0], m[0][0])), 'the result is independent of the given matrix')


def roundtrip(c, p):
    M = c.mod('klayout_pex.common.capacitance_matrix')
    fs = FS(c)
    M.open = fs.open
    n = p['n']
    # (a separator or white space at the border of a name is not representable)
    names = [c.str('name%d' % i, 1 + i, 33, 126, exclude=';,') for i in range(n)]
    m = [[c.real('m%d_%d' % (i, j), -1000, 1000) for j in range(n)] for i in range(n)]
    u = p.get('unit', 1)
    cm = M.CapacitanceMatrix(conductor_names=list(names), rows=[[v * u for v in r] for r in m])
    kw = {} if p['sep'] is None else dict(separator=p['sep'])
    cm.write_csv('m.csv', **kw)
    r = M.CapacitanceMatrix.parse_csv('m.csv', **kw)
    c.check(r.dimension == n and len(r.rows) == n, 'dimension')
    for i in range(n):
        c.check(bool(c.eq(r.conductor_names[i], names[i])), 'conductor name')
        c.check(len(r[i]) == n, 'row length')
        for j in range(n):
            c.check_close(r[i][j] / u, m[i][j], 'entry')


def parse(c, p):
    M = c.mod('klayout_pex.common.capacitance_matrix')
    a, b, d, e = ['%s%d.%d' % ('-' if c.flag('neg%d' % i) else '', i, i + 1) for i in range(4)]
    nl = c.choice('eol', ['\n', ' \n', '\r\n'])
    pad = c.choice('pad', ['', ' ', '  '])
    t = 'g1_A;' + pad + 'g2_B' + nl + a + pad + ';' + b + nl + d + ';' + pad + e + c.choice('last', ['', '\n'])
    M.open = FS(c, {'m.csv': t}).open
    r = M.CapacitanceMatrix.parse_csv('m.csv')
    c.check(list(r.conductor_names) == ['g1_A', 'g2_B'], 'names are stripped')
    c.check([list(x) for x in r.rows] == [[float(a), float(b)], [float(d), float(e)]], 'numbers')


def short(c, p):
    M = c.mod('klayout_pex.common.capacitance_matrix')
    M.open = FS(c, {'m.csv': c.choice('t', ['', '\n', 'g1_A;g2_B', 'g1;g2\n'])}).open
    try:
        M.CapacitanceMatrix.parse_csv('m.csv')
        ok = False
    except Exception as e:
        c.own(e)
        ok = True
    c.check(ok, 'a file without any row is an error')
