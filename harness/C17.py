"""FastCap log: the last matrix is read completely, in its unit."""
import caplog

META = {
    'bounds': ['matrices up to 3x3 (thorough 4x4), every value; 9 to 12 (thorough 123) conductors with one symbolic entry and two symbolic names', 'conductor names of 1..2 printable characters', 'all units, several column widths, one earlier matrix'],
    'outside': ['larger matrices', 'truncated logs other than a missing matrix'],
}
UNITS = {'attofarads': 1e-6, 'femtofarads': 1e-3, 'picofarads': 1.0, 'nanofarads': 1e3, 'microfarads': 1e6, 'millifarads': 1e9, 'farads': 1e12}


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for earlier in (0, 1):
            out.append(dict(name='log-%d-%d' % (n, earlier), fn='log', params=dict(n=n, earlier=earlier)))
    for n in (9, 10, 11, 12) + ((100, 123) if tier == 'thorough' else ()):
        out.append(dict(name='large-%d' % n, fn='large', params=dict(n=n)))
    out.append(dict(name='none', fn='none', params={}))
    return out


def log(c, p):
    M = c.mod('klayout_pex.fastcap.fastcap_runner')
    n = p['n']
    t = c.choice('noise', ['Running FastCap 2.0\n', 'CPU time: 1.0\n  Total kilobytes allocated: 3\n'])
    if p['earlier']:
        d = 2
        t += 'CAPACITANCE MATRIX, femtofarads\n' + '             1 2\n'
        for i in range(d):
            t += 'A%%G%d %d ' % (i, i + 1) + ' '.join('%d.5' % j for j in range(d)) + '\n'
        t += '\n'
    ns = caplog.names(c, n)
    unit = c.choice('unit', list(UNITS))
    pad = c.choice('pad', [' ', '   '])
    lead = c.choice('lead', ['', '  '])
    end = c.choice('end', ['\n', ' \n'])
    t += 'CAPACITANCE MATRIX, ' + unit + '\n' + '          ' + '          '.join('%d' % (i + 1) for i in range(n)) + ' \n'
    m = []
    for i in range(n):
        row = [caplog.number(c, 'm%d%d' % (i, j), -1000000, 1000000) for j in range(n)]
        m.append([v * UNITS[unit] for v, _ in row])
        t = t + lead + ns[i] + pad + '%d' % (i + 1)
        for _, x in row:
            t = t + pad + x
        t = t + end
    t = t + c.choice('tail', ['', '\nTotal FastCap2 time: 1\n'])
    caplog.compare(c, caplog.read(c, M, 'fastcap_parse_capacitance_matrix', t), ns, m)


def large(c, p):
    """many conductors: one entry and two names are arbitrary"""
    M = c.mod('klayout_pex.fastcap.fastcap_runner')
    n = p['n']
    at = c.choice('row', [0, 1, n - 1]), c.choice('col', [0, n // 2, n - 1])
    ns = ['N%d%%GROUP%d' % (i, i + 1) for i in range(n)]
    ns[0], ns[n - 1] = c.str('first', 2, 36, 126), c.str('last', 2, 36, 126)
    m = [[float(i * n + j) - 50 for j in range(n)] for i in range(n)]
    v, x = caplog.number(c, 'm', -1000, 1000)
    m[at[0]][at[1]] = v
    t = 'CAPACITANCE MATRIX, picofarads\n' + ''.join('%11d' % (i + 1) for i in range(n)) + ' \n'
    for i in range(n):
        t = t + ns[i] + ' %d ' % (i + 1)
        for j in range(n):
            t = t + (x if (i, j) == at else '%.17g' % m[i][j]) + ' '
        t = t + '\n'
    caplog.compare(c, caplog.read(c, M, 'fastcap_parse_capacitance_matrix', t + '\nTotal time: 0.1s\n'), ns, m)


def none(c, p):
    M = c.mod('klayout_pex.fastcap.fastcap_runner')
    t = c.choice('t', ['', '\n', 'failed\n', 'CAPACITANCE MATRIX, \n 1 2\n', 'CAPACITANCE MATRIX, pounds\n   1\nA 1 1.0\n'])
    try:
        caplog.read(c, M, 'fastcap_parse_capacitance_matrix', t)
        ok = False
    except Exception as e:
        c.own(e)
        ok = True
    c.check(ok, 'a log without a readable matrix is an error')
