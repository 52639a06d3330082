"""FasterCap log: the last matrix is read completely, whatever precedes and follows it."""
import caplog

META = {
    'bounds': ['matrices up to 3x3 (thorough 4x4), every value; 9 to 12 (thorough 123) conductors with one symbolic entry and two symbolic names', 'conductor names of 1..2 printable characters',
               'up to two earlier iterations, several kinds of surrounding lines, several column spacings'],
    'outside': ['larger matrices', 'truncated logs other than a missing matrix'],
}


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for earlier in (0, 1, 2):
            if n == 3 and earlier == 1 and tier == 'quick':
                continue
            out.append(dict(name='log-%d-%d' % (n, earlier), fn='log', params=dict(n=n, earlier=earlier)))
    for n in (9, 10, 11, 12) + ((100, 123) if tier == 'thorough' else ()):
        out.append(dict(name='large-%d' % n, fn='large', params=dict(n=n)))
    out.append(dict(name='none', fn='none', params={}))
    return out


NOISE = ['', 'Iteration number #0 \n', 'Weighted Frobenius norm: 1.0\n***************************************\n\n', 'Dimension 3 x 3\n']
TAIL = ['', '\n', 'Warning: capacitance matrix is not diagonally dominant due to row 3\n\nSolve statistics:\n', 'Total time: 0.1s\nDimension 9 x 9\n']


def log(c, p):
    M = c.mod('klayout_pex.fastercap.fastercap_runner')
    n = p['n']
    t = c.choice('noise', NOISE)
    for e in range(p['earlier']):
        d = n if e == 0 else 1
        t += 'Capacitance matrix is:\nDimension %d x %d\n' % (d, d)
        for i in range(d):
            t += 'g%d_OLD ' % (i + 1) + ' '.join('%d.5e-09' % (e + j) for j in range(d)) + ' \n'
        t += '\nIteration number #%d \n' % (e + 1)
    ns = caplog.names(c, n)
    sep = c.choice('sep', [' ', '  '])
    end = c.choice('end', ['\n', ' \n'])
    ind = c.choice('indent', ['', ' '])
    t += 'Capacitance matrix is:' + end + 'Dimension %d x %d\n' % (n, n)
    m = []
    for i in range(n):
        row = [caplog.number(c, 'm%d%d' % (i, j), -1000, 1000) for j in range(n)]
        m.append([v for v, _ in row])
        t = t + ind + ns[i] + sep + ' '
        for _, x in row:
            t = t + x + sep
        t = t + end
    t = t + c.choice('tail', TAIL)
    caplog.compare(c, caplog.read(c, M, 'fastercap_parse_capacitance_matrix', t), ns, m)


def large(c, p):
    """many conductors: one entry and two names are arbitrary"""
    M = c.mod('klayout_pex.fastercap.fastercap_runner')
    n = p['n']
    at = c.choice('row', [0, 1, n - 1]), c.choice('col', [0, n // 2, n - 1])
    ns = ['g%d_N%d' % (i + 1, i) for i in range(n)]
    ns[0], ns[n - 1] = c.str('first', 2, 36, 126), c.str('last', 2, 36, 126)
    m = [[float(i * n + j) - 50 for j in range(n)] for i in range(n)]
    v, x = caplog.number(c, 'm', -1000, 1000)
    m[at[0]][at[1]] = v
    t = 'Capacitance matrix is:\nDimension 1 x 1\ng1_OLD 1 \n\nCapacitance matrix is:\nDimension %d x %d\n' % (n, n)
    for i in range(n):
        t = t + ns[i] + '  '
        for j in range(n):
            t = t + (x if (i, j) == at else '%.17g' % m[i][j]) + ' '
        t = t + '\n'
    caplog.compare(c, caplog.read(c, M, 'fastercap_parse_capacitance_matrix', t + '\nTotal time: 0.1s\n'), ns, m)


def none(c, p):
    M = c.mod('klayout_pex.fastercap.fastercap_runner')
    t = c.choice('t', ['', '\n', 'FasterCap failed\n', 'Capacitance matrix is:\n', 'Capacitance matrix is:\nDimension x\n', 'Dimension 1 x 1\ng1_A 1\n'])
    try:
        caplog.read(c, M, 'fastercap_parse_capacitance_matrix', t)
        ok = False
    except Exception as e:
        c.own(e)
        ok = True
    c.check(ok, 'a log without a matrix is an error')
