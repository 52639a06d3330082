"""texts of field solver logs with symbolic numbers and names"""
from vfs import FS


def number(c, name, lo, hi):
    v = c.real(name, lo, hi)
    return v, format(v, '.17g')


def names(c, n, lo=36, hi=126):
    return [c.str('name%d' % i, 1 + i % 2, lo, hi) for i in range(n)]


def read(c, M, fn, text):
    M.open = FS(c, {'x.log': text}).open
    return getattr(M, fn)(log_path='x.log')


def compare(c, cm, ns, m, scale=1e6):
    c.check(len(cm.conductor_names) == len(ns) and len(cm.rows) == len(ns), 'every conductor of the last matrix')
    for i, n in enumerate(ns):
        c.check(bool(c.eq(cm.conductor_names[i], n)), 'conductor name')
        c.check(len(cm.rows[i]) == len(ns), 'complete row')
        for j in range(len(ns)):
            c.check_close(cm.rows[i][j] * scale, m[i][j], 'matrix entry')
