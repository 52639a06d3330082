"""Options: choice patterns select exactly what they name, boolean spellings are understood, environment settings win over defaults."""
import argparse
import os

META = {
    'bounds': ['patterns of up to 3 components in any order, upper and lower case, with spaces around them', 'names of up to 3 symbolic characters (no comma, no blank)',
               'boolean texts: every text of up to 5 printable characters', 'every combination of set and unset variables'],
    'outside': ['a pattern of exclusions alone (undocumented)'],
}


def cases(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for base in ('all', 'none', None):
        for k in range(0 if base else 1, n + 1):
            out.append(dict(name='pattern-%s-%d' % (base, k), fn='pattern', params=dict(base=base, k=k)))
    out.append(dict(name='invalid', fn='invalid', params={}))
    for n in range(0, 6):
        out.append(dict(name='bool-%d' % n, fn='boolean', params=dict(n=n)))
    out.append(dict(name='bool-native', fn='native', params={}))
    out.append(dict(name='env', fn='env', params={}))
    return out


def pattern(c, p):
    MCP = c.mod('klayout_pex.util.multiple_choice').MultipleChoicePattern
    base, k = p['base'], p['k']
    sign = '-' if base == 'all' else '+'
    names = [c.str('name%d' % i, 2 + i % 2, 97, 122) for i in range(k)]
    upper = c.flag('upper')
    blank = c.flag('blank')
    comps = [base] if base else []
    comps += [sign + (n.upper() if upper else n) for n in names]
    rot = c.choice('order', range(len(comps))) if len(comps) > 1 else 0
    comps = comps[rot:] + comps[:rot]
    if upper:
        comps = [x.upper() if isinstance(x, str) and x in ('all', 'none') else x for x in comps]
    pat = comps[0]
    for x in comps[1:]:
        pat = pat + (' , ' if blank else ',') + x
    m = MCP(pat)
    choices = [c.str('choice%d' % i, 2 + i, 97, 122) for i in range(2)]
    want = []
    for ch in choices:
        named = any([bool(c.eq(ch, n)) for n in names])
        inc = (not named) if base == 'all' else named
        c.check(bool(m.is_included(ch)) == inc, 'exactly the named choices')
        if inc:
            want.append(ch)
    got = list(m.filter(choices))
    c.check(len(got) == len(want) and all(bool(c.eq(a, b)) for a, b in zip(got, want)), 'filtering keeps the included choices in order')
    c.check(len(list(m.filter([]))) == 0, 'nothing to choose from')


def invalid(c, p):
    MCP = c.mod('klayout_pex.util.multiple_choice').MultipleChoicePattern
    n = c.str('name', 2, 97, 122)
    pat = c.choice('pattern', [['all', 'none'], ['none', '-'], ['all', '+'], ['all', '-', '+'], ['none', '+', '-'], ['+', 'none', 'all']])
    rev = c.flag('reverse')
    t = None
    for x in (reversed(pat) if rev else pat):
        x = x if x in ('all', 'none') else x + n
        t = x if t is None else t + ',' + x
    try:
        MCP(t)
        ok = True
    except ValueError:
        ok = False
    c.check(not ok, 'a contradictory pattern is an error')


YES, NO = ('yes', 'true', 't', 'y', '1'), ('no', 'false', 'f', 'n', '0')


def boolean(c, p):
    A = c.mod('klayout_pex.util.argparse_helpers')
    t = c.str('t', p['n'], 33, 126)
    low = t.lower()
    want = True if any([bool(c.eq(low, y)) for y in YES]) else False if any([bool(c.eq(low, y)) for y in NO]) else None
    try:
        got = A.true_or_false(t)
    except argparse.ArgumentTypeError:
        got = None
    c.check(got is want, 'boolean spelling')


def native(c, p):
    A = c.mod('klayout_pex.util.argparse_helpers')
    v = c.choice('v', [True, False, 1, 0])
    try:
        got = A.true_or_false(v)
    except argparse.ArgumentTypeError:
        got = None
    c.check(got is bool(v), 'native values')


def env(c, p):
    E = c.mod('klayout_pex.env')
    saved = os.environ
    names = ['KPEX_FASTCAP_EXE', 'KPEX_FASTERCAP_EXE', 'KPEX_KLAYOUT_EXE', 'KPEX_MAGIC_EXE', 'PDKPATH', 'PDK']
    dflt = ['fastcap', 'FasterCap', 'klayout', 'magic', None, None]
    d = {'HOME': '/h', 'PATH': '/bin'}
    for i, n in enumerate(names):
        if c.flag('set%d' % i):
            d[n] = c.str('v%d' % i, 2, 33, 126)
    os.environ = d
    try:
        e = E.Env.from_os_environ()
    finally:
        os.environ = saved
    for n, df in zip(names, dflt):
        got = e[E.EnvVar(n)]
        if n in d:
            c.check(got is not None and bool(c.eq(got, d[n])), 'a setting wins over the default')
        else:
            c.check(got == df, 'default')
