"""Logging: every message of a sufficient level is shown exactly once, with its full text."""
import logging
import os
import sys
import types

META = {
    'bounds': ['every message function, every level of the tool, message texts of up to 6 symbolic characters around brackets, tags and per cent signs, with and without arguments',
               'up to two additional handlers, registered and removed in any order', 'the tool configured once or again', 'any record level 0..60 in the formatter, level names of 1..2 characters in the filter'],
    'outside': ["how the rich library lays a message out (its handler is replaced by one that records the text; its markup module is the real one)",
                'emoji codes and a single backslash at the end of a message, which rich changes', 'tracebacks'],
}
LEVELS = {'ALL': 0, 'DEBUG': 10, 'SUBPROCESS': 12, 'VERBOSE': 15, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
FUNCS = {'debug': 10, 'subproc': 12, 'info': 20, 'warning': 30, 'error': 40}


def cases(tier):
    out = [dict(name='emit-' + f, fn='emit', params=dict(f=f)) for f in FUNCS]
    for f in FUNCS:
        for i in range(len(TEXTS) if tier != 'quick' else 4):
            out.append(dict(name='text-%s-%d' % (f, i), fn='text', params=dict(f=f, t=i)))
    out.append(dict(name='extra', fn='extra', params={}))
    out.append(dict(name='filter', fn='filters', params={}))
    out.append(dict(name='formatter', fn='formatter', params={}))
    out.append(dict(name='levels', fn='levels', params={}))
    return out


# ? stands for any character
TEXTS = ['??', 'a[??]?', '[?', '?[[?]b', '[?]?[/?]', '?\\[?]', '[[/??]]']


class Handler(logging.Handler):
    made = []

    def __init__(self, **k):
        super().__init__()
        self.kw = k
        self.got = []
        Handler.made.append(self)

    def emit(self, record):
        self.got.append((record, self.format(record)))


class Console:
    def __init__(self, *a, **k):
        pass

    def rule(self, *a, **k):
        pass


def markup(c):
    """rich.markup: the real one, loaded for symbolic texts if need be"""
    import rich.markup
    if not c.world.symbolic:
        return rich.markup
    name = 'rich.kpexv_markup'
    if name not in sys.modules:
        import importlib.util
        from symx import instrument
        path = rich.markup.__file__
        spec = importlib.util.spec_from_file_location(name, path, loader=instrument.Loader(c.world.w, path, name))
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
    return sys.modules[name]


def setup(c):
    logging.disable(logging.NOTSET)
    M = c.mod('klayout_pex.log.logger')
    M.rich = types.SimpleNamespace(console=types.SimpleNamespace(Console=Console), logging=types.SimpleNamespace(RichHandler=Handler), markup=markup(c))
    del Handler.made[:]
    M.configure_logger()
    return M, list(Handler.made)


def shown(hs):
    return [(h, r, t) for h in hs for r, t in h.got]


def plain(c, m, h):
    """what a handler displays of a formatted message"""
    if not h.kw.get('markup'):
        return m
    out = ''
    for _, text, tag in markup(c)._parse(c.text(m)):
        if text is not None:
            out = out + text.replace('\\[', '[')
    return out


def emit(c, p):
    M, hs = setup(c)
    if c.flag('again'):
        del Handler.made[:]
        M.configure_logger()
        hs += Handler.made
    n = c.choice('level', list(LEVELS) + ['unset'])
    if n != 'unset':
        M.set_log_level(M.LogLevel[n])
        c.check(M.get_log_level() == LEVELS[n], 'the level that was set')
    lim = LEVELS[n] if n != 'unset' else 12
    x = c.str('m', 2, 97, 122)
    if p['f'] != 'subproc' and c.flag('args'):
        getattr(M, p['f'])('%d of %s', 3, x)
        x = '3 of ' + x
    else:
        getattr(M, p['f'])(x)
    out = shown(hs)
    lv = FUNCS[p['f']]
    c.check(len(out) == (1 if lv >= lim else 0), 'a message is shown once if its level is reached, else not at all')
    for h, r, t in out:
        c.check(r.levelno == lv, 'level of the message')
        c.check(c.eq(plain(c, t, h), x), 'the whole message is shown')
        if p['f'] == 'subproc':
            c.check(h.kw.get('show_level') is False, 'output of other programs is shown as it is')


def text(c, p):
    M, hs = setup(c)
    M.set_log_level(M.LogLevel.DEBUG)
    x = ''
    for i, ch in enumerate(TEXTS[p['t']]):
        x = x + (c.str('c%d' % i, 1, 32, 126, exclude='\\:%') if ch == '?' else ch)
    getattr(M, p['f'])(x)
    out = shown(hs)
    c.check(len(out) == 1, 'the message is shown once')
    h, r, t = out[0]
    c.check(c.eq(plain(c, t, h), x), 'the whole message is shown')


def extra(c, p):
    M, hs = setup(c)
    add = [logging.Handler() for _ in range(2)]
    got = [[], []]
    for h, g in zip(add, got):
        h.emit = g.append
    on = [0, 0]
    want = [0, 0]
    for s in range(3):
        k = c.choice('op%d' % s, ['+0', '+1', '-0', '-1'])
        i = int(k[1])
        if k[0] == '+':
            M.register_additional_handler(add[i])
            on[i] = 1
        elif on[i]:
            M.deregister_additional_handler(add[i])
            on[i] = 0
        f = ('info', 'subproc', 'warning')[s]
        getattr(M, f)('message')
        want = [w + o for w, o in zip(want, on)]
        c.check([len(g) for g in got] == want, 'additional handlers get the messages while they are registered')
    c.check(len(shown(hs)) == 3, 'the console shows the messages all the same')


def record(name, level, msg='x'):
    r = logging.LogRecord('x', 0, 'x.py', 1, msg, (), None)
    r.levelname, r.levelno = name, level
    return r


def filters(c, p):
    M, hs = setup(c)
    names = [c.str('n%d' % i, 1 + i, 65, 67) for i in range(2)][:c.choice('k', [0, 1, 2])]
    x = c.str('x', c.choice('len', [1, 2]), 65, 67)
    listed = any(bool(c.eq(x, n)) for n in names)
    r = record(x, 20)
    a, b = M.LogLevelFilter(names).filter(r), M.LogLevelFilter(names, invert=True).filter(r)
    c.check(bool(a) == listed and bool(b) == (not listed), 'a filter and its inverse split the messages by level')


def formatter(c, p):
    M, hs = setup(c)
    lv = c.int('level', 0, 60)
    x = c.str('m', 2, 97, 122)
    t = M.LogLevelFormatter('%(message)s').format(record('?', lv, x))
    n = len(c.text(t))
    c.check(bool(c.eq(c.text(t)[n - 2:], x)), 'the formatted message ends with the text')
    c.check((n > 2) == bool(c.any([lv == 30, lv == 40])), 'warnings and errors are coloured, other messages are not')


def levels(c, p):
    M, hs = setup(c)
    c.check({e.name: e.value for e in M.LogLevel} == LEVELS and M.LogLevel['DEFAULT'] == LEVELS['SUBPROCESS'], 'levels')
    for n, v in LEVELS.items():
        c.check(logging.getLevelName(v) == n, 'the name of a level')
