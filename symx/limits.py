"""Tells limits of the stand-ins apart from failures of the code under test.

A harness replaces the surroundings of the code under test with small classes of its own and calls
the code through names it knows.  When the code uses a stand-in in a way the stand-in does not offer,
or a name the harness relies on has gone, nothing was decided: that is no violation."""
import os
import re
import sys
import types

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness') + os.sep
BIND = re.compile(r"^([\w.<>]+)\(\) (?:missing \d|takes |got an unexpected|got multiple|got some positional)")
_names = {}


def _quals(code, out):
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            out.add(k.co_qualname)
            out.add(k.co_qualname.rpartition('.')[2] if k.co_qualname.endswith('__') else k.co_qualname)
            _quals(k, out)


def harness_functions():
    if not _names:
        out = set()
        for m in list(sys.modules.values()):
            f = getattr(m, '__file__', None)
            if f and f.startswith(HARNESS) and f.endswith('.py') and f not in _names:
                with open(f) as fh:
                    _quals(compile(fh.read(), f, 'exec'), out)
        for n in list(out):          # classes without a constructor of their own
            if '.' in n:
                out.add(n.rpartition('.')[0])
                out.add(n.rpartition('.')[0] + '.__init__')
        _names['all'] = out
    return _names['all']


def _last_file(ex):
    tb = ex.__traceback__
    f = ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return f


def _of_harness(t):
    m = sys.modules.get(getattr(t, '__module__', None) or '')
    f = getattr(m, '__file__', None) or ''
    return f.startswith(HARNESS) or t is types.SimpleNamespace


def stub_limit(ex):
    """-> a reason, or None when the exception is the code's own"""
    if isinstance(ex, AttributeError) and ex.name is not None:
        obj = ex.obj
        t = obj if isinstance(obj, type) else type(obj)
        if _of_harness(t) or isinstance(obj, types.FunctionType) and _of_harness(obj):
            return 'a stand-in has no %s' % ex.name
        if _last_file(ex).startswith(HARNESS) and (
                isinstance(obj, types.ModuleType) or (getattr(t, '__module__', '') or '').startswith('klayout_pex')):
            return 'the harness relies on %s' % ex.name
    if isinstance(ex, OSError) and isinstance(ex.filename, (str, os.PathLike)) and os.fspath(ex.filename).startswith('/vfs') and not _last_file(ex).startswith(HARNESS):
        return 'the file system of the harness is bypassed'
    if isinstance(ex, TypeError):
        m = BIND.match(str(ex.args[0]) if ex.args else '')
        if m:
            if m.group(1) in harness_functions():
                return 'a stand-in is called differently: %s' % m.group(1)
            if _last_file(ex).startswith(HARNESS):
                return 'the harness calls %s' % m.group(1)
        elif ex.args and isinstance(ex.args[0], str) and re.match(
                r"^(?:'(\w+)' object is not (?:subscriptable|iterable|callable)|'(\w+)' object does not support|object of type '(\w+)' has no len)", ex.args[0]):
            n = re.search(r"'(\w+)'", ex.args[0]).group(1)
            if n in {q.rpartition('.')[2] for q in harness_functions()}:
                return 'a stand-in is used differently: %s' % n
    return None


def own(ex):
    """the code under test failed by itself; re-raises everything else"""
    if type(ex).__name__ in ('CheckFailed', 'Reject') or type(ex).__module__.startswith('symx') or stub_limit(ex):
        raise ex
