"""Loads /repo's Python modules for symbolic execution.

The modules are read from the current source, their AST is rewritten so that the
operations Python would perform natively on str/dict/set (f-strings, %-formatting,
'in', displays, calls of str methods, int()/float()/str()) are dispatched to the
engine, and they are executed with a builtins namespace aware of symbolic values.
The control flow and data flow of the code are left exactly as written."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types
import z3
from . import engine as E
from . import values as V
from . import strings as S
from .containers import SymDict, SymDefaultDict, SymSet, FrozenSymSet, any_symkey

STR_METHODS = {'join', 'startswith', 'endswith', 'replace', 'split', 'rsplit', 'find', 'rfind',
               'index', 'count', 'removeprefix', 'removesuffix', 'format', 'strip', 'lstrip',
               'rstrip', 'partition', 'rpartition', 'splitlines', 'lower', 'upper', 'casefold'}
NATIVE_BASES = {'int', 'float', 'str', 'dict', 'set', 'frozenset', 'bool'}


class Rewriter(ast.NodeTransformer):
    def _sx(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                     args=args, keywords=[]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(self._fv(v))
        return self._sx('fstr', parts, node)

    def _fv(self, v):
        val = self.visit(v.value)
        spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
        return self._sx('fv', [val, ast.Constant(value=v.conversion), spec], v)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._sx('mod', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = 'in_' if isinstance(node.ops[0], ast.In) else 'not_in'
            return self._sx(n, [node.left, node.comparators[0]], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple(elts=[k if k is not None else ast.Attribute(
                value=ast.Name(id='__sx__', ctx=ast.Load()), attr='STARSTAR', ctx=ast.Load()), v], ctx=ast.Load()))
        return self._sx('mkdict', [ast.List(elts=items, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self._sx('mkdict', [lc], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._sx('mkset', [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._sx('mkset', [ast.ListComp(elt=node.elt, generators=node.generators)], node)

    def visit_ClassDef(self, node):
        node = self.generic_visit(node)
        for i, b in enumerate(node.bases):
            if isinstance(b, ast.Name) and b.id in NATIVE_BASES:
                node.bases[i] = self._sx('native', [ast.Constant(value=b.id)], b)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = self._body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            new = ast.Call(
                func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr='callm', ctx=ast.Load()),
                args=[f.value, ast.Constant(value=f.attr)] + node.args, keywords=node.keywords)
            return ast.copy_location(new, node)
        return node

    # patterns must stay native
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = self._body(node.body)
        return node


# ---------------------------------------------------------------------------
class Sx:
    """runtime helpers called by rewritten code"""
    STARSTAR = object()

    @staticmethod
    def native(name):
        return getattr(builtins, name)

    @staticmethod
    def fv(v, conv, spec):
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = S.to_text(v)
        return S.to_fmt(v, spec)

    @staticmethod
    def fstr(*parts):
        items = []
        for p in parts:
            items += S.items_of(p)
        return S.mk(items)

    @staticmethod
    def mod(a, b):
        if type(a) is str:
            if V.any_sym(b):
                return S.percent(a, b)
            return S.decode(a % b)
        return a % b

    @staticmethod
    def in_(a, b):
        if type(b) is str and isinstance(a, S.SymStr):
            return S.SymStr(list(b)).__contains__(a)
        if isinstance(b, (builtins.dict, builtins.set, builtins.frozenset)) and \
                not isinstance(b, (SymDict, SymSet, FrozenSymSet)):
            if any_symkey(a):
                for k in b:
                    if a == k:
                        return True
                return False
        return a in b

    @staticmethod
    def not_in(a, b):
        return not Sx.in_(a, b)

    @staticmethod
    def mkdict(pairs):
        d = SymDict()
        for k, v in pairs:
            if k is Sx.STARSTAR:
                for k2, v2 in v.items():
                    d[k2] = v2
            else:
                d[k] = v
        return d

    @staticmethod
    def mkset(xs):
        return SymSet(xs)

    @staticmethod
    def callm(obj, name, *args, **kw):
        if type(obj) is str:
            if name == 'join' and len(args) == 1:
                xs = list(args[0])
                if any(isinstance(x, S.SymStr) for x in xs):
                    return S.sjoin(obj, xs)
                return S.decode(obj.join(xs))
            if name == 'format':
                if V.any_sym(list(args)) or V.any_sym(list(kw.values())):
                    return sx_format(obj, args, kw)
                return S.decode(obj.format(*args, **kw))
            if any(isinstance(a, S.SymStr) or (isinstance(a, tuple) and V.any_sym(a)) for a in args):
                return getattr(S.SymStr(list(obj)), name)(*args, **kw)
        return getattr(obj, name)(*args, **kw)


def sx_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += list(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise V.Unsupported('format field %r' % field)
        out += S.items_of(Sx.fv(v, {'r': 114, 's': 115}.get(conv, -1), spec or ''))
    return S.mk(out)


# ---- builtins --------------------------------------------------------------
class _TypeProxy(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._accept)

    def __subclasscheck__(cls, o):
        return o is cls or (isinstance(o, type) and issubclass(o, cls._native))

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, name):
        n = getattr(cls._native, name)
        if cls._native is builtins.str and callable(n) and name != 'maketrans':
            return lambda s, *a, **k: getattr(s, name)(*a, **k)
        return n

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __hash__(cls):
        return hash(cls._native)

    def __or__(cls, o):
        return cls._native | o

    def __ror__(cls, o):
        return o | cls._native

    def __repr__(cls):
        return repr(cls._native)


def _conv_int(x=0, *a, **k):
    if isinstance(x, (V.SymInt, V.SymReal)):
        return V.trunc(x)
    if isinstance(x, V.SymBool):
        return V._num(x)
    if isinstance(x, S.SymStr):
        if a or k:
            raise V.Unsupported('int with a base on symbolic text')
        return S.parse_int(x)
    r = builtins.int(x, *a, **k)
    return r


def _conv_float(x=0.0, /):
    if isinstance(x, (V.SymInt, V.SymReal, V.SymBool)):
        return V.SymReal(V.real_term(x))
    x = S.decode(x)
    if isinstance(x, S.SymStr):
        return S.parse_float(x)
    return builtins.float(x)


def _conv_str(x='', *a):
    if a:
        return builtins.str(x, *a)
    return S.to_text(x)


class SxInt(metaclass=_TypeProxy):
    _native, _accept, _conv = builtins.int, (builtins.int, V.SymInt, V.SymBool), staticmethod(_conv_int)


class SxFloat(metaclass=_TypeProxy):
    _native, _accept, _conv = builtins.float, (builtins.float, V.SymReal), staticmethod(_conv_float)


class SxStr(metaclass=_TypeProxy):
    _native, _accept, _conv = builtins.str, (builtins.str, S.SymStr), staticmethod(_conv_str)


class SxBool(metaclass=_TypeProxy):
    _native, _accept = builtins.bool, (builtins.bool, V.SymBool)
    _conv = staticmethod(lambda x=False: x if isinstance(x, V.SymBool) else builtins.bool(x))


def sx_repr(x):
    if isinstance(x, S.SymStr):
        return S.mk(["'"] + x.items + ["'"])
    if V.is_sym(x):
        return S.to_text(x)
    return S.decode(builtins.repr(x))


def sx_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def sx_min(*a, **k):
    return _minmax(a, k, builtins.min, True)


def sx_len(x):
    if isinstance(x, S.SymStr) and any(isinstance(i, S.NumTok) for i in x.items):
        if getattr(x, '_len', None) is None:
            n = V.fresh_int('len')
            k = builtins.sum(isinstance(i, S.NumTok) for i in x.items)
            lo = builtins.len(x.items)
            E.current().add(z3.And(n >= lo, n <= lo + 39 * k))
            x._len = V.SymInt(n)
        return x._len
    return builtins.len(x)


def sx_max(*a, **k):
    return _minmax(a, k, builtins.max, False)


def _minmax(a, k, nat, is_min):
    if not k and all(isinstance(x, (builtins.int, builtins.float, V.SymNum)) for x in a) and len(a) > 1 \
            and V.any_sym(a):
        r = a[0]
        for x in a[1:]:
            c = (x < r) if is_min else (x > r)
            if isinstance(c, bool):
                r = x if c else r
            elif isinstance(r, builtins.float) and r in (float('inf'), float('-inf')) or \
                    isinstance(x, builtins.float) and x in (float('inf'), float('-inf')):
                r = x if builtins.bool(c) else r
            else:
                r = V.ite(c, x, r)
        return r
    return nat(*a, **k)


def sx_abs(x):
    return abs(x)


def sx_format_builtin(x, spec=''):
    return S.to_fmt(x, spec)


def sx_ord(c):
    if isinstance(c, S.SymStr):
        i = c.items
        if len(i) == 1 and isinstance(i[0], S.SymChar):
            return V.SymInt(i[0].t)
        raise V.Unsupported('ord')
    return builtins.ord(c)


def sx_chr(c):
    if isinstance(c, V.SymInt):
        return S.SymStr([S.SymChar(c.t)])
    return builtins.chr(c)


def sx_range(*a):
    return builtins.range(*[V.realise_int(x) if V.is_sym(x) else x for x in a])


def sx_hash(x):
    return builtins.hash(x)


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    """only what goes to a file matters"""
    if file is None or file is sys.stdout or file is sys.stderr:
        return
    sep, end = [d if x is None else x for x, d in ((sep, ' '), (end, '\n'))]
    file.write(S.sjoin('', [S.sjoin(sep, [S.to_text(x) for x in a]), end]))


def sx_type(*a):
    if len(a) == 1 and V.is_sym(a[0]):
        x = a[0]
        return {V.SymInt: SxInt, V.SymReal: SxFloat, V.SymBool: SxBool, S.SymStr: SxStr}[builtins.type(x)]
    return builtins.type(*a)


class World:
    """what the code under test sees of its environment"""

    def __init__(self):
        self.modules = {}      # import name -> replacement
        self.builtins = {}     # extra builtins

    def install(self, repo='/repo', packages=('klayout_pex', 'convert_layout_pdk', 'lvs_layer_names')):
        self.repo = repo
        self.packages = packages
        sys.meta_path.insert(0, Finder(self))
        return self


_real_import = builtins.__import__


def make_builtins(world):
    b = dict(builtins.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = _real_import(name, globals, locals, fromlist, level)
        if level == 0:
            top = name.split('.')[0]
            if fromlist:
                r = world.modules.get(name)
                if r is not None:
                    return r
            else:
                r = world.modules.get(top)
                if r is not None:
                    return r
        return m

    b.update(
        __import__=imp, int=SxInt, float=SxFloat, str=SxStr, bool=SxBool, repr=sx_repr, sum=sx_sum, min=sx_min,
        max=sx_max, len=sx_len, round=V.sx_round, format=sx_format_builtin, ord=sx_ord, chr=sx_chr, dict=DictProxy,
        set=SetProxy, frozenset=FrozenProxy, range=RangeProxy, type=TypeCallProxy, print=sx_print,
        __sx__=Sx)
    b.update(world.builtins)
    return b


class DictProxy(metaclass=_TypeProxy):
    _native, _accept = builtins.dict, (builtins.dict,)

    @staticmethod
    def _conv(*a, **k):
        d = SymDict()
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for key in src.keys():
                    d[key] = src[key]
            else:
                for key, v in src:
                    d[key] = v
        for key, v in k.items():
            d[key] = v
        return d

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = SymDict()
        for k in ks:
            d[k] = v
        return d


class SetProxy(metaclass=_TypeProxy):
    _native, _accept = builtins.set, (builtins.set, SymSet)
    _conv = staticmethod(lambda xs=(): SymSet(xs))


class FrozenProxy(metaclass=_TypeProxy):
    _native, _accept = builtins.frozenset, (builtins.frozenset, FrozenSymSet)
    _conv = staticmethod(lambda xs=(): FrozenSymSet(xs))


class RangeProxy(metaclass=_TypeProxy):
    _native, _accept, _conv = builtins.range, (builtins.range,), staticmethod(sx_range)


class _TypeCall(type):
    def __call__(cls, *a, **k):
        if cls is TypeCallProxy:
            return sx_type(*a, **k)
        return super().__call__(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.type)


class TypeCallProxy(metaclass=_TypeCall):
    pass


class Loader(importlib.abc.Loader):
    def __init__(self, world, path, name):
        self.world, self.path, self.name = world, path, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = make_builtins(self.world)
        module.__dict__['__file__'] = self.path
        loaded.append(module.__name__)
        exec(code, module.__dict__)


loaded = []


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, world):
        self.world = world

    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        if top not in self.world.packages:
            return None
        rel = os.path.join(self.world.repo, *fullname.split('.'))
        if os.path.isdir(rel):
            init = os.path.join(rel, '__init__.py')
            if not os.path.exists(init):
                return None
            return importlib.util.spec_from_loader(
                fullname, Loader(self.world, init, fullname), origin=init, is_package=True) \
                if not os.path.exists(init) else _pkg_spec(fullname, init, rel, self.world)
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, rel + '.py', loader=Loader(self.world, rel + '.py', fullname))
        return None


def _pkg_spec(fullname, init, rel, world):
    return importlib.util.spec_from_file_location(
        fullname, init, loader=Loader(world, init, fullname), submodule_search_locations=[rel])
