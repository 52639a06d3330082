#!/usr/bin/env python3
"""refactor.py ROOT [NAMES]: rewrite the sources of a copy of /repo without changing what they do (other spellings of conditions,
loops, comprehensions, texts, assignments), to test that the checks stay quiet and lose nothing."""
import ast
import glob
import sys

ROOT = sys.argv[1]
WHICH = set(sys.argv[2].split(',')) if len(sys.argv) > 2 else None
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
n = 0


def name():
    global n
    n += 1
    return 'v_%d' % n


def load(x):
    return ast.Name(x, ast.Load())


def store(x):
    return ast.Name(x, ast.Store())


def has(node, *t):
    return any(isinstance(x, t) for x in ast.walk(node))


class Base(ast.NodeTransformer):
    infn = 0

    def visit_FunctionDef(self, node):
        self.infn += 1
        node.body = self.block(node.body)
        self.infn -= 1
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r] if r is not None else []
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and not isinstance(node, (ast.Lambda, ast.IfExp)):
                setattr(node, f, self.block(v))
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                continue
            if isinstance(v, list):
                v[:] = [self.visit(x) if isinstance(x, ast.AST) else x for x in v]
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node


class Cond(Base):
    """conditions into variables; branches swapped"""
    def visit_If(self, node):
        self.generic_visit(node)
        if not self.infn or has(node.test, ast.NamedExpr):
            return node
        v = name()
        pre = ast.Assign([store(v)], node.test)
        node.test = load(v)
        if node.orelse:
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return [pre, node]


class ElifSafe(Base):
    pass


class Cmp(Base):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP:
            return ast.Compare(node.comparators[0], [FLIP[type(node.ops[0])]()], [node.left])
        if len(node.ops) == 1 and type(node.ops[0]) in NEG:
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [NEG[type(node.ops[0])]()], node.comparators))
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node


class Comp(Base):
    """list comprehensions into loops (only as the whole value of an assignment or return)"""
    def conv(self, v):
        if not isinstance(v, ast.ListComp) or any(g.is_async for g in v.generators):
            return None, v
        r = name()
        body = [ast.Expr(ast.Call(ast.Attribute(load(r), 'append', ast.Load()), [v.elt], []))]
        for g in reversed(v.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([store(r)], ast.List([], ast.Load()))] + body, load(r)

    def visit_Assign(self, node):
        if self.infn and not isinstance(node.targets[0], ast.Attribute):
            pre, node.value = self.conv(node.value)
            if pre:
                return pre + [node]
        return node

    def visit_Return(self, node):
        if self.infn and node.value is not None:
            pre, node.value = self.conv(node.value)
            if pre:
                return pre + [node]
        return node


class GenList(Base):
    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        return ast.ListComp(node.elt, node.generators)


class While(Base):
    """for into while with an iterator"""
    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infn or node.orelse or has(node, ast.Yield):
            return node
        it, end, x = name(), name(), name()
        return [ast.Assign([store(it)], ast.Call(load('iter'), [node.iter], [])),
                ast.Assign([store(end)], ast.Call(load('object'), [], [])),
                ast.While(ast.Constant(True),
                          [ast.Assign([store(x)], ast.Call(load('next'), [load(it), load(end)], [])),
                           ast.If(ast.Compare(load(x), [ast.Is()], [load(end)]), [ast.Break()], []),
                           ast.Assign([node.target], load(x))] + node.body, [])]


class Enum(Base):
    """for x in y -> for _, x in enumerate(list(y))"""
    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infn:
            return node
        node.target = ast.Tuple([store(name()), node.target], ast.Store())
        node.iter = ast.Call(load('enumerate'), [ast.Call(load('list'), [node.iter], [])], [])
        return node


class Fmt(Base):
    """f-strings into format calls"""
    def visit_JoinedStr(self, node):
        t, args = '', []
        for v in node.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None and not (len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant)):
                    return node
                t += '{' + ('!' + chr(v.conversion) if v.conversion != -1 else '') + (':' + v.format_spec.values[0].value if v.format_spec else '') + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(t), 'format', ast.Load()), args, [])


class Cat(Base):
    """simple f-strings into concatenations"""
    def visit_JoinedStr(self, node):
        r = None
        for v in node.values:
            if isinstance(v, ast.Constant):
                e = v
            elif v.format_spec is None and v.conversion == -1:
                e = ast.Call(load('str'), [v.value], [])
            else:
                return node
            r = e if r is None else ast.BinOp(r, ast.Add(), e)
        return r if r is not None else ast.Constant('')


class Pct(Base):
    def visit_JoinedStr(self, node):
        t, args = '', []
        for v in node.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace('%', '%%')
            elif v.format_spec is None and v.conversion == -1:
                t += '%s'
                args.append(v.value)
            else:
                return node
        return ast.BinOp(ast.Constant(t), ast.Mod(), ast.Tuple(args, ast.Load())) if args else ast.Constant(t)


class Aug(Base):
    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and type(node.op) in (ast.Add, ast.Sub, ast.Mult) and not isinstance(node.value, (ast.List, ast.Name)):
            return ast.Assign([node.target], ast.BinOp(load(node.target.id), node.op, node.value))
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Match(Base):
    def visit_Match(self, node):
        self.generic_visit(node)
        v = name()
        out = []
        for c in node.cases:
            def t(p):
                if isinstance(p, ast.MatchValue):
                    return ast.Compare(load(v), [ast.Eq()], [p.value])
                if isinstance(p, ast.MatchSingleton):
                    return ast.Compare(load(v), [ast.Is()], [ast.Constant(p.value)])
                if isinstance(p, ast.MatchOr):
                    x = [t(q) for q in p.patterns]
                    return None if None in x else ast.BoolOp(ast.Or(), x)
                if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                    return ast.Constant(True)
            e = t(c.pattern)
            if e is None or c.guard is not None:
                return node
            out.append((e, c.body))
        r = []
        for e, b in reversed(out):
            r = [ast.If(e, b, r)]
        return [ast.Assign([store(v)], node.subject)] + r


class Split(Base):
    """nested calls: arguments into variables first (left to right)"""
    def visit_Assign(self, node):
        if self.infn and isinstance(node.value, ast.Call) and isinstance(node.value.func, (ast.Name, ast.Attribute)) and not has(node.value, ast.Lambda, ast.Starred) \
                and not any(k.arg is None for k in node.value.keywords):
            c, pre = node.value, []
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call):
                return node
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp)):
                    v = name()
                    pre.append(ast.Assign([store(v)], a))
                    c.args[i] = load(v)
            for k in c.keywords:
                if isinstance(k.value, (ast.Call, ast.BinOp)):
                    v = name()
                    pre.append(ast.Assign([store(v)], k.value))
                    k.value = load(v)
            return pre + [node]
        return node


class Kw(Base):
    """d.get(k, None) -> (d[k] if k in d else None)"""
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'get' and len(node.args) == 2 and isinstance(node.args[1], ast.Constant) and node.args[1].value is None \
                and isinstance(node.func.value, (ast.Name, ast.Attribute)) and isinstance(node.args[0], ast.Name):
            return ast.Call(ast.Attribute(node.func.value, 'get', ast.Load()), [node.args[0]], [])
        return node


class Helper(Base):
    """bodies of for loops without control flow into local functions"""
    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infn or node.orelse or has(node, ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Nonlocal, ast.YieldFrom):
            return node
        st = {x.id for s in node.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if st or not isinstance(node.target, ast.Name) and not has(node.target, ast.Name):
            return node
        f = name()
        params = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        fn = ast.FunctionDef(f, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), node.body, [], None, None)
        fn.type_params = []
        node.body = [ast.Expr(ast.Call(load(f), [load(p) for p in params], []))]
        return [fn, node]


ALL = [Match, Comp, GenList, Cmp, Aug, Kw, Helper]
SETS = {'a': [Match, Cmp, Aug, Comp, Fmt, Split, Kw], 'b': [While, Cat, GenList, Kw, Split], 'c': [Enum, Helper, Pct, Match], 'd': [Cond, Comp, Helper]}


def elifs(tree):
    return tree


def main():
    todo = SETS[sys.argv[2]] if len(sys.argv) > 2 else SETS['a']
    files = glob.glob(ROOT + '/klayout_pex/**/*.py', recursive=True) + [ROOT + '/convert_layout_pdk.py']
    for f in files:
        src = open(f).read()
        tree = ast.parse(src)
        for t in todo:
            t = t()
            tree.body = t.block(tree.body)
            ast.fix_missing_locations(tree)
        open(f, 'w').write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
