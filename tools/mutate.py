#!/usr/bin/env python3
"""mutate.py OUT PROP[,PROP...] FILE[:regex of qualified names] ... : plant every small change in the given functions of a copy of
/repo, one at a time, and list those that neither the repository's tests nor the checks notice (used to strengthen the checks)."""
import ast
import copy
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG = {'info', 'debug', 'warning', 'rule', 'subproc', 'print', 'error'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult}


def is_log(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and getattr(st.value.func, 'id', getattr(st.value.func, 'attr', '')) in LOG


def sites(tree, pat):
    """[(line, what, function that mutates the node in place)]"""
    out = []

    def visit(node, qual, parent_list=None):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                for i, st in enumerate(v):
                    stmt(node, f, i, st, qual)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        expr(x, qual)
            elif isinstance(v, ast.AST):
                expr(v, qual)

    def on(qual):
        return re.search(pat, qual) is not None

    def stmt(owner, field, i, st, qual):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            q = qual + '.' + st.name
            for j, s in enumerate(st.body):
                stmt(st, 'body', j, s, q)
            return
        if is_log(st) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if on(qual):
            if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)):
                add(st, 'drop ' + ast.unparse(st)[:60], lambda o=owner, f=field, i=i: getattr(o, f).__setitem__(i, ast.Pass()))
            if isinstance(st, ast.Return) and st.value is not None:
                add(st, 'return None', lambda s=st: setattr(s, 'value', ast.Constant(None)))
            if isinstance(st, (ast.If, ast.While)):
                add(st, 'cond true', lambda s=st: setattr(s, 'test', ast.Constant(True))) if isinstance(st, ast.If) else None
                add(st, 'cond false', lambda s=st: setattr(s, 'test', ast.Constant(False)))
            if isinstance(st, ast.AugAssign) and type(st.op) in BIN:
                add(st, 'augop', lambda s=st: setattr(s, 'op', BIN[type(s.op)]()))
        visit(st, qual)

    def add(n, what, fn):
        out.append((n.lineno, what, fn))

    def expr(e, qual):
        if isinstance(e, ast.JoinedStr):
            return
        if isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) in LOG:
            return
        if on(qual):
            if isinstance(e, ast.Compare) and type(e.ops[0]) in CMP:
                add(e, 'cmp ' + ast.unparse(e)[:60], lambda: e.ops.__setitem__(0, CMP[type(e.ops[0])]()))
            if isinstance(e, ast.BoolOp):
                add(e, 'bool ' + ast.unparse(e)[:60], lambda: setattr(e, 'op', ast.And() if isinstance(e.op, ast.Or) else ast.Or()))
            if isinstance(e, ast.BinOp) and type(e.op) in BIN:
                add(e, 'bin ' + ast.unparse(e)[:60], lambda: setattr(e, 'op', BIN[type(e.op)]()))
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.USub)):
                add(e, 'unary ' + ast.unparse(e)[:60], lambda: setattr(e, 'op', ast.UAdd()) if isinstance(e.op, ast.USub) else setattr(e, 'operand', ast.UnaryOp(ast.Not(), e.operand)))
            if isinstance(e, ast.Constant) and type(e.value) in (int, float):
                add(e, 'const %r' % e.value, lambda: setattr(e, 'value', e.value + 1 if isinstance(e.value, int) else e.value * 1.5 + (e.value == 0)))
            if isinstance(e, ast.Constant) and type(e.value) is bool:
                add(e, 'const %r' % e.value, lambda: setattr(e, 'value', not e.value))
            if isinstance(e, ast.Constant) and type(e.value) is str and e.value:
                add(e, 'str %r' % e.value[:40], lambda: setattr(e, 'value', e.value + 'X' if len(e.value) < 2 else e.value[:-1]))
            if isinstance(e, ast.IfExp):
                add(e, 'ifexp', lambda: e.__dict__.update(body=e.orelse, orelse=e.body))
            if isinstance(e, ast.Call) and len(e.args) == 2 and not e.keywords:
                add(e, 'swap ' + ast.unparse(e)[:60], lambda: e.args.reverse())
            if isinstance(e, ast.Call) and e.keywords and len(e.keywords) > 1:
                for k in range(len(e.keywords) - 1):
                    add(e, 'kwswap %s/%s' % (e.keywords[k].arg, e.keywords[k + 1].arg),
                        lambda k=k: (lambda a, b: (setattr(e.keywords[k], 'value', b), setattr(e.keywords[k + 1], 'value', a)))(e.keywords[k].value, e.keywords[k + 1].value))
        visit(e, qual)
    for i, st in enumerate(tree.body):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            stmt(tree, 'body', i, st, '')
    return out


def job(a):
    props, f, pat, k, what, line = a
    me = multiprocessing.current_process()._identity[0]
    root = '/tmp/mut/%d' % me
    if not os.path.isdir(root):
        os.makedirs('/tmp/mut', exist_ok=True)
        shutil.copytree('/repo', root, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(VERIF, root + '.v', ignore=shutil.ignore_patterns('.git', 'seeded', 'build', 'evidence'))
    src = open('/repo/' + f).read()
    tree = ast.parse(src)
    sites(tree, pat)[k][2]()
    try:
        new = ast.unparse(ast.fix_missing_locations(tree))
    except Exception as e:
        return a, 'unparse', ''
    open(root + '/' + f, 'w').write(new)
    try:
        for p in props:
            env = dict(os.environ, KPEX_VERIF_REPO=root, SYMX_FIRST='1', SYMX_NPROC='3', PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run(['python3', root + '.v/check.py', p], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return a, 'TIMEOUT ' + p, ''
            if r.returncode == 1:
                return a, 'caught ' + p, ''
            last = r.stdout[-600:] if r.returncode else ''
            if r.returncode:
                return a, 'rc%d %s' % (r.returncode, p), last
        t = subprocess.run('cd %s && HOME=/root LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x -m "not slow" tests >/dev/null 2>&1' % (root, root), shell=True)
        return a, 'SURVIVED' if t.returncode == 0 else 'tests', ''
    finally:
        open(root + '/' + f, 'w').write(src)


def main():
    out, props = sys.argv[1], sys.argv[2].split(',')
    jobs = []
    for a in sys.argv[3:]:
        f, _, pat = a.partition(':')
        tree = ast.parse(open('/repo/' + f).read())
        for k, (line, what, fn) in enumerate(sites(tree, pat)):
            jobs.append((props, f, pat, k, what, line))
    n = len(jobs)
    lim = int(os.environ.get('MUT_MAX', '0'))
    if lim and n > lim:
        jobs = [jobs[int(i * n / lim)] for i in range(lim)]
    print(n, 'mutants', len(jobs), 'run', flush=True)
    c = {}
    with multiprocessing.Pool(int(os.environ.get('MUT_PROC', '3'))) as pool, open(out, 'a') as o:
        for a, r, d in pool.imap_unordered(job, jobs):
            c[r.split()[0]] = c.get(r.split()[0], 0) + 1
            o.write('%-10s %s:%d  %s %s\n' % (r, a[1], a[5], a[4], d.replace('\n', ' | ')))
            o.flush()
    print(props, c, flush=True)


if __name__ == '__main__':
    main()
