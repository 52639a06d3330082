"""Command line validation: every impossible request is rejected before anything runs, every possible one is resolved to the right cell and files."""
import fnmatch
import types
import shutil
from vos import VOS

META = {
    'bounds': ['layouts of up to 3 cells with names from a pool that includes case variants, wildcards and dots, one or two top cells', 'every combination of engines, inputs, missing files, log levels and patterns (varied in groups)'],
    'outside': ['the argument parser itself', 'unreadable file contents'],
}
POOL = ['a', 'b', 'ab', 'a*', 'a.b', '[ab]']
GROUPS = {
    'engines': ['engines', 'inputs'],
    'files': ['files'],
    'cells': ['cells'],
    'misc': ['misc'],
    'inputs': ['inputs', 'exist'],
    'all-bad': ['files', 'misc', 'exist'],
}


def cases(tier):
    out = [dict(name=n, fn='validate', params=dict(vary=v)) for n, v in GROUPS.items() if n != 'cells']
    for k in ('one-top', 'two-tops', 'chain'):
        for req in ('none', 'name'):
            out.append(dict(name='cells-%s-%s' % (k, req), fn='validate', params=dict(vary=['cells'], kind=k, req=req)))
    return out


class Cell:
    def __init__(self, v, name):
        self.v, self.name = v, name

    def write(self, path, *a):
        self.v.put(path, ('cell', self.name))


class Layout:
    v = tops = cells_ = None

    def __init__(self):
        self.content = None

    def read(self, path, *a):
        self.content = self.v.get(path)[0]

    def top_cells(self):
        return list(self.tops)

    def top_cell(self):
        if len(self.tops) > 1:
            raise RuntimeError('The layout has multiple top cells')
        return self.tops[0] if self.tops else None

    def cells(self, pattern=None):
        if pattern is None:
            return len(self.cells_)
        return [x for x in self.cells_ if pattern == '*' or not isinstance(x.name, str) and bool(x.name == pattern) or isinstance(x.name, str) and fnmatch.fnmatchcase(x.name, pattern)]

    def each_cell(self):
        return iter(self.cells_)

    def cell(self, name):
        for x in self.cells_:
            if bool(x.name == name):
                return x
        return None

    def has_cell(self, name):
        return self.cell(name) is not None


def logger(msg, *args, **k):
    """messages are formatted like the real logger does"""
    if args:
        msg % args


def validate(c, p):
    M = c.mod('klayout_pex.kpex_cli')
    v = VOS(c)
    vary = p['vary']
    for n in ('error', 'info', 'warning', 'subproc'):
        setattr(M, n, logger)
    M.open = v.open
    M.rich = types.SimpleNamespace(print=lambda *a, **k: None, markdown=types.SimpleNamespace(Markdown=lambda *a, **k: None))
    bad = []

    def pick(group, name, options):
        return c.choice(name, options) if group in vary else options[0]
    for d in ('/vfs/pdk', '/vfs/bin', '/vfs/d'):
        v.mkdirs(d)
    # files of the installation
    exe = pick('files', 'exe', ['/vfs/bin/klayout', 'klayout', '/vfs/bin/none'])
    if exe == '/vfs/bin/klayout':
        v.put(exe, 'exe')
    which = {'klayout': '/usr/bin/klayout'} if exe == 'klayout' and not c.flag('unknown') else {}
    if exe == '/vfs/bin/none' or exe == 'klayout' and not which:
        bad.append('klayout')
    for n in ('tech', 'lvs'):
        if pick('files', n, [True, False]):
            v.put('/vfs/pdk/' + n, n)
        else:
            bad.append(n)
    cfg = types.SimpleNamespace(name='pdk', tech_pb_json_path='/vfs/pdk/tech', pex_lvs_script_path='/vfs/pdk/lvs')
    # engines
    eng = {n: pick('engines', n, [False, True]) if n != 'run_2_5D' else pick('engines', n, [True, False]) for n in ('run_magic', 'run_fastcap', 'run_fastercap', 'run_2_5D')}
    if not any(eng.values()):
        bad.append('no engine')
    # inputs
    gds = pick('inputs', 'gds', ['/vfs/d/x.gds', None])
    if gds and 'inputs' in vary:
        gds = c.choice('gds_name', ['/vfs/d/x.gds', '/vfs/d/x.gds.gz'])
    lvsdb = pick('inputs', 'lvsdb', [None, '/vfs/d/y.lvsdb.gz'])
    if gds is None and lvsdb is None:
        bad.append('no input')
    if gds is None and eng['run_magic']:
        bad.append('magic needs a layout')
    if gds:
        if pick('exist', 'has_gds', [True, False]):
            v.put(gds, 'layout')
        else:
            bad.append('gds')
    if lvsdb:
        if pick('exist', 'has_lvsdb', [True, False]):
            v.put(lvsdb, 'database')
        elif gds is None:
            bad.append('lvsdb')
    # cells
    kind = p.get('kind', 'one-top')
    if 'cells' in vary:
        names = []
        for i in range(3 if kind == 'chain' else 2):
            names.append(c.choice('cell%d' % i, [n for n in POOL if n not in names]))
    else:
        names = ['top']
    cells = [Cell(v, n) for n in names]
    tops = cells[:2] if kind == 'two-tops' else cells[:1]
    req = c.choice('request', POOL + ['zz', 'A']) if p.get('req') == 'name' else pick('inputs', 'cell', [None, 'top'])
    exported = False
    if gds and 'gds' not in bad:
        if req is None:
            if len(tops) > 1:
                bad.append('ambiguous')
            cell = tops[0].name
        else:
            if not any(bool(c.eq(x.name, req)) for x in cells):
                bad.append('no such cell')
            cell = req
            exported = not (len(tops) == 1 and bool(c.eq(tops[0].name, req)))
    elif not gds and lvsdb and 'lvsdb' not in bad:
        cell = 'dbtop'
    else:
        cell = None
    Layout.v, Layout.tops, Layout.cells_ = v, tops, cells

    class DB:
        def __init__(self):
            self.content = None

        def read(self, path, *a):
            self.content = v.get(path)[0]

        def internal_top_cell(self):
            assert self.content == 'database'
            return Cell(v, 'dbtop')
    M.kdb = types.SimpleNamespace(Layout=Layout, LayoutVsSchematic=DB, Cell=Cell)
    sch = pick('misc', 'sch', [None, '/vfs/d/s.spice', '/vfs/d/none.spice'])
    v.put('/vfs/d/s.spice', 'schematic')
    if sch == '/vfs/d/none.spice' and gds and cell is not None:
        bad.append('schematic')
    level = pick('misc', 'level', ['subprocess', 'INFO', 'Debug', 'nonsense'])
    if level == 'nonsense':
        bad.append('level')
    diel = pick('misc', 'diel', ['all', 'none,+x', 'all,none', 'none,-x'])
    if diel in ('all,none', 'none,-x'):
        bad.append('pattern')
    cache = pick('misc', 'cache', [None, '/vfs/c'])
    args = types.SimpleNamespace(
        pdk=types.SimpleNamespace(config=cfg), klayout_exe_path=exe, gds_path=gds, lvsdb_path=lvsdb, cell_name=req, schematic_path=sch, log_level=level,
        dielectric_filter=diel, cache_dir_path=cache, output_dir_base_path='/vfs/out', **eng)
    saved = shutil.which
    shutil.which = lambda n, *a, **k: which.get(n)
    try:
        with v.installed():
            try:
                M.KpexCLI.validate_args(args)
                ok = True
            except M.ArgumentValidationError:
                ok = False
    finally:
        shutil.which = saved
    c.check(ok == (not bad), 'rejected exactly if impossible: ' + ', '.join(sorted(bad)))
    if not ok:
        return
    c.check(args.tech_pbjson_path == '/vfs/pdk/tech' and args.lvs_script_path == '/vfs/pdk/lvs', 'files of the PDK')
    c.check(args.input_mode == (M.InputMode.GDS if gds else M.InputMode.LVSDB), 'a given layout takes precedence')
    c.check(bool(c.eq(args.effective_cell_name, cell)), 'the requested cell, or the only top cell')
    stem = 'x' if gds else 'y'
    out = '/vfs/out/' + stem + '__' + cell
    c.check(bool(c.eq(args.output_dir_path, out)) and any(bool(c.eq(d, out)) for d in v.dirs), 'an output directory per input and cell')
    if gds:
        content = find(c, v, args.effective_gds_path)
        if exported:
            c.check(isinstance(content, tuple) and content[0] == 'cell' and bool(c.eq(content[1], cell)), 'another cell is exported on its own')
            c.check(c.not_(c.eq(args.effective_gds_path, gds)), 'the layout is left alone')
        else:
            c.check(content == 'layout', 'the layout is used as it is')
        c.check(v.get(gds)[0] == 'layout', 'the layout is left alone')
        if sch:
            c.check(args.effective_schematic_path == sch, 'the given schematic')
        else:
            t = find(c, v, args.effective_schematic_path)
            first = t.split('\n')[0].split(' ')
            c.check(first[0] == '.subckt' and bool(c.eq(first[1], cell)) and '.ends' in [str(x) for x in t.split('\n')[1:]], 'a dummy schematic of the cell')
    c.check(args.log_level.name == level.upper(), 'log level')
    c.check(args.dielectric_filter.filter(['x', 'y']) == (['x', 'y'] if diel == 'all' else ['x']), 'dielectric filter')
    c.check(args.cache_dir_path == (cache or '/vfs/out/.kpex_cache'), 'cache directory')


def find(c, v, path):
    for q, (content, t) in v.files.items():
        if bool(c.eq(q, path)):
            return content
    c.check(False, 'the file exists')
