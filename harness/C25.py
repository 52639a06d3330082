"""LVS cache: the database an extraction works on is the one of the current layout, cell and PDK, for every history of runs."""
import types
import os
from vos import VOS

META = {
    'bounds': ['histories of up to 3 (thorough 4) runs over 2 layouts (of one name, given by absolute path or relative to different working directories), 2 cells, 2 output directories, a shared cache, with and without caching',
               'every modification time: layouts may change before every run', 'LVS may fail without writing a database'],
    'outside': ['layouts changing while LVS reads them', 'layouts replaced by older files (modification time goes back)', 'two runs at the same time'],
}


def cases(tier):
    out = []
    for dim in ('layout', 'cell', 'outdir', 'pdk', 'cwd'):
        for fail in (False, True):
            if fail and dim == 'cwd' and tier == 'quick':
                continue
            out.append(dict(name='history-%s%s' % (dim, '-fail' if fail else ''), fn='history', params=dict(dim=dim, fail=fail, runs=3 if tier == 'quick' else 4)))
    out.append(dict(name='given-database', fn='given', params={}))
    out.append(dict(name='old-cache', fn='old', params={}))
    return out


class Files:
    """stands for klayout.db: a layout-versus-schematic database read from a (virtual) file"""

    def __init__(self, v):
        self.read = []
        files = self

        class DB:
            def __init__(self):
                self.content = None

            def read(self, path):
                self.content = v.get(path)[0]
                files.read.append(self.content)
        self.DB = DB


def setup(c, v):
    M = c.mod('klayout_pex.kpex_cli')
    fs = Files(v)
    M.kdb = types.SimpleNamespace(LayoutVsSchematic=fs.DB)

    class DT:
        """times compare like the numbers they stand for"""
        @staticmethod
        def fromtimestamp(t, *a):
            return t
    M.datetime = DT
    return M, fs


def history(c, p):
    v = VOS(c)
    M, fs = setup(c, v)
    for d in ('a', 'b', 'out0', 'out1', 'cache'):
        v.mkdirs('/vfs/' + d)
    version = {}
    v.now = c.real('t0', 1, 1000)

    def modify(g):
        version[g] = version.get(g, 0) + 1
        v.put(g, ('gds', g, version[g]))
    gds = ['/vfs/a/x.gds', '/vfs/b/x.gds']
    for g in gds[:2 if p['dim'] in ('layout', 'cwd') else 1]:
        modify(g)
    calls = []

    class LVS:
        @staticmethod
        def run_klayout_lvs(exe_path, lvs_script, gds_path, schematic_path, log_path, lvsdb_path, verbose):
            t = 't%d' % len(calls) + 'l'
            calls.append(gds_path)
            d = c.real(t, 0, 1000)
            v.now = v.now + d
            if not fail[0]:
                v.put(lvsdb_path, ('lvsdb',) + v.get(gds_path)[0] + (lvs_script,))
    M.LVSRunner = LVS
    fail = [False]
    form = c.choice('rel', ['plain', 'dot', 'up']) if p['dim'] == 'cwd' else None
    fresh = {}
    for i in range(p['runs']):
        dt = c.real('dt%d' % i, 0, 1000)
        c.assume(dt > 0)
        v.now = v.now + dt
        sel = c.choice('sel%d' % i, [0, 1])
        pick = lambda dim, xs: xs[sel] if p['dim'] == dim else xs[0]
        g = pick('cwd', gds) if p['dim'] == 'cwd' else pick('layout', gds)
        # the layout is named relative to the working directory
        rel = g
        if p['dim'] == 'cwd':
            v.cwd = os.path.dirname(g)
            rel = {'plain': 'x.gds', 'dot': './x.gds', 'up': '../%s/x.gds' % v.cwd[-1]}[form if i else 'plain']
        if i and c.flag('modify%d' % i):
            modify(g)
            # the layout is complete before the run starts
            pause = c.real('p%d' % i, 0, 1000)
            c.assume(pause > 0)
            v.now = v.now + pause
        cell = pick('cell', ['TOP', 'SUB'])
        out = pick('outdir', ['/vfs/out0', '/vfs/out1'])
        pdk = pick('pdk', list(M.PDK))
        # (validation exports a cell other than the top cell into the output directory before every run)
        eff = rel
        if cell == 'SUB':
            eff = out + '/x__SUB/SUB_exported.gds.gz'
            v.mkdirs(os.path.dirname(eff), exist_ok=True)
            v.put(eff, ('gds', g, version[g]))
        run_dir = '%s/x__%s' % (out, cell)
        v.mkdirs(run_dir, exist_ok=True)
        fail[0] = p['fail'] and i > 0 and c.flag('fail%d' % i)
        cache = c.flag('cache%d' % i)
        script = '/s/%s.lvs' % pdk.value
        args = types.SimpleNamespace(
            input_mode=M.InputMode.GDS, output_dir_path=run_dir, output_dir_base_path=out, effective_cell_name=cell, cell_name=cell, cache_dir_path='/vfs/cache', pdk=pdk,
            gds_path=rel, effective_gds_path=eff, effective_schematic_path=run_dir + '/s.spice', cache_lvs=cache, klayout_exe_path='klayout',
            lvs_script_path=script, klayout_lvs_verbose=False, lvsdb_path=None)
        n = len(calls)
        with v.installed():
            try:
                db = M.KpexCLI().create_lvsdb(args)
                err = False
            except (FileNotFoundError, RuntimeError, OSError) as e:
                err = True
        ran = len(calls) > n
        key = (g, cell, pdk)
        want = ('lvsdb', 'gds', g, version[g], script)
        c.check(ran or cache, 'without caching LVS always runs')
        c.check(err == (ran and fail[0]), 'an error exactly if LVS produced nothing')
        if not err:
            c.check(db.content == want, 'the database of the current layout, cell and PDK')
        if fresh.get(key) == version[g] and cache:
            c.check(not ran, 'LVS is not repeated for an unchanged layout')
        if ran and not err and cache:
            fresh[key] = version[g]


def old(c, p):
    """cached database and layout of arbitrary age"""
    v = VOS(c)
    M, fs = setup(c, v)
    for d in ('out/x__TOP', 'cache'):
        v.mkdirs('/vfs/' + d)
    g = '/vfs/x.gds'
    tg, tc = c.real('tg', 0, 1000), c.real('tc', 0, 1000)
    v.now = 2000.0
    v.put(g, ('gds',), tg)
    calls = []

    class LVS:
        @staticmethod
        def run_klayout_lvs(exe_path, lvs_script, gds_path, schematic_path, log_path, lvsdb_path, verbose):
            calls.append(1)
            v.put(lvsdb_path, 'new')
    M.LVSRunner = LVS
    args = types.SimpleNamespace(
        input_mode=M.InputMode.GDS, output_dir_path='/vfs/out/x__TOP', output_dir_base_path='/vfs/out', effective_cell_name='TOP', cell_name=None, cache_dir_path='/vfs/cache', pdk=list(M.PDK)[0],
        gds_path=g, effective_gds_path=g, effective_schematic_path='/vfs/out/s.spice', cache_lvs=True, klayout_exe_path='klayout',
        lvs_script_path='/s', klayout_lvs_verbose=False, lvsdb_path=None)
    with v.installed():
        first = M.KpexCLI().create_lvsdb(args)
        cached = [q for q in v.files if q.startswith('/vfs/cache/')]
        c.check(first.content == 'new' and len(cached) == 1 and len(calls) == 1, 'the first run fills the cache')
        v.files[cached[0]] = ('cached', tc)
        v.files[g] = (('gds',), tg)
        for q in list(v.files):
            if q.startswith('/vfs/out'):
                del v.files[q]
        second = M.KpexCLI().create_lvsdb(args)
    newer = bool(tc > tg)
    c.check(second.content == ('cached' if newer else 'new') and len(calls) == (1 if newer else 2), 'a cached database is used exactly if it is newer than the layout')
    if not newer:
        c.check(v.files[cached[0]][0] == 'new', 'the cache is refreshed')


def given(c, p):
    v = VOS(c)
    M, fs = setup(c, v)
    v.mkdirs('/vfs/out')
    v.mkdirs('/vfs/d')
    v.put('/vfs/d/y.lvsdb', 'mine')
    v.put('/vfs/out/TOP.lvsdb.gz', 'other')
    M.LVSRunner = None
    args = types.SimpleNamespace(input_mode=M.InputMode.LVSDB, lvsdb_path='/vfs/d/y.lvsdb', output_dir_path='/vfs/out', effective_cell_name='TOP', cache_lvs=c.flag('cache'),
                                 cache_dir_path='/vfs/cache', pdk=list(M.PDK)[0])
    with v.installed():
        db = M.KpexCLI().create_lvsdb(args)
    c.check(db.content == 'mine', 'a given database is used as it is')
