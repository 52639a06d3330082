"""A command line run: exactly the requested engines, on the requested cell, with exactly the given options; every output and every log in its place."""
import fnmatch
import os
import shutil
import types
from vos import VOS
from C34 import find

META = {
    'bounds': ['every combination of engines, layout or database as input', 'every option of every engine: given (any number, any documented choice) or left out',
               'up to 3 LVS layers, with up to 2 boxes of any position each, on 2 drawn layers', 'up to 3 runs into one output directory, any of them rejected'],
    'outside': ['the command line syntax (argparse)', 'the engines (C01-C24, C26)', 'log files of runs that end in the same second', 'the preliminary log when the layout is unknown'],
}
FC = {'tolerance': ('--tolerance', 0.05), 'd_coeff': ('--d_coeff', 0.5), 'mesh_refinement_value': ('--mesh', 0.5), 'ooc_condition': ('--ooc', 2)}
FLAGS = {'auto_preconditioner': ('--auto_precond', True), 'galerkin_scheme': ('--galerkin', False), 'jacobi_preconditioner': ('--jacobi', False)}
MAGIC = {'c_threshold': ('--magic_cthresh', 0.01), 'r_threshold': ('--magic_rthresh', 100), 'tolerance': ('--magic_tolerance', 1), 'halo': ('--magic_halo', None)}


def cases(tier):
    out = [dict(name='engines-%s' % i, fn='run', params=dict(vary='engines', input=i)) for i in ('gds', 'lvsdb')]
    out += [dict(name='options-' + v, fn='run', params=dict(vary=v)) for v in ('fastercap', 'fastercap-flags', 'model', '25d', 'magic', 'magic-modes', 'lvs', 'threads')]
    out += [dict(name='layers-%d' % n, fn='run', params=dict(vary='layers', n=n)) for n in (0, 1, 2) + ((3,) if tier == 'thorough' else ())]
    out.append(dict(name='logs', fn='logs', params=dict(runs=3)))
    return out


class Free:
    """an object that accepts everything"""

    def __init__(self, log=None, name=''):
        self.__dict__.update(_log=log, _name=name)

    def __call__(self, *a, **k):
        if self._log is not None:
            self._log.append((self._name, a, k))
        return Free(self._log, self._name + '()')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Free(self._log, self._name + '.' + n)

    def __iter__(self):
        return iter(())

    def __str__(self):
        return self._name


class Machine:
    """everything below the command line"""

    def __init__(self, c, M, v, tops=('top',), layers=()):
        self.c, self.M, self.v = c, M, v
        self.ev = []          # what happened, in order
        self.dumps = {}
        self.handlers = []
        self.levels = []
        ev, m = self.ev, self
        kdb = c.kdb
        self.layers = layers

        class Layout(kdb.Layout):
            def read(self, path, *a):
                content = v.get(path)[0]
                ev.append(('read layout', path))
                for n in content[1]:
                    self.create_cell(n)
                self.dbu = 0.005

            def write(self, path, *a):
                v.put(path, 'dump')
                m.dumps[path] = self

            def cells(self, pattern=None):
                if pattern is None:
                    return kdb.Layout.cells(self)
                return [x for x in self.each_cell() if fnmatch.fnmatchcase(x.name, pattern)]

            def each_cell(self):
                return iter([Cell(v, x) for x in kdb.Layout.each_cell(self)])

            def begin_shapes(self, cell, *a):
                return kdb.Layout.begin_shapes(self, cell.__dict__.get('_cell', cell) if isinstance(cell, Cell) else cell, *a)

            def insert(self, cell, *a):
                return kdb.Layout.insert(self, cell.cell_index() if isinstance(cell, Cell) else cell, *a)

            def cell(self, x):
                r = kdb.Layout.cell(self, x)
                return None if r is None else Cell(v, r)

            def top_cells(self):
                return [Cell(v, x) for x in kdb.Layout.top_cells(self)]

            def top_cell(self):
                r = kdb.Layout.top_cell(self)
                return None if r is None else Cell(v, r)
        m.Layout = Layout

        class DB:
            def __init__(self):
                self.content = None

            def read(self, path, *a):
                self.content = v.get(path)[0]
                ev.append(('read database', path))

            def internal_top_cell(self):
                return types.SimpleNamespace(name='dbtop')

            def internal_layout(self):
                return types.SimpleNamespace(dbu=0.005, write=lambda path, *a: m.file('internal', path))

            def netlist(self):
                return Free()
        M.kdb = types.SimpleNamespace(Layout=Layout, LayoutVsSchematic=DB, LayerInfo=kdb.LayerInfo, Region=kdb.Region, NetlistSpiceWriter=Free, Cell=kdb.Cell)

        class Report:
            def __init__(self, *a):
                pass

            def save(self, path):
                m.file('magic report', path)

            def load(self, path):
                v.get(path)
        M.rdb = types.SimpleNamespace(ReportDatabase=Report)
        M.rich = types.SimpleNamespace(**{n: getattr(M.rich, n) for n in ('console', 'text', 'markdown')}, print=lambda *a, **k: None)
        M.open = v.open

        class Tech:
            @staticmethod
            def from_json(jsonpb_path, dielectric_filter=None):
                m.tech = types.SimpleNamespace(path=jsonpb_path, filter=dielectric_filter, tech=types.SimpleNamespace(process_parasitics=types.SimpleNamespace(side_halo=8.0)))
                ev.append(('tech', m.tech))
                return m.tech
        M.TechInfo = Tech

        class Context:
            @classmethod
            def prepare_extraction(cls, lvsdb, top_cell, tech, blackbox_devices):
                m.ctx = types.SimpleNamespace(lvsdb=lvsdb, annotated_top_cell=types.SimpleNamespace(name=top_cell), blackbox=blackbox_devices, tech=tech,
                                              annotated_layout=types.SimpleNamespace(write=lambda path, *a: m.file('annotated', path)))
                m.ctx.halo = tech.tech.process_parasitics.side_halo
                m.ctx.unnamed_layers = [l for l in m.layers if not l.named]
                m.ctx.extracted_layers = {}
                for l in m.layers:
                    if l.named:
                        m.ctx.extracted_layers.setdefault(l.gds_pair, types.SimpleNamespace(source_layers=[])).source_layers.append(l)
                ev.append(('context', m.ctx))
                return m.ctx
        M.KLayoutExtractionContext = Context

        class Gen:
            def write_fastcap(self, output_dir_path, prefix):
                m.file('model', output_dir_path + '/' + prefix + '.lst')
                return output_dir_path + '/' + prefix + '.lst'

            def dump_stl(self, output_dir_path, prefix):
                m.file('stl', output_dir_path + '/' + prefix + 'x.stl')

            def check(self):
                ev.append(('check',))

        class Builder:
            def __init__(self, pex_context, tech_info, k_void, delaunay_amax, delaunay_b):
                ev.append(('builder', pex_context, tech_info, k_void, delaunay_amax, delaunay_b))

            def build(self):
                return Gen()
        M.FasterCapInputBuilder = Builder

        def run_fastercap(exe_path, lst_file_path, log_path, tolerance, d_coeff, mesh_refinement_value, ooc_condition, auto_preconditioner, galerkin_scheme, jacobi_preconditioner):
            ev.append(('fastercap', exe_path, lst_file_path, log_path, dict(
                tolerance=tolerance, d_coeff=d_coeff, mesh_refinement_value=mesh_refinement_value, ooc_condition=ooc_condition, auto_preconditioner=auto_preconditioner,
                galerkin_scheme=galerkin_scheme, jacobi_preconditioner=jacobi_preconditioner), os.environ.get('OMP_NUM_THREADS')))
            v.get(lst_file_path)
            v.put(log_path, 'log')

        def run_fastcap(exe_path, lst_file_path, log_path, *a, **k):
            ev.append(('fastcap', exe_path, lst_file_path, log_path))
            v.get(lst_file_path)
            v.put(log_path, 'log')
        M.run_fastercap, M.run_fastcap = run_fastercap, run_fastcap

        class Matrix:
            def write_csv(self, path, *a, **k):
                m.file('matrix', path)

            def averaged_off_diagonals(self):
                return self

        def parse(log_path):
            v.get(log_path)
            return Matrix()
        M.fastercap_parse_capacitance_matrix = M.fastcap_parse_capacitance_matrix = parse

        class Netlist:
            def write(self, path, *a):
                m.file('netlist', path)

            def dup(self):
                return self

        def expander(what):
            class X:
                @staticmethod
                def expand(extracted_netlist, top_cell_name, blackbox_devices, cap_matrix=None, extraction_results=None):
                    ev.append(('expand', what, top_cell_name, blackbox_devices))
                    return Netlist()
            return X
        M.NetlistExpander, M.RCX25NetlistExpander = expander('field solver'), expander('2.5D')

        class CSV:
            @staticmethod
            def write_csv(netlist, top_cell_name, output_path):
                m.file('csv', output_path)

            def __getattr__(self, n):
                raise AttributeError(n)
        M.NetlistCSVWriter = CSV

        class Red:
            @staticmethod
            def reduce(netlist, top_cell_name, *a, **k):
                return netlist
        M.NetlistReducer = Red
        m.results = types.SimpleNamespace(summarize=lambda: types.SimpleNamespace(capacitances={}, resistances={}))

        class RCX:
            def __init__(self, pex_context, pex_mode, scale_ratio_to_fit_halo, tech_info, report_path, delaunay_amax=None, delaunay_b=None):
                m.rcx = types.SimpleNamespace(ctx=pex_context, mode=pex_mode, scale=scale_ratio_to_fit_halo, tech=tech_info, halo=tech_info.tech.process_parasitics.side_halo, report=report_path)

            def extract(self):
                ev.append(('2.5D', m.rcx))
                m.file('report', m.rcx.report)
                return m.results
        M.RCX25Extractor = RCX
        M.repair_rdb = lambda path: None

        class LVS:
            @staticmethod
            def run_klayout_lvs(exe_path, lvs_script, gds_path, schematic_path, log_path, lvsdb_path, verbose):
                ev.append(('lvs', exe_path, lvs_script, gds_path, schematic_path, verbose))
                v.put(lvsdb_path, 'database')
        M.LVSRunner = LVS

        def prepare_magic_script(gds_path, cell_name, run_dir_path, script_path, output_netlist_path, pex_mode, c_threshold, r_threshold, tolerance, halo, short_mode, merge_mode):
            m.magic = dict(gds=gds_path, cell=cell_name, dir=run_dir_path, script=script_path, netlist=output_netlist_path, mode=pex_mode, short=short_mode, merge=merge_mode,
                           nums=dict(c_threshold=c_threshold, r_threshold=r_threshold, tolerance=tolerance, halo=halo))
            v.put(script_path, 'script')

        def run_magic(exe_path, magicrc_path, script_path, log_path):
            ev.append(('magic', exe_path, magicrc_path, script_path, log_path))
            v.get(script_path)
            v.put(log_path, 'log')
            v.put(m.magic['netlist'], 'netlist')

        def parse_magic(path):
            m.parsed = str(path)
            return 'magic run'

        class Analyzer:
            def __init__(self, magic_pex_run, report, dbu):
                ev.append(('magic report', magic_pex_run, dbu))

            def analyze(self):
                ev.append(('analyze',))
        M.prepare_magic_script, M.run_magic, M.parse_magic_pex_run, M.MagicLogAnalyzer = prepare_magic_script, run_magic, parse_magic, Analyzer

        # logging
        class Handler:
            def __init__(self, path, mode='a', *a, **k):
                self.path, self.level, self.open = path, 0, True
                if v.path(path) not in v.files:
                    v.put(path, ())
                self.node = v.path(path)

            def setLevel(self, l):
                self.level = l

            def setFormatter(self, f):
                pass

            def flush(self):
                pass

            def close(self):
                self.open = False
        M.logging = types.SimpleNamespace(FileHandler=Handler, Formatter=lambda *a, **k: None, Handler=Handler)
        M.register_additional_handler = self.handlers.append
        M.deregister_additional_handler = self.handlers.remove
        M.set_log_level = self.levels.append
        for n in ('error', 'info', 'warning', 'subproc'):
            setattr(M, n, self.message)
        M.rule = lambda *a, **k: None
        self.said = 0

    def file(self, what, path):
        self.v.put(path, what)
        self.ev.append(('file', what, path))

    def message(self, msg, *args, **k):
        if args:
            msg % args
        self.said += 1
        for h in self.handlers:
            assert h.open
            content, t = self.v.get(h.path)
            self.v.put(h.path, content + (self.stamp(),))

    def stamp(self):
        return self.said


class Cell:
    """a cell of a layout that was read; writing it is noted"""

    def __init__(self, v, cell):
        self.__dict__.update(_v=v, _cell=cell)

    def write(self, path, *a):
        self._v.put(path, ('layout', (self._cell.name,)))

    def __getattr__(self, n):
        return getattr(self._cell, n)


class Which:
    """the programs that are installed"""

    def __enter__(self):
        self.saved = shutil.which
        shutil.which = lambda n, *a, **k: '/usr/bin/' + n

    def __exit__(self, *a):
        shutil.which = self.saved


def start(c, tops=('top',), layers=(), **k):
    M = c.mod('klayout_pex.kpex_cli')
    v = VOS(c)
    for d in ('d', 'out'):
        v.mkdirs('/vfs/' + d)
    v.put('/vfs/d/x.gds', ('layout', tops))
    v.put('/vfs/d/y.lvsdb', 'database')
    v.put('/vfs/d/s.spice', 'schematic')
    return M, v, Machine(c, M, v, tops, layers)


def run(c, p):
    vary = p['vary']
    ps = ['ihp_sg13g2', 'sky130A']
    layers = []
    if vary == 'layers':
        for i in range(p['n']):
            r = c.kdb.Region()
            for j in range(2 if i == 0 and p['n'] < 2 else 1):
                n = 'b%d%d' % (i, j)
                x, y = c.int(n + 'x', -1000, 1000), c.int(n + 'y', -1000, 1000)
                w, h = c.int(n + 'w', 1, 1000), c.int(n + 'h', 1, 1000)
                r.insert(c.kdb.Box(x, y, x + w, y + h))
            layers.append(types.SimpleNamespace(gds_pair=c.choice('pair%d' % i, [(8, 0), (10, 2)]), lvs_layer_name='l%d' % i, region=r, named=c.flag('named%d' % i)))
    else:
        layers = [types.SimpleNamespace(gds_pair=(8, 0), lvs_layer_name='met', region=c.kdb.Region(), named=True)]
    two = vary == 'lvs' and c.flag('two_tops')
    M, v, m = start(c, ('top', 'other') if two else ('top',), layers)
    # the command line
    pdk = c.choice('pdk', ps) if vary == 'lvs' else ps[1]
    argv = ['kpex', '--pdk', pdk, c.choice('out', ['--out_dir', '-o']) if vary == 'lvs' else '--out_dir', '/vfs/out']
    lvsdb = p.get('input') == 'lvsdb'
    argv += ['--lvsdb', '/vfs/d/y.lvsdb'] if lvsdb else ['--gds', '/vfs/d/x.gds']
    cell = 'dbtop' if lvsdb else 'top'
    if vary == 'lvs' and (two or c.flag('cell')):
        argv += [c.choice('short', ['--cell', '-c']), cell]
    all_ = ('magic', 'fastcap', 'fastercap', '2.5D')
    eng = {'engines': None, 'fastercap': ('fastercap', 'fastcap'), 'fastercap-flags': ('fastercap',), 'model': ('fastercap', 'fastcap'), '25d': ('2.5D',), 'magic': ('magic',),
           'magic-modes': ('magic',), 'lvs': ('2.5D',), 'threads': ('fastercap',), 'layers': ('2.5D', 'fastercap', 'fastcap')}[vary]
    if eng is None:
        eng = tuple(e for e in all_ if c.flag('run_' + e))
    for e in eng:
        argv += ['--' + e]

    def given(name):
        return c.flag('given_' + name)

    def number(opt, default, on, lo=0, hi=1000):
        if on and given(opt):
            x = c.real(opt, lo, hi)
            argv.extend([opt, format(x, '.17g')])
            return x
        return default

    def boolean(opt, default, on):
        if on and given(opt):
            t = c.choice(opt, ['true', 'false', 'Yes', 'no'])
            argv.extend([opt, t])
            return t in ('true', 'Yes')
        return default

    def chosen(opt, default, on, options):
        if on and given(opt):
            t = c.choice(opt, options)
            argv.extend([opt, t])
            return t
        return default
    fc = {n: number(o, d, vary == 'fastercap') for n, (o, d) in FC.items()}
    fl = {'auto_preconditioner': boolean('--auto_precond', True, vary == 'fastercap-flags')}
    for n in ('galerkin_scheme', 'jacobi_preconditioner'):
        fl[n] = vary == 'fastercap-flags' and given(n)
        if fl[n]:
            argv.append(FLAGS[n][0])
    threads = None
    if vary == 'threads' and given('threads'):
        threads = c.choice('threads', [1, 16])
        argv += ['--threads', str(threads)]
    kvoid = number(c.choice('kname', ['--k_void', '-k']) if vary == 'model' else '--k_void', 3.9, vary == 'model', 0.1)
    amax = number('--delaunay_amax', 50, vary == 'model')
    db = number('--delaunay_b', 0.5, vary == 'model')
    gcheck = boolean('--geo_check', False, vary == 'model')
    diel = chosen('--diel', 'all', vary == 'model', ['none', 'none,+x', 'all,-x'])
    mg = {n: number(o, d, vary == 'magic' and n != 'r_threshold') for n, (o, d) in MAGIC.items()}
    if vary == 'magic' and given('r'):
        k = c.choice('rthresh', [0, 7])
        argv += ['--magic_rthresh', str(k)]
        mg['r_threshold'] = k
    mm = vary == 'magic-modes'
    mode = chosen('--magic_mode', 'CC', mm, ['CC', 'RC', 'R'])
    short = chosen('--magic_short', 'none', mm, ['none', 'resistor', 'voltage'])
    merge = chosen('--magic_merge', 'none', mm, ['none', 'conservative', 'aggressive'])
    rc = None
    if mm and given('rc'):
        rc = '/vfs/rc'
        argv += ['--magicrc', rc]
    pmode = chosen('--mode', 'CC', vary == '25d', ['CC', 'RC', 'R'])
    halo = number('--halo', None, vary in ('25d', 'model'))
    scale = boolean('--scale', True, vary == '25d')
    bb = boolean('--blackbox', False, vary in ('25d', 'threads', 'lvs'))
    verbose = boolean('--lvs-verbose', False, vary == 'lvs')
    sch = '/vfs/d/s.spice' if vary == 'lvs' and given('schematic') else None
    if sch:
        argv += ['--schematic', sch]
    level = chosen('--log_level', 'subprocess', vary == 'threads', ['debug', 'ERROR'])
    ok = bool(eng) and not (lvsdb and 'magic' in eng)
    named = [l for l in layers if l.named]
    solver = [e for e in eng if e != 'magic']
    cli = M.KpexCLI()
    rc_ = os.environ.pop('PDKPATH', None)
    with v.installed(), Which():
        try:
            cli.main(argv)
            code = 0
        except SystemExit as e:
            code = e.code
    ev = m.ev
    where = lambda k: [e for e in ev if e[0] == k]
    happened = [e[0] for e in ev]
    bad = not ok or bool(solver) and not named
    c.check((code not in (0, None)) == bad, 'the run fails exactly if it cannot be done')
    if not ok:
        c.check(not [e for e in ev if e[0] in ('magic', 'lvs', 'context', 'builder', 'fastercap', 'fastcap', '2.5D')], 'nothing runs for an impossible request')
        return
    for e in all_:
        c.check(len(where(e)) == int(e in eng and (e == 'magic' or bool(named))), 'exactly the requested engines run, once: ' + e)
    c.check(len(where('context')) == int(bool(solver)) and len(where('lvs')) == int(bool(solver) and not lvsdb), 'LVS is only run where needed')
    od = '/vfs/out/' + ('y__' if lvsdb else 'x__') + cell
    mine = lambda path: os.path.dirname(os.path.normpath(path)) == od and os.path.basename(path).startswith(cell)
    fs = [e for e in ev if e[0] == 'file']
    c.check(len({e[2] for e in fs}) == len(fs), 'no output overwrites another')
    cfg = M.PDK(pdk).config
    gds = '/vfs/d/x.gds'
    if two:
        gds = od + '/top_exported.gds.gz'
    if 'magic' in eng:
        (_, exe, r, script, log), g = where('magic')[0], m.magic
        c.check(exe == os.environ.get('KPEX_MAGIC_EXE', 'magic') and r == rc and script == g['script'], 'Magic is started as requested')
        c.check(g['gds'] == gds and g['cell'] == cell, 'Magic extracts the requested cell of the layout')
        c.check(g['mode'].value == mode and g['short'].value == short and g['merge'].value == merge, 'modes of Magic')
        for n, w in mg.items():
            x = g['nums'][n]
            c.check((x is None) == (w is None), 'option of Magic: ' + n)
            if w is not None:
                c.check_close(x, w, 'option of Magic: ' + n)
        fl_ = [log, g['script'], g['netlist']] + [e[2] for e in fs if e[1] == 'magic report']
        c.check(len(set(fl_)) == 4 and all(f.startswith(g['dir'] + '/') for f in fl_) and g['dir'].startswith(od + '/') and mode in g['dir'], 'files of Magic in a directory of its own')
        c.check(where('magic report') == [('magic report', 'magic run', 0.005)] and m.parsed == g['dir'] and ('read layout', gds) in ev, 'the report is made from the extraction files, in the grid of the layout')
        i = happened.index
        c.check(i('magic') < i('magic report') < i('analyze') < [k for k, e in enumerate(ev) if e[:2] == ('file', 'magic report')][0], 'the report is complete when it is saved')
    if not solver:
        c.check(not where('tech') or m.tech.path == cfg.tech_pb_json_path, 'technology of the PDK')
        return
    c.check(m.tech.path == cfg.tech_pb_json_path and len(where('tech')) == 1, 'technology of the PDK')
    c.check(m.tech.filter.filter(['x', 'y']) == {'all': ['x', 'y'], 'none': [], 'none,+x': ['x'], 'all,-x': ['y']}[diel], 'dielectric filter')
    if not lvsdb:
        _, exe, script, g, s, verb = where('lvs')[0]
        c.check(exe == os.environ.get('KPEX_KLAYOUT_EXE', 'klayout') and script == cfg.pex_lvs_script_path and g == gds and bool(verb) == verbose, 'LVS as requested')
        c.check(s == sch if sch else s.startswith(od + '/'), 'schematic of LVS')
    ctx = m.ctx
    c.check(ctx.lvsdb.content == 'database' and ctx.annotated_top_cell.name == cell and ctx.tech is m.tech and bool(ctx.blackbox) == bb, 'the extraction is prepared as requested')
    h = m.tech.tech.process_parasitics.side_halo
    want = 8.0 if halo is None else halo
    c.check_close(h, want, 'halo')
    c.check_close(ctx.halo, want, 'halo of the extraction context')
    # layouts for inspection
    for n in ('annotated', 'internal'):
        f = [e[2] for e in fs if e[1] == n]
        c.check(len(f) == 1 and mine(f[0]), 'layout of the database for inspection')
    groups = [('nonempty', named), ('unnamed', [l for l in layers if not l.named])]
    c.check(len(m.dumps) == len([1 for _, ls in groups if ls]), 'layers for inspection')
    for n, ls in groups:
        f = [q for q in m.dumps if n in q]
        c.check(len(f) == int(bool(ls)) and all(mine(q) for q in f), 'layers for inspection: ' + n)
        if ls:
            dump(c, m.dumps[f[0]], ls, cell)
    if not named:
        return
    if 'fastcap' in eng or 'fastercap' in eng:
        b = where('builder')
        c.check(len(b) == 1 and b[0][1] is ctx and b[0][2] is m.tech, 'the field solver input is built once, from the extraction')
        for x, w in zip(b[0][3:], (kvoid, amax, db)):
            c.check_close(x, w, 'option of the field solver input')
        c.check(len(where('check')) == int(gcheck), 'geometry is checked exactly on request')
        lst = [e[2] for e in fs if e[1] == 'model'][0]
        c.check(lst.startswith(od + '/') and [e[2] for e in fs if e[1] == 'stl'][0].startswith(od + '/'), 'field solver input')
        c.check(len({os.path.dirname(q) for q in (lst, [e[2] for e in fs if e[1] == 'stl'][0], od + '/x')}) == 3, 'field solver input in directories of its own')
    if 'fastercap' in eng:
        _, exe, l, log, opts, omp = where('fastercap')[0]
        c.check(exe == os.environ.get('KPEX_FASTERCAP_EXE', 'FasterCap') and l == lst and mine(log), 'FasterCap is started as requested')
        for n, w in list(fc.items()):
            c.check_close(opts[n], w, 'option of FasterCap: ' + n)
        for n, w in fl.items():
            c.check(bool(opts[n]) == w, 'option of FasterCap: ' + n)
        c.check(omp == str(threads or os.cpu_count() * 4), 'number of threads')
        c.check(cli.fastercap_extracted_csv_path == [e[2] for e in fs if e[1] == 'csv'][0], 'path of the FasterCap report')
    if 'fastcap' in eng:
        _, exe, l, log = where('fastcap')[0]
        c.check(exe == os.environ.get('KPEX_FASTCAP_EXE', 'fastcap') and l == lst and mine(log), 'FastCap is started as requested')
        if 'fastercap' in eng:
            c.check(log != where('fastercap')[0][3], 'logs of the field solvers')
    for e in where('expand'):
        c.check(e[2] == cell and bool(e[3]) == bb, 'netlists of the requested cell')
    if '2.5D' in eng:
        r = m.rcx
        c.check(r.ctx is ctx and r.tech is m.tech and r.mode.value == pmode and bool(r.scale) == scale, 'the 2.5D engine runs as requested')
        c.check_close(r.halo, want, 'halo of the 2.5D engine')
        c.check(mine(r.report) and cli.rcx25_extraction_results is m.results, 'results of the 2.5D engine')
        f = cli.rcx25_extracted_csv_path
        c.check(mine(f) and isinstance(v.get(f)[0], str) and 'Net1' in v.get(f)[0], 'path of the 2.5D report')
    c.check(all(mine(e[2]) for e in fs if e[1] in ('netlist', 'csv', 'matrix', 'report')), 'every output is in the directory of the run')
    c.check([l.name for l in m.levels] == [level.upper()], 'log level')


def dump(c, layout, ls, cell):
    c.check(layout.dbu == 0.005, 'grid of the layers for inspection')
    top = layout.top_cell()
    c.check(top.name == cell, 'cell of the layers for inspection')
    pairs = {l.gds_pair for l in ls}
    got = {}
    for li in layout.layer_indexes():
        info = layout.get_info(li)
        k = (info.layer, info.datatype)
        got.setdefault(k, c.kdb.Region())
        s = layout.begin_shapes(top, li)
        while not s.at_end():
            got[k].insert(s.shape().polygon)
            s.next()
    c.check(set(got) == pairs, 'drawn layers of the layers for inspection')
    for k in pairs:
        want = c.kdb.Region()
        for l in ls:
            if l.gds_pair == k:
                want += l.region
        c.check((want ^ got[k]).is_empty(), 'shapes of the layers for inspection')


def logs(c, p):
    """histories of runs with one output directory: no message is lost, no log of an earlier run"""
    M, v, m = start(c)
    mine = []
    for i in range(p['runs']):
        v.now = float(1000 + 100 * i)
        bad = i < p['runs'] - 1 and c.flag('rejected%d' % i)
        argv = ['kpex', '--pdk', 'sky130A', '--out_dir', '/vfs/out', '--gds', '/vfs/d/x.gds', '--magic'] + (['--log_level', 'nonsense'] if bad else [])
        m.handlers.clear()
        m.ev.clear()
        first = m.said
        with v.installed(), Which():
            a = M.KpexCLI()
            try:
                a.main(argv)
                ok = True
            except SystemExit:
                ok = False
        c.check(ok != bad, 'rejected exactly if impossible')
        mine.append((first, m.said))
        c.check(all(h.open for h in m.handlers) and len(m.handlers) == 2, 'two logs')
        od = '/vfs/out/x__top'
        for n in ('kpex.log', 'kpex_plain.log'):
            t = v.get(od + '/' + n)[0]
            got = t
            c.check(v.path('/vfs/out/' + n) not in v.files, 'the log is in the directory of the run')
            # the message with the command line is given before there is a log
            want = list(range(first + 2, m.said + 1))
            c.check([x for x in got if x > first + 1] == want, 'every message of the run is in its log')
            c.check(not [x for x in got if x <= first], 'only messages of the run')
    for n in ('kpex', 'kpex_plain'):
        fl = [q for q in v.files if os.path.dirname(q) == '/vfs/out/x__top' and q.endswith('.log') and os.path.basename(q).startswith(n) and (n == 'kpex_plain' or 'plain' not in os.path.basename(q))]
        seen = [x for q in fl for x in v.files[q][0]]
        c.check(len(fl) == p['runs'] and len(set(seen)) == len(seen), 'logs of earlier runs are kept')
        for a, b in mine:
            c.check(set(range(a + 2, b + 1)) <= set(seen), 'logs of earlier runs are kept')
