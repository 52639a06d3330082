"""Reports of an extraction run: complete, in their own files, made from the right data."""
import types
from netlib import *
from vfs import FS

META = {
    'bounds': ['FasterCap: matrices up to 3x3 with arbitrary unsymmetric entries up to 1 pF, nets named with 1..2 characters, any cell name of a pool',
               '2.5D: up to 3 partial capacitances of any kind and 2 resistors between up to 3 nets (names of 1..2 characters), any values up to 1 pF / 1 MΩ',
               'marker databases that can or cannot be loaded'],
    'outside': ['the reduction of the netlist (C21), the SPICE text KLayout writes', 'the FastCap2 flow (no netlist: conductor names of FastCap carry no net)'],
}


def cases(tier):
    out = []
    for n in (2, 3):
        for bb in (True, False):
            if n == 3 and bb and tier == 'quick':
                continue
            out.append(dict(name='fastercap-%d-%d' % (n, bb), fn='fastercap', params=dict(n=n, bb=bb)))
    for nc, nr in ((1, 0), (2, 1), (0, 2)) + (((3, 1),) if tier == 'thorough' else ()):
        out.append(dict(name='rcx25-%d-%d' % (nc, nr), fn='rcx25', params=dict(nc=nc, nr=nr)))
    return out


class Net_:
    """a netlist that notes where it is written to"""

    def __init__(self, nl, log):
        self.__dict__.update(nl=nl, log=log)

    def write(self, path, writer=None, *a):
        self.log.append((path, self.nl, writer))

    def __getattr__(self, n):
        return getattr(self.nl, n)


def context(c, cell, names):
    k = c.kdb
    nl = k.Netlist()
    circ = k.Circuit()
    circ.name = cell
    nl.add(circ)
    ns = nets(c, circ, names)
    dc = k.DeviceClassMOS3Transistor()
    dc.name = 'NMOS'
    nl.add(dc)
    d = circ.create_device(dc, 'M1')
    for t in range(3):
        d.connect_terminal(t, ns[t % len(ns)])
    return types.SimpleNamespace(lvsdb=types.SimpleNamespace(netlist=lambda: nl), annotated_top_cell=types.SimpleNamespace(name=cell)), nl


def flow(c, KC, fs, log):
    for m in ('fastercap.fastercap_runner', 'klayout.netlist_csv', 'common.capacitance_matrix'):
        c.mod('klayout_pex.' + m).open = fs.open
    KC.open = fs.open
    red = []

    def wrap(cls):
        class W:
            def expand(self, **kw):
                log.append(('expand', kw))
                return Net_(cls().expand(**kw), log)
        return W

    class Red:
        def reduce(self, netlist, top_cell_name):
            red.append((netlist, top_cell_name))
            return Net_(netlist.nl.dup(), log)
    KC.NetlistExpander = wrap(c.mod('klayout_pex.klayout.netlist_expander').NetlistExpander)
    KC.RCX25NetlistExpander = wrap(c.mod('klayout_pex.rcx25.netlist_expander').RCX25NetlistExpander)
    KC.NetlistReducer = Red
    return red


def caps(c, nl, cell, par='C'):
    out = []
    for d in nl.circuit_by_name(cell).each_device():
        if type(d.device_class()) is c.kdb.DeviceClassCapacitor:
            out.append((d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name(), d.parameter(par)))
    return out


def fastercap(c, p):
    KC = c.mod('klayout_pex.kpex_cli')
    n = p['n']
    fs, log, runs = FS(c), [], []
    names = [c.str('net%d' % i, 1 + i % 2, 65, 98) for i in range(n - 1)]
    distinct(c, names)
    cell = c.choice('cell', ['TOP', 'g1_x', 'a.b'])
    ctx, nl = context(c, cell, names)
    red = flow(c, KC, fs, log)
    cond = ['VSUBS'] + names
    m = [[c.real('m%d%d' % (i, j), -1000, 1000) for j in range(n)] for i in range(n)]
    t = 'Capacitance matrix is:\nDimension 1 x 1\ng1_OLD 1 \n\nCapacitance matrix is:\nDimension %d x %d\n' % (n, n)
    for i in range(n):
        t = t + 'g%d_' % (i + 1) + cond[i] + '  '
        for j in range(n):
            t = t + format(m[i][j] * 1e-9, '.17g') + ' '
        t = t + '\n'

    def tool(**kw):
        runs.append(kw)
        fs.files[kw['log_path']] = t
    KC.run_fastercap = tool
    opts = dict(fastercap_exe_path='FC', fastercap_tolerance=c.real('tol', 0, 1), fastercap_d_coeff=c.real('d', 0, 1), fastercap_mesh_refinement_value=c.real('mesh', 0, 1),
                fastercap_ooc_condition=c.int('ooc', 0, 9), fastercap_auto_preconditioner=c.flag('ap'), fastercap_galerkin_scheme=True,
                fastercap_jacobi_preconditioner=c.flag('pj'))
    args = types.SimpleNamespace(num_threads=4, output_dir_path='/out/x', effective_cell_name=cell, blackbox_devices=p['bb'], **opts)
    cli = KC.KpexCLI()
    cli.run_fastercap_extraction(args=args, pex_context=ctx, lst_file='/in/a.lst')
    c.check(len(runs) == 1 and runs[0]['exe_path'] == 'FC' and runs[0]['lst_file_path'] == '/in/a.lst', 'the field solver runs once, on the given input')
    for a, v in opts.items():
        if a != 'fastercap_exe_path':
            c.check(bool(c.eq(runs[0][a[len('fastercap_'):]], v)), 'options of the field solver')
    import os
    c.check(os.environ.get('OMP_NUM_THREADS') == '4', 'number of threads')
    CM = c.mod('klayout_pex.common.capacitance_matrix').CapacitanceMatrix
    csvs = [f for f in fs.files if f != runs[0]['log_path']]
    c.check(len(csvs) == 3 and all(os.path.dirname(f) == '/out/x' and os.path.basename(f).startswith(cell + '_') for f in list(fs.files)), 'every report in its own file of the run')
    kind = {}
    for f in csvs:
        kind['raw' if f.endswith('_Raw.csv') else 'avg' if f.endswith('_Avg.csv') else 'net'] = f
    c.check(set(kind) == {'raw', 'avg', 'net'}, 'every report in its own file of the run')
    u = 1e15
    for w in ('raw', 'avg'):
        r = CM.parse_csv(kind[w])
        for i in range(n):
            c.check(bool(c.eq(r.conductor_names[i], 'g%d_' % (i + 1) + cond[i])), 'conductors of a report')
            for j in range(n):
                c.check_close(r[i][j] * u, m[i][j] if w == 'raw' or i == j else (m[i][j] + m[j][i]) / 2, 'matrix of a report')
    # the expanded netlist, in every form
    writes = [e for e in log if e[0] != 'expand']
    c.check(len(writes) == 2 and len({e[0] for e in writes}) == 2 and not ({e[0] for e in writes} & set(fs.files)), 'every netlist in its own file')
    c.check(all(os.path.dirname(e[0]) == '/out/x' and os.path.basename(e[0]).startswith(cell + '_') for e in writes), 'every netlist in its own file')
    c.check(all(bool(e[2].use_net_names) for e in writes), 'netlists with net names')
    c.check(len(red) == 1 and red[0][1] == cell and red[0][0].nl is writes[0][1], 'the expanded netlist is reduced')
    ex = writes[0][1]
    got = caps(c, ex, cell)
    c.check(len([d for d in ex.circuit_by_name(cell).each_device() if bool(c.eq(d.device_class().name, 'NMOS'))]) == int(p['bb']), 'devices are kept exactly when blackboxed')
    rows = [l.split(';') for l in fs.lines(kind['net'])[1:]]
    c.check(len(rows) == len(got), 'every capacitor is reported')
    for i in range(n):
        for j in range(i + 1, n):
            want = []
            v = -(m[i][j] + m[j][i]) / 2
            c.assume(c.any([v < -0.001, v > 0.001]))
            if bool(v > 0):
                want.append(v)
            if i == 0:
                g = m[j][j] + sum((m[j][k] + m[k][j]) / 2 for k in range(n) if k != j)
                c.assume(c.any([g < -0.001, g > 0.001]))
                if bool(g > 0):
                    want.append(g)
            mine = [v for a, b, v in got if pair(c, a, b, cond[i], cond[j])]
            c.check(len(mine) == len(want), 'capacitors between two nets')
            c.check_close(sum(mine, 0.0) * 1e15, sum(want, 0.0), 'capacitance between two nets')
            mine = [c.num(r[3]) for r in rows if pair(c, r[1], r[2], cond[i], cond[j])]
            c.check(len(mine) == len(want), 'reported capacitors between two nets')
            d = sum(mine, 0.0) - sum(want, 0.0)
            c.check(c.all([d <= 0.01001, d >= -0.01001]), 'reported capacitance between two nets')
    c.check(cli.fastercap_extracted_csv_path == kind['net'], 'path of the report')


def pair(c, a, b, x, y):
    return bool(c.eq(a, x)) and bool(c.eq(b, y)) or bool(c.eq(a, y)) and bool(c.eq(b, x))


def rcx25(c, p):
    KC = c.mod('klayout_pex.kpex_cli')
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    fs, log, ini, rep = FS(c), [], [], []
    names = ['VSUBS', c.str('net0', 1, 65, 90), c.str('net1', 2, 65, 90)]
    distinct(c, names)
    # names differing only in case are one SPICE node
    one = p['nc'] + p['nr'] == 1
    cell = c.choice('cell', ['TOP', 'x;y']) if one else 'TOP'
    ctx, nl = context(c, cell, names)
    flow(c, KC, fs, log)
    res = ER.CellExtractionResults(cell_name=cell)
    want = {}
    prs = [(0, 1), (1, 2), (2, 0)]
    for i in range(p['nc']):
        q = c.choice('pair%d' % i, [0, 1, 2]) if i < 2 else 1
        a, b = prs[q]
        if i == 1:
            a, b = b, a
        v = c.real('v%d' % i, 0, 1000)
        kind = c.choice('kind%d' % i, ['overlap', 'side', 'fringe']) if i == 0 else ['overlap', 'side', 'fringe'][i]
        if kind == 'overlap':
            kk = ER.OverlapKey(layer_top='m2', net_top=names[a], layer_bot='m1', net_bot=names[b])
            res.add_overlap_cap(ER.OverlapCap(key=kk, cap_value=v, shielded_area=0, unshielded_area=0, tech_spec=None))
        elif kind == 'side':
            kk = ER.SidewallKey(layer='m1', net1=names[a], net2=names[b])
            res.add_sidewall_cap(ER.SidewallCap(key=kk, cap_value=v, distance=1, length=1, tech_spec=None))
        else:
            kk = ER.SideOverlapKey(layer_inside='m1', net_inside=names[a], layer_outside='m2', net_outside=names[b])
            res.add_sideoverlap_cap(ER.SideOverlapCap(key=kk, cap_value=v))
        want.setdefault(q, []).append(v)
    rw = {}
    N = c.pb('r.r_network').RNetwork
    nw = res.r_extraction_result.networks.add()
    for i in range(3):
        e = nw.nodes.add()
        e.node_id, e.net_name = 5 + i, names[i]
    for i in range(p['nr']):
        q = c.choice('rpair%d' % i, [0, 1, 2])
        e = nw.elements.add()
        e.node_a.node_id, e.node_b.node_id = 5 + prs[q][0], 5 + prs[q][1]
        v = c.real('r%d' % i, 0, 1000000)
        c.assume(v > 0.01)
        e.resistance = v
        rw.setdefault(q, []).append(v)
    results = ER.ExtractionResults()
    results.cell_extraction_results[cell] = res

    class Engine:
        def __init__(self, **kw):
            ini.append(kw)

        def extract(self):
            return results
    bad = c.flag('broken') if one else p['nr'] == 1

    class Rdb:
        def __init__(self, *a):
            pass

        def load(self, path):
            rep.append(('load', path))
            if bad:
                raise RuntimeError('cannot load')
    KC.RCX25Extractor = Engine
    KC.rdb = types.SimpleNamespace(ReportDatabase=Rdb)
    KC.repair_rdb = lambda path: rep.append(('repair', path))
    tech = object()
    scale = c.flag('scale') if one else False
    args = types.SimpleNamespace(pex_mode='MODE', scale_ratio_to_fit_halo=scale, blackbox_devices=True)
    back = KC.KpexCLI().run_kpex_2_5d_engine(args=args, pex_context=ctx, tech_info=tech, report_path='/o/r.rdb', netlist_csv_path='/o/n.csv', expanded_netlist_path='/o/n.spice')
    c.check(back is results, 'the results are handed on')
    c.check(len(ini) == 1 and ini[0]['pex_context'] is ctx and ini[0]['tech_info'] is tech and ini[0]['pex_mode'] == 'MODE' and
            bool(ini[0]['scale_ratio_to_fit_halo']) == scale and ini[0]['report_path'] == '/o/r.rdb', 'the engine runs once, as requested')
    c.check(('repair', '/o/r.rdb') in rep if bad else not [r for r in rep if r[0] == 'repair'], 'the marker database is repaired exactly when it cannot be loaded')
    ls = fs.lines('/o/n.csv')
    c.check(set(fs.files) == {'/o/n.csv'}, 'files')
    c.check(ls[0].split(';')[:3] == ['Device', 'Net1', 'Net2'] and len(ls[0].split(';')) == 5, 'header')
    rows = [l.split(';') for l in ls[1:]]
    c.check(len(rows) == len(want) + len(rw) and all(len(r) == 5 for r in rows), 'one line per summarised parasitic')
    dn = [c.text(r[0]) for r in rows]
    c.check(len(set(dn)) == len(dn), 'device names are unique')
    for q, (a, b) in enumerate(prs):
        for tab, col, comb in ((want, 3, lambda v: sum(v, 0.0)), (rw, 4, lambda v: v[0] if len(v) == 1 else v[0] * v[1] / (v[0] + v[1]))):
            mine = [r for r in rows if pair(c, r[1], r[2], names[a], names[b]) and not bool(c.eq(r[col], ''))]
            c.check(len(mine) == (1 if q in tab else 0), 'each pair of nets is listed once')
            if q in tab:
                w = comb(tab[q])
                d = c.num(mine[0][col]) - w
                c.check(c.all([d <= 0.000501, d >= -0.000501]), 'listed value of a pair of nets')
                c.check(bool(c.eq(mine[0][7 - col], '')) and c.text(mine[0][0]).startswith('C' if col == 3 else 'R'), 'one kind per line')
    ex = [e for e in log if e[0] == 'expand']
    w = [e for e in log if e[0] != 'expand']
    c.check(len(w) == 1 and w[0][0] == '/o/n.spice' and bool(w[0][2].use_net_names), 'the expanded netlist is written')
    for q, (a, b) in enumerate(prs):
        if q in want:
            mine = [v for x, y, v in caps(c, w[0][1], cell) if pair(c, x, y, names[a], names[b])]
            c.check_close(sum(mine, 0.0) * 1e15, sum(want[q], 0.0), 'capacitance in the expanded netlist')
