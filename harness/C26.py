"""External tools: started with exactly the requested options, complete log, failure is an error."""
import os
from vfs import FS
from procs import Host

META = {
    'bounds': ['every exit status -64..255', 'outputs of up to 3 lines of up to 4 symbolic characters, with and without a final newline',
               'every numeric option value, every combination of switches'],
    'outside': ['signals and full disks while the tool runs', 'the LVS script (a mismatch is reported by a status, too, so it only warns)'],
}


def cases(tier):
    out = []
    for t in ('fastercap', 'fastcap', 'magic', 'netlistsvg', 'lvs'):
        for n in (0, 1, 2, 3):
            out.append(dict(name='%s-%d' % (t, n), fn=t, params=dict(n=n)))
    out.append(dict(name='fastcap-paths', fn='fastcap', params=dict(n=0, paths=True)))
    return out


def setup(c, M, p):
    lines = []
    for i in range(p['n']):
        ln = c.str('line%d' % i, 4 if i == 0 else 2, 32, 126)
        lines.append(ln + '\n' if i < p['n'] - 1 or not c.flag('open_end') else ln)
    if p['n'] == 3:
        lines[1] = '\n'
    h = Host(lines, c.int('status', -64, 255), errors=(0,) if p['n'] == 2 else ())
    fs = FS(c)
    if c.flag('earlier_log'):
        for f in ('/work/x.log', '/work/o/x.log', '/work/l/x.log'):
            fs.files[f] = 'log of an earlier run\n'
    M.open = lambda path, mode='r', *a, **k: fs.open(os.path.normpath(os.path.join(h.cwd, path)), mode, *a, **k)
    return h, fs


def run(c, M, h, fs, log, fn):
    """runs fn; checks status and log; returns the argument list and working directory"""
    with h.installed(M):
        try:
            fn()
            ok = True
        except Exception as e:
            c.own(e)
            ok = False
    c.check(len(h.starts) == 1, 'the tool is started once')
    text = ''
    for ln in h.lines:
        text = text + ln
    c.check(log in fs.files and bool(c.eq(fs.files[log], text)), 'the log holds the complete output')
    return ok, h.starts[0][0], h.starts[0][2]


def status(c, h, ok):
    c.check(c.eq(h.rc, 0) if ok else c.not_(c.eq(h.rc, 0)), 'success exactly if the tool reports success')


def option(c, args, prefix):
    """the value after the only option starting with prefix"""
    m = [a for a in args[1:] if isinstance(a, str) and a.startswith(prefix) or not isinstance(a, str) and bool(a.startswith(prefix))]
    c.check(len(m) == 1, 'option %s once' % prefix)
    return m[0][len(prefix):]


def fastercap(c, p):
    M = c.mod('klayout_pex.fastercap.fastercap_runner')
    h, fs = setup(c, M, p)
    tol, dc, mesh = c.real('tol', 0, 1000), c.real('d', 0, 1000), c.real('m', 0, 1000)
    ooc = c.int('ooc', 0, 100) if c.flag('has_ooc') else None
    ap, g, pj = c.flag('ap'), c.flag('g'), c.flag('pj')
    ok, args, _ = run(c, M, h, fs, '/work/o/x.log', lambda: M.run_fastercap(
        exe_path='FC', lst_file_path='/work/o/x.lst', log_path='/work/o/x.log', tolerance=tol, d_coeff=dc, mesh_refinement_value=mesh,
        ooc_condition=ooc, auto_preconditioner=ap, galerkin_scheme=g, jacobi_preconditioner=pj))
    status(c, h, ok)
    args = [c.text(a) for a in args]
    c.check(args[0] == 'FC' and '-b' in args, 'the given program, without its window')
    plain = [a for a in args[1:] if isinstance(a, str)]
    c.check(('-ap' in plain) == ap and ('-g' in plain) == g and ('-pj' in plain) == pj, 'exactly the requested switches')
    c.check(plain[-1] == '/work/o/x.lst' and plain.count('/work/o/x.lst') == 1, 'the input file')
    rest = [a for a in args[1:] if not (isinstance(a, str) and a in ('-b', '-i', '-v', '-ap', '-g', '-pj', '/work/o/x.lst'))]
    c.check(len(rest) == (4 if ooc is not None else 3), 'no other option')
    for pre, v in (('-a', tol), ('-d', dc), ('-m', mesh)) + ((('-f', ooc),) if ooc is not None else ()):
        c.check_close(c.num(option(c, rest_(rest), pre)), v, 'value of %s' % pre)


def rest_(rest):
    return [''] + rest


def fastcap(c, p):
    M = c.mod('klayout_pex.fastcap.fastcap_runner')
    h, fs = setup(c, M, p)
    if p.get('paths'):
        lst = c.choice('lst', ['/work/o/x.lst', 'o/x.lst', 'x.lst', '/x.lst'])
        log = c.choice('log', ['/work/l/x.log', 'l/x.log', 'x.log'])
    else:
        lst, log = '/work/o/x.lst', 'o/x.log'
    perm, tol = c.real('perm', 0, 1000), c.real('tol', 0, 1000)
    order = c.int('order', 0, 9)
    depth = c.choice('depth', ['auto', '3'])
    ok, args, cwd = run(c, M, h, fs, os.path.normpath(os.path.join('/work', log)), lambda: M.run_fastcap(
        exe_path='FC', lst_file_path=lst, log_path=log, expansion_order=order, partitioning_depth=depth,
        permittivity_factor=perm, iterative_tolerance=tol))
    status(c, h, ok)
    args = [c.text(a) for a in args]
    c.check(args[0] == 'FC', 'the given program')
    f = option(c, args, '-l')
    c.check(os.path.normpath(os.path.join(cwd, str(f))) == os.path.normpath(os.path.join('/work', lst)), 'the input file')
    c.check(cwd == os.path.dirname(os.path.normpath(os.path.join('/work', lst))), 'relative references of the input file are found')
    c.check_close(c.num(option(c, args, '-o')), order, 'expansion order')
    c.check_close(c.num(option(c, args, '-p')), perm, 'permittivity factor')
    c.check_close(c.num(option(c, args, '-t')), tol, 'tolerance')
    ds = [a for a in args[1:] if isinstance(a, str) and a.startswith('-d')]
    c.check(ds == ([] if depth == 'auto' else ['-d3']), 'partitioning depth')
    c.check(len(args) == 5 + len(ds), 'no other option')


def magic(c, p):
    M = c.mod('klayout_pex.magic.magic_runner')
    h, fs = setup(c, M, p)
    ok, args, _ = run(c, M, h, fs, '/work/x.log', lambda: M.run_magic(
        exe_path='MG', magicrc_path='/p/rc', script_path='/work/s.tcl', log_path='/work/x.log'))
    status(c, h, ok)
    c.check(args[0] == 'MG' and args[-1] == '/work/s.tcl', 'program and script')
    c.check('-rcfile' in args and args[args.index('-rcfile') + 1] == '/p/rc', 'the technology start-up file')
    c.check('-dnull' in args and '-noconsole' in args and len(args) == 6, 'batch mode, no other option')


def netlistsvg(c, p):
    M = c.mod('klayout_pex.netlistsvg.netlistsvg_runner')
    h, fs = setup(c, M, p)
    elk = c.choice('elk', [None, '/l.elk'])
    ok, args, _ = run(c, M, h, fs, '/work/x.log', lambda: M.run_netlistsvg(
        exe_path='NS', skin_path='/s.svg', yosys_json_netlist_path='/n.json', output_svg_path='/o.svg', layout_elk_path=elk, log_path='/work/x.log'))
    status(c, h, ok)
    c.check(args[0] == 'NS' and args[-1] == '/n.json', 'program and input')
    c.check(args[args.index('-o') + 1] == '/o.svg' and args[args.index('--skin') + 1] == '/s.svg', 'output and skin')
    c.check(('--layout' in args) == (elk is not None) and (elk is None or args[args.index('--layout') + 1] == elk), 'layout')
    c.check(len(args) == (6 if elk is None else 8), 'no other option')


def lvs(c, p):
    M = c.mod('klayout_pex.klayout.lvs_runner')
    h, fs = setup(c, M, p)
    verbose = c.flag('verbose')
    gds, sch, db = (c.choice(n, ['/d/' + n, n]) for n in ('gds', 'sch', 'db')) if p['n'] == 0 else ('/d/gds', '/d/sch', '/d/db')
    ok, args, cwd = run(c, M, h, fs, '/work/x.log', lambda: M.LVSRunner.run_klayout_lvs(
        exe_path='KL', lvs_script='/s.lvs', gds_path=gds, schematic_path=sch, log_path='/work/x.log', lvsdb_path=db, verbose=verbose))
    c.check(args[0] == 'KL' and '-b' in args and args[args.index('-r') + 1] == '/s.lvs', 'program, batch mode, script')
    v = {}
    for i, a in enumerate(args):
        if a == '-rd':
            k, _, w = args[i + 1].partition('=')
            c.check(k not in v, 'every variable once')
            v[k] = w
    for k, f in (('input', gds), ('schematic', sch), ('report', db)):
        c.check(os.path.normpath(os.path.join(cwd, v[k])) == os.path.normpath(os.path.join('/work', f)), 'file of ' + k)
    c.check(v['verbose'] == ('true' if verbose else 'false'), 'verbosity')
    c.check(v['combine_devices'] == 'false' and v['purge_nets'] == 'false' and v['spice_net_names'] == 'true' and v['top_lvl_pins'] == 'true'
            and v['purge'] == 'false' and v['combine'] == 'false', 'no device or net of the layout is merged or dropped')
