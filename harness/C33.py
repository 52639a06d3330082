"""The netlist drawing tool draws the requested circuit, into the requested file."""
import os
import shutil
import sys
import tempfile
import types
from vos import VOS

META = {
    'bounds': ['netlists of up to 3 circuits with any calls between them, every requested circuit (in any case), output and preview options, missing programs'],
    'outside': ['reading SPICE (KLayout), the drawing (C23), running netlistsvg (C26)', 'the command line syntax (argparse)'],
}
NAMES = ['INV', 'TOP', 'AMP2']


def cases(tier):
    return [dict(name='circuits-%d' % n, fn='draw', params=dict(n=n, opts=False)) for n in (0, 1, 2, 3)] + [dict(name='options', fn='draw', params=dict(n=1, opts=True))]


def draw(c, p):
    d = tempfile.mkdtemp(prefix='kpexv')
    try:
        draw_(c, p, os.path.join(d, 'x.spice'))
    finally:
        shutil.rmtree(d)


def draw_(c, p, real):
    M = c.mod('klayout_pex.netlist.netlist_cli')
    k = c.kdb
    v = VOS(c)
    v.mkdirs('/vfs/d')
    v.put('/vfs/d/x.spice', 'netlist')
    n = p['n']
    calls = [(a, b) for a in range(n) for b in range(a) if c.flag('call%d%d' % (a, b))]
    log = []
    if not c.sym:
        with open(real, 'w') as o:
            o.write('* t\n')
            for i in range(n):
                o.write('.subckt %s a b\nr1 a b 1k\n' % NAMES[i].lower())
                for a, b in calls:
                    if a == i:
                        o.write('x%d a b %s\n' % (b, NAMES[b]))
                o.write('.ends\n')

    class Netlist(k.Netlist):
        def read(self, path, reader=None):
            assert v.get(path)[0] == 'netlist'
            if c.sym:
                self._cs = False
                fill(self)
                return
            super().read(real, k.NetlistSpiceReader())

    def fill(nl):
        cs = []
        for i in range(n):
            x = k.Circuit()
            x.name = NAMES[i]
            nl.add(x)
            cs.append(x)
        for a, b in calls:
            cs[a].create_subcircuit(cs[b], 'X%d' % b)
    M.kdb = types.SimpleNamespace(Netlist=Netlist, NetlistSpiceReader=k.NetlistSpiceReader, Circuit=k.Circuit)

    class Writer:
        def write_json(self, netlist, top_circuit, output_path):
            log.append(('json', netlist, top_circuit, output_path))
            v.put(output_path, 'json')
    M.NetlistJSONWriter = Writer

    def tool(exe_path, skin_path, yosys_json_netlist_path, output_svg_path, layout_elk_path, log_path):
        log.append(('svg', exe_path, skin_path, yosys_json_netlist_path, output_svg_path, log_path))
        v.get(yosys_json_netlist_path)
        v.put(output_svg_path, 'svg')
        v.put(log_path, 'log')
    M.run_netlistsvg = tool
    for x in ('error', 'info', 'warning', 'subproc', 'rule'):
        setattr(M, x, lambda *a, **kw: None)
    levels = []
    M.set_log_level = levels.append
    argv = ['netlist']
    level = c.choice('level', [None, 'info', 'DEBUG']) if p['opts'] else None
    if level:
        argv += ['--log_level', level]
    argv += ['svg', '/vfs/d/x.spice']
    exe = c.choice('exe', ['netlistsvg', '/vfs/none']) if p['opts'] else 'netlistsvg'
    argv += ['--exe', exe] if exe != 'netlistsvg' else []
    req = c.choice('cell', [None, 'INV', 'top', 'Amp2', 'zz'])
    if req:
        argv += [c.choice('opt', ['--cell', '-c']), req]
    out = c.choice('out', [None, '/vfs/d/o.svg']) if p['opts'] else None
    if out:
        argv += ['--output', out]
    preview = p['opts'] and c.flag('preview')
    if preview:
        argv += ['--preview']
    shown = []
    saved = shutil.which, sys.modules.get('webbrowser')
    shutil.which = lambda x, *a, **kw: '/usr/bin/' + x if x == 'netlistsvg' else None
    sys.modules['webbrowser'] = types.SimpleNamespace(open=shown.append)
    try:
        with v.installed():
            try:
                M.NetlistCLI().main(argv)
                ok = True
            except (SystemExit, M.ArgumentValidationError) as e:
                ok = isinstance(e, SystemExit) and e.code in (0, None)
    finally:
        shutil.which = saved[0]
        sys.modules.pop('webbrowser')
        if saved[1]:
            sys.modules['webbrowser'] = saved[1]
    called = {b for a, b in calls}
    tops = [NAMES[i] for i in range(n) if i not in called]
    want = None
    if req is None:
        want = tops[0] if len(tops) == 1 else None
    elif req.upper() in NAMES[:n]:
        want = req.upper()
    if exe != 'netlistsvg':
        want = None
    c.check(ok == (want is not None), 'fails exactly if there is nothing (unambiguous) to draw')
    if not ok:
        c.check(not log, 'nothing is drawn')
        return
    c.check([e[0] for e in log] == ['json', 'svg'], 'drawn once')
    j, s = log
    c.check(j[2].name == want, 'the requested circuit is drawn')
    c.check(sorted(x.name for x in j[1].each_circuit()) == sorted(NAMES[:n]), 'with the whole netlist')
    c.check(s[1] == exe and s[3] == j[3] and os.path.isfile(s[2]), 'netlistsvg draws what was written')
    c.check(s[4] == out if out else os.path.basename(s[4]).startswith('x.spice') and s[4].endswith('.svg') and want.lower() in s[4], 'where the drawing goes')
    c.check(len({s[3], s[4], s[5]}) == 3, 'files of their own')
    c.check(shown == (['file://' + os.path.normpath(os.path.join('/vfs/work', s[4]))] if preview else []), 'preview exactly on request')
    c.check([l.name for l in levels] == [level.upper() if level else 'SUBPROCESS'], 'log level')
