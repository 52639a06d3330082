"""The Magic script: reads the layout, flattens and extracts the requested cell with exactly the requested options."""
import os
from vfs import FS

META = {
    'bounds': ['every mode, every threshold, tolerance and halo (as numbers)', 'cell names of up to 3 characters', 'absolute and relative paths'],
    'outside': ['paths and cell names with characters special to Tcl', 'what Magic does with the script'],
}


def cases(tier):
    return [dict(name='%s-%s' % (m, k), fn='script', params=dict(mode=m, k=k)) for m in ('CC', 'RC', 'R') for k in ('values', 'names')]


def script(c, p):
    M = c.mod('klayout_pex.magic.magic_runner')
    vary = p['k'] == 'names'
    cell = c.str('cell', 3, 97, 122) if vary else 'inv'
    path = lambda n: c.choice(n, ['/d/%s' % n, '%s/x' % n]) if vary else '/d/' + n
    gds, rd, out = path('gds'), path('rd'), path('out')
    mode = M.MagicPEXMode(p['mode'])
    sm = c.choice('short', list(M.MagicShortMode)) if vary else M.MagicShortMode.NONE
    mm = c.choice('merge', list(M.MagicMergeMode)) if vary else M.MagicMergeMode.NONE
    ct, rt, tol = c.real('ct', 0, 1000), c.real('rt', 0, 1000), c.real('tol', 0, 100)
    halo = c.real('halo', 0, 1000) if c.flag('has_halo') else None
    fs = FS(c)
    M.open = fs.open
    M.prepare_magic_script(gds_path=gds, cell_name=cell, run_dir_path=rd, script_path='/s.tcl', output_netlist_path=out, pex_mode=mode,
                           c_threshold=ct, r_threshold=rt, tolerance=tol, halo=halo, short_mode=sm, merge_mode=mm)
    c.check(list(fs.files) == ['/s.tcl'], 'the script is written where requested')
    cmds = []
    for ln in fs.lines('/s.tcl'):
        ln = c.text(ln)
        if not (isinstance(ln, str) and (not ln.strip() or ln.lstrip().startswith('#'))):
            cmds.append([c.text(w) for w in ln.split()])

    def at(*words):
        """positions of the commands starting with these words"""
        return [i for i, w in enumerate(cmds) if len(w) >= len(words) and all(bool(c.eq(a, b)) for a, b in zip(w, words))]

    def one(label, *words):
        r = at(*words)
        c.check(len(r) == 1, label)
        return r[0]

    ap = os.path.abspath
    read = one('the layout is read', 'gds', 'read', ap(gds))
    c.check(len(at('gds')) == 1, 'one layout')
    load = one('the cell is loaded', 'load', cell)
    flat = one('the cell is flattened', 'flatten')
    extract = one('everything is extracted', 'extract', 'all')
    spice = one('the netlist goes to the requested file', 'ext2spice', '-p', ap(rd), '-o', ap(out))
    epath = one('extraction files go to the run directory', 'extract', 'path', ap(rd))
    f = cmds[flat][1]
    load2 = one('the flat cell is loaded', 'load', f)
    ren = one('the flat cell takes the name of the cell', 'cellname', 'rename', f, cell)
    de = one('the hierarchical cell makes room', 'cellname', 'delete', cell)
    c.check(c.not_(c.eq(f, cell)), 'the flat copy has a name of its own')
    c.check(read < load < flat < load2 < de < ren < extract < spice and epath < extract, 'order of the steps')
    c.check(len(at('load')) == 2, 'no other cell is loaded')
    c.check(spice == len(cmds) - 2 and cmds[-1][:1] == ['quit'], 'the run ends after the netlist is written')
    hs = at('extract', 'halo')
    c.check(len(hs) == (halo is not None), 'halo exactly if given')
    if hs:
        c.check(hs[0] < extract, 'halo before the extraction')
        v = c.num(cmds[hs[0]][2])
        c.check(c.all([v * 2 - 400 * halo <= 1, 400 * halo - v * 2 <= 1]), 'halo in units of 5 nm')
    r, cc = p['mode'] in ('RC', 'R'), p['mode'] in ('CC', 'RC')

    def value(label, want, v, before, *words):
        r = at(*words)
        c.check(len(r) == want, label)
        if r:
            c.check(r[0] < before, label + ': in time')
            c.check_close(c.num(cmds[r[0]][-1]), v, label)

    value('capacitance threshold', int(cc), ct, spice, 'ext2spice', 'cthresh')
    value('resistance threshold', int(r), rt, spice, 'ext2spice', 'rthresh')
    value('resistance tolerance', int(r), tol, spice, 'extresist', 'tolerance')
    x = at('extract', 'do', 'resistance')
    c.check(len(x) == int(r) and all(i < extract for i in x), 'resistance exactly if requested')
    for w in ('capacitance', 'coupling'):
        x = at('extract', 'no', w)
        c.check(len(x) == int(not cc) and all(i < extract for i in x), 'capacitance exactly if requested')
    x = at('extresist', 'all')
    c.check(len(x) == int(r) and all(extract < i < spice for i in x), 'resistance networks are extracted')
    if r:
        c.check(at('extresist', 'tolerance')[0] < x[0], 'tolerance before the networks are extracted')
        s = at('ext2sim')
        c.check(bool(s) and all(extract < i < x[0] for i in s), 'the sim file the resistance extraction needs')
    x = at('ext2spice', 'extresist', 'on')
    c.check(len(x) == int(r) and all(i < spice for i in x), 'resistances are in the netlist')
    for k, v in (('short', sm), ('merge', mm)):
        x = at('ext2spice', k)
        c.check(len(x) == 1 and x[0] < spice and cmds[x[0]][2] == str(v.value), k + ' mode')
    x = at('ext2spice', 'subcircuits', 'top', 'on')
    c.check(len(x) == 1 and x[0] < spice and at('ext2spice', 'format', 'ngspice') != [], 'an ngspice subcircuit')
