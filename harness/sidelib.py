"""independent statement of what the sidewall and fringe extraction has to produce for boxes"""
import math
from lib import *

SUB = 'VSUBS'


def poly(pts, boxes):
    """a Manhattan polygon: its corners (clockwise) and boxes that make it up"""
    return ('poly', tuple(pts), tuple(boxes))


def is_poly(g):
    return isinstance(g[0], str)


def boxes_of(g):
    return g[2] if is_poly(g) else (g,)


def edges_of(g):
    """[(side, x0, y0, x1, y1)] the box left/above/right/below of which the outside begins"""
    if not is_poly(g):
        return [(s,) + tuple(g) for s in range(4)]
    out = []
    for (x0, y0), (x1, y1) in zip(g[1], g[1][1:] + g[1][:1]):
        # the box degenerates to the edge
        if bool(x0 == x1):
            out.append((0 if bool(y1 > y0) else 2, x0, mn(y0, y1), x0, mx(y0, y1)))
        else:
            out.append((1 if bool(x1 > x0) else 3, mn(x0, x1), y0, mx(x0, x1), y0))
    return out


def runs(c, shapes, k, halo):
    """for every edge of shape k: [(u, w, [(j, lo, hi)])] - stretches of the edge and the shapes seen from there,
    as distances from the edge, within the halo"""
    out = []
    for side, x0, y0, x1, y1 in edges_of(shapes[k][2]):
        length = (y1 - y0) if side in (0, 2) else (x1 - x0)
        seen = []
        for j, b in [(j, b) for j, (l, n, g) in enumerate(shapes) if j != k or is_poly(g) for b in boxes_of(g)]:
            a0, b0, a1, b1 = b
            if side == 0:
                s0, s1, lo, hi = b0 - y0, b1 - y0, x0 - a1, x0 - a0
            elif side == 1:
                s0, s1, lo, hi = a0 - x0, a1 - x0, b0 - y1, b1 - y1
            elif side == 2:
                s0, s1, lo, hi = y1 - b1, y1 - b0, a0 - x1, a1 - x1
            else:
                s0, s1, lo, hi = x1 - a1, x1 - a0, y0 - b1, y0 - b0
            if bool(hi <= 0) or bool(s1 <= 0) or bool(s0 >= length):
                continue
            if bool(lo >= halo):
                continue
            new = (j, mx(s0, 0), mn(s1, length), mx(lo, 0), mn(hi, halo))
            for i, o in enumerate(seen):
                # parts of one shape that look like one from here
                if o[0] == j and bool(o[3] == new[3]) and bool(o[4] == new[4]) and (bool(o[1] == new[2]) or bool(o[2] == new[1])):
                    seen[i] = (j, mn(o[1], new[1]), mx(o[2], new[2]), o[3], o[4])
                    break
            else:
                seen.append(new)
        pts = []
        for _, s0, s1, _, _ in seen:
            for q in (s0, s1):
                i = 0
                dup = False
                while i < len(pts):
                    if bool(pts[i] == q):
                        dup = True
                        break
                    if bool(pts[i] > q):
                        break
                    i += 1
                if not dup:
                    pts.insert(i, q)
        for u, w in zip(pts, pts[1:]):
            here = [(j, lo, hi) for j, s0, s1, lo, hi in seen if bool(s0 <= u) and bool(s1 >= w)]
            if here:
                out.append((u, w, here))
    return out


def minus1d(lo, hi, cuts):
    """pieces of [lo, hi] not covered by the cuts (hi of a cut may be None = unbounded)"""
    pieces = [(lo, hi)]
    for a, b in cuts:
        nxt = []
        for l, h in pieces:
            if bool(a >= h) or (b is not None and bool(b <= l)):
                nxt.append((l, h))
                continue
            if bool(a > l):
                nxt.append((l, a))
            if b is not None and bool(b < h):
                nxt.append((b, h))
        pieces = nxt
    return pieces


def expected(c, layers, shapes, dbu, halo_um, sw, ov, so, scale):
    """-> (sidewall {(layer, n1, n2): value}, fringe list [(li, ni, lo, no, value)])"""
    side, fringe = [], []
    halo = int(halo_um / dbu) + 2
    for k, (l, n, _) in enumerate(shapes):
        li = layers.index(l)
        for u, w, here in runs(c, shapes, k, halo):
            if bool(w - u <= 1):
                continue
            run_um = (w - u) * dbu
            lat = None
            for j, lo, hi in here:
                if shapes[j][0] == l and (lat is None or bool(lo < lat[1])):
                    lat = (j, lo)
            if lat is not None:
                j, d = lat
                if not bool(c.eq(shapes[j][1], n)):
                    cap, off = sw[l]
                    side.append((l, n, shapes[j][1], cap * run_um / (d * dbu + off) / 2 / 1000))
            for j, lo, hi in here:
                l2, n2, _ = shapes[j]
                if l2 == l or bool(c.eq(n, n2)):
                    continue
                o = layers.index(l2)
                cuts = [(a, z) for q, a, z in here if min(li, o) < layers.index(shapes[q][0]) < max(li, o)]
                if lat is not None:
                    cuts.append((lat[1], None))
                for p, q in minus1d(lo, hi, cuts):
                    al = ov[(l, l2) if (l, l2) in ov else (l2, l)] * 0.02
                    f = lambda x: (2.0 / math.pi) * c.atan(al * (x * dbu))
                    v = f(q) - f(p)
                    if scale:
                        full = (2.0 / math.pi) * c.atan(al * halo_um)
                        v = v / full
                    v = v * run_um * so[(l, l2)] / 1000
                    fringe.append((l, n, l2, n2, v))
    return side, fringe


def extract(c, layers, shapes, dbu, halo_um, sw, ov, so, scale):
    ER = c.mod('klayout_pex.rcx25.extraction_results')
    SX = c.mod('klayout_pex.rcx25.c.sidewall_and_fringe_extractor').SidewallAndFringeExtractor
    tech = tech_pb(c)
    tech.process_parasitics.side_halo = halo_um
    subs = [l for l in layers if l != SUB]
    add_caps(tech,
             substrates=[(l, ov.get((l, SUB), 10.0), so.get((l, SUB), 20.0)) for l in subs],
             overlaps=[(t, b, v) for (t, b), v in ov.items() if b != SUB],
             sidewalls=[(l, v, o) for l, (v, o) in sw.items()],
             sideoverlaps=[(i, o, v) for (i, o), v in so.items() if o != SUB])
    ti = tech_info(c, tech)
    regs = {}
    for l in layers:
        if l == SUB:
            r = c.kdb.Region()
            r.enable_properties()
            for s in shapes:
                if s[0] == SUB:
                    r.insert(c.kdb.Box(*s[2]))
            regs[l] = r
        else:
            regs[l] = region(c, [(s[2], s[1]) for s in shapes if s[0] == l])
    res = ER.CellExtractionResults(cell_name='top')
    SX(all_layer_names=list(regs), layer_regions_by_name=regs, dbu=dbu, scale_ratio_to_fit_halo=scale,
       tech_info=ti, results=res, report=Sink()).extract()
    return res


def total(c, entries, match):
    t = 0
    for e in entries:
        if match(e):
            t = t + e[-1]
    return t


def compare_sidewall(c, res, side):
    got = []
    for key, lst in res.sidewall_table.items():
        for e in lst:
            c.check(c.all([c.eq(e.key.net1, key.net1), c.eq(e.key.net2, key.net2), c.eq(e.key.layer, key.layer)]),
                    'sidewall entries are filed under their own key')
            c.check(not bool(c.eq(key.net1, key.net2)), 'no sidewall capacitance of a net to itself')
            got.append((key.layer, key.net1, key.net2, e.cap_value))

    def same(p, q):
        return c.text(p[0]) == c.text(q[0]) and (bool(c.eq(p[1], q[1])) and bool(c.eq(p[2], q[2])) or
                                                 bool(c.eq(p[1], q[2])) and bool(c.eq(p[2], q[1])))
    for e in side:
        c.check_close(total(c, got, lambda g: same(g, e)), total(c, side, lambda g: same(g, e)),
                      'sidewall capacitance between two nets of a layer')
    for g in got:
        c.check_close(total(c, got, lambda x: same(x, g)), total(c, side, lambda x: same(x, g)),
                      'no sidewall capacitance beyond the specified')
    c.observe('sidewall', total(c, got, lambda g: True))
    return got


def compare_fringe(c, res, fringe, threshold=0.0001):
    got = []
    for key, lst in res.sideoverlap_table.items():
        for e in lst:
            got.append((c.text(key.layer_inside), key.net_inside, c.text(key.layer_outside), key.net_outside, e.cap_value))
            c.check(not bool(c.eq(key.net_inside, key.net_outside)), 'no fringe capacitance of a net to itself')

    def same(p, q):
        return p[0] == q[0] and p[2] == q[2] and bool(c.eq(p[1], q[1])) and bool(c.eq(p[3], q[3]))
    for e in fringe + got:
        # contributions up to the threshold may be dropped, one by one
        cand = [x for x in fringe if same(x, e)]
        g = total(c, got, lambda x: same(x, e))
        t = 0
        for x in cand:
            t = t + x[-1]
        slack = threshold * 1.000001 * len(cand) + 1e-9
        c.check(g <= t + abs(t) * 1e-6 + 1e-9, 'fringe capacitance does not exceed the unshielded fringe')
        c.check(g >= t - slack - abs(t) * 1e-6, 'fringe capacitance covers the whole unshielded fringe')


def ell(x0, y0, x1, y1, mx_, my_):
    """an L: the box without its upper right part beyond (mx_, my_)"""
    return poly([(x0, y0), (x0, y1), (mx_, y1), (mx_, my_), (x1, my_), (x1, y0)], [(x0, y0, x1, my_), (x0, my_, mx_, y1)])


def you(x0, y0, x1, y1, a, b, d):
    """a U: the box without its upper middle part between x = a and b, above y = d"""
    return poly([(x0, y0), (x0, y1), (a, y1), (a, d), (b, d), (b, y1), (x1, y1), (x1, y0)],
                [(x0, y0, x1, d), (x0, d, a, y1), (b, d, x1, y1)])
