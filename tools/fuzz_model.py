"""development aid: compares the edge-neighborhood model with klayout.db on random boxes"""
import random
import sys
sys.path.insert(0, '/verif')
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import klayout.db as k
import klayout.db
real = {n: getattr(k, n) for n in dir(k)}
from symx import skdb
skdb.kdb = k


def run(m, prim, sec, dout, out):
    class Rec(m.EdgeNeighborhoodVisitor):
        def on_edge(self, layout, cell, edge, nb):
            r = []
            for iv, d in nb:
                if d and any(d.values()):
                    r.append((tuple(iv), {kk: sorted((str(p.bbox()) if m is k else '(%s,%s;%s,%s)' % (p.bbox().left, p.bbox().bottom, p.bbox().right, p.bbox().top), p.property('net')) for p in v) for kk, v in d.items() if v}))
            if r:
                out.append((edge.p1.x, edge.p1.y, edge.p2.x, edge.p2.y, edge.property('net'), r))

    def reg(bs, pre):
        r = m.Region()
        r.enable_properties()
        for i, b in enumerate(bs):
            q = m.Polygon(m.Box(*b)) if len(b) == 4 else m.Polygon([m.Point(x, y) for x, y in b[4]])
            r.insert(m.PolygonWithProperties(q, {'net': pre + str(i)}))
        return r
    p, s = reg(prim, 'p'), reg(sec, 's')
    C = m.CompoundRegionOperationNode
    ch = [C.new_foreign(), C.new_secondary(s), C.new_primary()]
    v = Rec()
    n = C.new_edge_neighborhood(children=ch, visitor=v, bext=-1, eext=-1, din=-1, dout=dout)
    p.complex_op(n)
    return sorted(out, key=str)


bad = 0
for seed in range(int(sys.argv[1]) if len(sys.argv) > 1 else 2000):
    R = random.Random(seed)

    def mk():
        l, b = R.randint(-12, 12), R.randint(-12, 12)
        return (l, b, l + R.randint(1, 10), b + R.randint(1, 10))
    if len(sys.argv) > 2:
        def mk():
            g = k.Region()
            l, b = R.randint(-14, 10), R.randint(-14, 10)
            for _ in range(R.randint(1, 4)):
                x, y = R.randint(l - 4, l + 6), R.randint(b - 4, b + 6)
                g.insert(k.Box(x, y, x + R.randint(1, 8), y + R.randint(1, 8)))
            q = [t for t in g.merged().each() if t.holes() == 0]
            if not q:
                return (l, b, l + 3, b + 3)
            bb = q[0].bbox()
            return (bb.left, bb.bottom, bb.right, bb.top, tuple((t.x, t.y) for t in q[0].each_point_hull()))
    prim = []
    for _ in range(R.randint(1, 3)):
        q = mk()
        if all(q[0] > o[2] or q[2] < o[0] or q[1] > o[3] or q[3] < o[1] for o in prim):
            prim.append(q)
    sec = []
    for _ in range(R.randint(0, 2)):
        q = mk()
        if all(q[0] > o[2] or q[2] < o[0] or q[1] > o[3] or q[3] < o[1] for o in sec):
            sec.append(q)
    dout = R.randint(1, 12)
    a, b = run(k, prim, sec, dout, []), run(skdb.make_module(k) if False else skdb, prim, sec, dout, [])
    if a != b:
        bad += 1
        if bad < 4:
            print('SEED', seed, prim, sec, dout)
            print(' real ', a)
            print(' model', b)
print('mismatches', bad)
