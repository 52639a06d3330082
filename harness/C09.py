"""Resistor networks: elimination keeps the network seen from the remaining nodes; every history keeps it consistent."""
from itertools import combinations, product

META = {
    'bounds': ['elimination: up to 4 nodes (thorough: 5) with every topology, any conductances >= 1e-3, up to 2 eliminated nodes',
               'histories: up to 4 operations (thorough: 5) out of add resistor / eliminate / remove / contract on 4 nodes, every argument, any conductances'],
    'outside': ['networks whose total conductance at a node is below 1e-10', 'larger networks'],
}


def cases(tier):
    out = []
    for n in (2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        out.append(dict(name='eliminate-%d' % n, fn='eliminate', params=dict(n=n)))
    for n, k in ((3, 1), (4, 1), (3, 2)) + (((4, 2),) if tier == 'thorough' else ()):
        out.append(dict(name='all-%d-%d' % (n, k), fn='elim_all', params=dict(n=n, k=k)))
    out.append(dict(name='all-chain', fn='chain', params={}))
    out.append(dict(name='all-star', fn='star', params=dict(n=4)))
    out.append(dict(name='all-star5', fn='star', params=dict(n=5)))
    ops = ['add', 'elim', 'remove', 'connect']
    n = 2 if tier == 'quick' else 3
    for o in product(ops, repeat=n):
        out.append(dict(name='history-' + '-'.join(o), fn='history', params=dict(ops=o, full=False)))
    out.append(dict(name='history-full-elim', fn='history', params=dict(ops=('elim', 'elim'), full=True)))
    out.append(dict(name='history-full-connect', fn='history', params=dict(ops=('connect', 'elim'), full=True)))
    out.append(dict(name='history-full-connect2', fn='history', params=dict(ops=('connect', 'connect'), full=True)))
    out.append(dict(name='series-parallel', fn='sp', params={}))
    out.append(dict(name='nodes', fn='nodes', params={}))
    out.append(dict(name='check', fn='selfcheck', params={}))
    return out


def mods(c):
    return c.mod('klayout_pex.rcx25.r.resistor_network'), c.mod('klayout_pex.rcx25.r.conductance')


def build(c, n, edges):
    """edges: {(i, j): conductance}"""
    R, C = mods(c)
    nw = R.ResistorNetwork()
    ids = [nw.node_id(c.kdb.Point(10 * i, 7 * i)) for i in range(n)]
    for (i, j), g in edges.items():
        nw.add_cond(ids[i], ids[j], C.Conductance(g))
    return nw, ids


def table(nw):
    return {k: v.cond for k, v in nw.s.items()}


class Model:
    """independent model: symmetric matrix of conductances"""

    def __init__(self, n):
        self.g = {}
        self.alive = set(range(n))

    def key(self, a, b):
        return (min(a, b), max(a, b))

    def add(self, a, b, g):
        k = self.key(a, b)
        self.g[k] = (self.g[k] + g) if k in self.g else g

    def drop(self, k):
        self.g = {ab: v for ab, v in self.g.items() if k not in ab}
        self.alive.discard(k)

    def nb(self, k):
        return {(a if b == k else b): v for (a, b), v in self.g.items() if k in (a, b)}

    def eliminate(self, k):
        nb = self.nb(k)
        tot = 0
        for v in nb.values():
            tot = tot + v
        self.drop(k)
        for a, b in combinations(sorted(nb), 2):
            self.add(a, b, nb[a] * nb[b] / tot)

    def contract(self, a, b):
        nb = self.nb(b)
        self.drop(b)
        for o, v in nb.items():
            if o != a:
                self.add(a, o, v)


def compare(c, nw, ids, m, what):
    got = table(nw)
    exp = set()
    for (a, b) in m.g:
        exp |= {(ids[a], ids[b]), (ids[b], ids[a])}
    c.check(set(got) == exp, what + ': connected node pairs')
    for (a, b), v in m.g.items():
        c.check_close(got[(ids[a], ids[b])], v, what + ': conductance')
        c.check_close(got[(ids[b], ids[a])], v, what + ': conductance (other direction)')


def consistent(c, nw, what):
    c.check(nw.check() == 0, what + ': self-check reports no error')
    s, stars = nw.s, nw.node_to_s
    n = 0
    for a, lst in stars.items():
        for cond, b in lst:
            n += 1
            c.check((a, b) in s and s[(a, b)] is cond, what + ': star entry is the resistor of this pair')
    c.check(n == len(s), what + ': one star entry per resistor end')
    c.check(all(k in nw.locations for k in stars) and all(nw.nodes[p] == i for i, p in nw.locations.items())
            and len(nw.nodes) == len(nw.locations), what + ': nodes and locations agree')


def edges_of(c, n):
    e = {}
    for i, j in combinations(range(n), 2):
        if c.flag('e%d%d' % (i, j)):
            g = c.real('g%d%d' % (i, j), 0.001, 1000)
            e[(i, j)] = g
    return e


def eliminate(c, p):
    n = p['n']
    e = edges_of(c, n)
    k = c.choice('k', range(n))
    nw, ids = build(c, n, e)
    m = Model(n)
    for (i, j), g in e.items():
        m.add(i, j, g)
    has = bool(m.nb(k))
    nw.eliminate_node(ids[k])
    if has:
        m.eliminate(k)
        c.check(ids[k] not in nw.locations and not nw.has_node(c.kdb.Point(10 * k, 7 * k)), 'eliminated node is gone')
    compare(c, nw, ids, m, 'eliminate')
    consistent(c, nw, 'eliminate')
    for i in range(n):
        if i != k:
            c.check(nw.has_node(c.kdb.Point(10 * i, 7 * i)), 'other nodes stay')
    c.observe('s', [v for _, v in sorted(table(nw).items())])


def elim_all(c, p):
    n, k = p['n'], p['k']
    e = edges_of(c, n)
    nw, ids = build(c, n, e)
    for i in range(n - k):
        nw.mark_precious(ids[i])
    m = Model(n)
    for (i, j), g in e.items():
        m.add(i, j, g)
    nw.eliminate_all()
    for i in range(n - k, n):
        m.eliminate(i)
    compare(c, nw, ids, m, 'eliminate_all')
    consistent(c, nw, 'eliminate_all')
    c.check(all(i in nw.precious for i in nw.node_to_s), 'only precious nodes keep resistors')
    for i in range(n - k):
        c.check(nw.has_node(c.kdb.Point(10 * i, 7 * i)), 'precious nodes stay')
    c.observe('s', [v for _, v in sorted(table(nw).items())])


def chain(c, p):
    """precious ends, 4 inner nodes in series: resistances add up"""
    g = [c.real('g%d' % i, 0.001, 1000) for i in range(4)]
    nw, ids = build(c, 5, {(i, i + 1): g[i] for i in range(4)})
    nw.mark_precious(ids[0])
    nw.mark_precious(ids[4])
    nw.eliminate_all()
    t = table(nw)
    c.check(set(t) == {(ids[0], ids[4]), (ids[4], ids[0])}, 'only the end-to-end resistor remains')
    r = 0
    for x in g:
        r = r + 1.0 / x
    c.check_close(t[(ids[0], ids[4])] * r, 1.0, 'series resistances add up')
    consistent(c, nw, 'chain')


def star(c, p):
    """centre with more than three neighbours is eliminated too"""
    n = p['n']
    g = [c.real('g%d' % i, 0.001, 1000) for i in range(n)]
    nw, ids = build(c, n + 1, {(i, n): g[i] for i in range(n)})
    for i in range(n):
        nw.mark_precious(ids[i])
    nw.eliminate_all()
    m = Model(n + 1)
    for i in range(n):
        m.add(i, n, g[i])
    m.eliminate(n)
    compare(c, nw, ids, m, 'star')
    consistent(c, nw, 'star')


def history(c, p):
    R, C = mods(c)
    n = 4
    if p['full']:
        base = {(i, j): c.real('b%d%d' % (i, j), 0.5, 4) for i, j in combinations(range(n), 2)}
    else:
        base = {(0, 1): c.real('b01', 0.5, 4), (1, 2): c.real('b12', 0.5, 4), (2, 3): c.real('b23', 0.5, 4)}
    nw, ids = build(c, n, base)
    m = Model(n)
    for (i, j), g in base.items():
        m.add(i, j, g)
    for t, op in enumerate(p['ops']):
        alive = sorted(m.alive)
        if op in ('add', 'connect'):
            pairs = [(a, b) for a in alive for b in alive if a != b]
            if not pairs:
                return
            a, b = c.choice('p%d' % t, pairs)
        else:
            a = c.choice('n%d' % t, alive)
        if op == 'add':
            g = c.real('g%d' % t, 0.5, 4)
            nw.add_cond(ids[a], ids[b], C.Conductance(g))
            m.add(a, b, g)
        elif op == 'elim':
            c.assume(bool(m.nb(a)))
            nw.eliminate_node(ids[a])
            m.eliminate(a)
        elif op == 'remove':
            c.assume(bool(m.nb(a)))
            nw.remove_node(ids[a])
            m.drop(a)
        else:
            c.assume(bool(m.nb(b)))
            nw.connect_nodes(ids[a], ids[b])
            m.contract(a, b)
        consistent(c, nw, op)
        compare(c, nw, ids, m, op)
    for i in range(n):
        c.check((ids[i] in nw.locations) == (i in m.alive), 'removed nodes are gone, the others stay')
    new = nw.node_id(c.kdb.Point(999, 999))
    c.check(new not in ids, 'node ids are never reused')
    c.observe('s', [v for _, v in sorted(table(nw).items())])


def sp(c, p):
    _, C = mods(c)
    a, b = c.real('a', 0.001, 1000), c.real('b', 0.001, 1000)
    x, y = C.Conductance(a), C.Conductance(b)
    c.check_close(x.parallel(y).cond, a + b, 'parallel conductances add')
    c.check_close(x.serial(y).cond * (a + b), a * b, 'serial conductance')
    c.check_close(x.serial(y).cond, y.serial(x).cond, 'serial is symmetric')
    c.check(c.all([x.cond == a, y.cond == b]), 'operands are unchanged')
    z = C.Conductance(0.0)
    c.check_close(x.serial(z).cond, 0.0, 'series with an open is open')
    c.check_close(z.serial(x).cond, 0.0, 'open in series is open')
    c.check_close(x.parallel(z).cond, a, 'parallel to an open is unchanged')
    r = x.add_parallel(y)
    c.check(r is x, 'in-place parallel returns itself')
    c.check_close(x.cond, a + b, 'in-place parallel')
    w = C.Conductance(a)
    w.add_serial(y)
    c.check_close(w.cond * (a + b), a * b, 'in-place serial')
    c.check(y.cond == b, 'argument unchanged')


def nodes(c, p):
    """one id per location"""
    R, _ = mods(c)
    nw = R.ResistorNetwork()
    P = c.kdb.Point
    pts = [(c.int('x%d' % i, -3, 3), c.int('y%d' % i, -3, 3)) for i in range(3)]
    ids = []
    for i, (x, y) in enumerate(pts):
        known = c.any([c.all([x == u, y == v]) for u, v in pts[:i]])
        c.check(nw.has_node(P(x, y)) == bool(known), 'has_node')
        ids.append(nw.node_id(P(x, y)))
        q = nw.location(ids[-1])
        c.check(c.all([q.x == x, q.y == y]), 'location of the node')
    for i in range(3):
        for j in range(i):
            s = c.all([pts[i][0] == pts[j][0], pts[i][1] == pts[j][1]])
            c.check((ids[i] == ids[j]) == bool(s), 'same id iff same location')
    c.check(nw.location(77) is None, 'unknown node has no location')
    # nodes on an edge
    a, b = c.int('ea', -3, 3), c.int('eb', -3, 3)
    c.assume(a < b)
    y = c.int('ey', -3, 3)
    on = nw.node_ids(c.kdb.Edge(P(a, y), P(b, y)))
    for i in range(3):
        c.check((ids[i] in on) == bool(c.all([pts[i][1] == y, pts[i][0] >= a, pts[i][0] <= b])), 'nodes on an edge')


def selfcheck(c, p):
    """the self-check notices a damaged network"""
    _, C = mods(c)
    g = c.real('g', 0.5, 4)
    how = c.choice('how', ['rev', 'star', 'cond', 'none'])
    nw, ids = build(c, 3, {(0, 1): g, (1, 2): g})
    if how == 'rev':
        del nw.s[(ids[1], ids[0])]
    elif how == 'star':
        del nw.node_to_s[ids[0]]
    elif how == 'cond':
        nw.node_to_s[ids[0]] = []
    c.check((nw.check() > 0) == (how != 'none'), 'self-check')
