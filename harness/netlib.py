"""helpers for harnesses about netlists (work on KLayout and on its model)"""


def nets(c, circ, names):
    out = []
    for i, n in enumerate(names):
        x = circ.create_net(n)
        x.cluster_id = i + 1
        out.append(x)
    return out


def distinct(c, names):
    for i in range(len(names)):
        for j in range(i):
            if names[i] and names[j]:
                c.assume(c.not_(c.eq(names[i], names[j])))


def net_like(c, net, name):
    return bool(c.eq(net.expanded_name(), name))


def snapshot(circ):
    """devices, terminals and parameters of a circuit as plain data"""
    out = []
    for d in circ.each_device():
        dc = d.device_class()
        out.append((d.expanded_name(), dc.name,
                    [(t.name, (lambda n: n.expanded_name() if n is not None else None)(d.net_for_terminal(t.id())))
                     for t in dc.terminal_definitions()],
                    [(p.name, d.parameter(p.id())) for p in dc.parameter_definitions()]))
    return out


def same(c, a, b):
    """equality of two snapshots / nested data with symbolic leaves"""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    return bool(c.eq(a, b))


def devices(circ, cls):
    return [d for d in circ.each_device() if type(d.device_class()) is cls]


def pair_total(c, circ, cls, par, a, b, combine=lambda x, y: x + y):
    """accumulated parameter of all devices of a class between two nets given by (expanded) name; (total, count)"""
    tot, n = None, 0
    for d in devices(circ, cls):
        p, q = d.net_for_terminal('A'), d.net_for_terminal('B')
        if (net_like(c, p, a) and net_like(c, q, b)) or (net_like(c, p, b) and net_like(c, q, a)):
            v = d.parameter(par)
            tot = v if tot is None else combine(tot, v)
            n += 1
    return (0.0 if tot is None else tot), n


def unique_nets(c, circ, extra=()):
    """no two nets of the circuit go by one name"""
    ns = [n.expanded_name() for n in circ.each_net()]
    return not any(bool(c.eq(ns[i], ns[j])) for i in range(len(ns)) for j in range(i))
