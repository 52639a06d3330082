"""Model of klayout.db netlists (symbolic device parameters and names)."""
from . import values as V
from . import strings as S

CLASSES = ['DeviceClassResistor', 'DeviceClassResistorWithBulk', 'DeviceClassCapacitor',
           'DeviceClassCapacitorWithBulk', 'DeviceClassInductor', 'DeviceClassDiode',
           'DeviceClassBJT3Transistor', 'DeviceClassBJT4Transistor', 'DeviceClassMOS3Transistor',
           'DeviceClassMOS4Transistor']


def live(xs):
    """a KLayout iterator: it must not stand on an element that is removed"""
    i = 0
    while i < len(xs):
        x = xs[i]
        yield x
        if i < len(xs) and xs[i] is x:
            i += 1
            continue
        for i, y in enumerate(xs):
            if y is x:
                break
        else:
            raise RuntimeError('use of an iterator on an element that was removed')
        i += 1


class PDef:
    def __init__(self, i, name, descr, primary, default):
        self._id, self.name, self.description, self.is_primary, self.default_value = i, name, descr, primary, default
        self.si_scaling = 1.0

    def id(self): return self._id


class TDef:
    def __init__(self, i, name, descr):
        self._id, self.name, self.description = i, name, descr

    def id(self): return self._id


class DeviceClass:
    _pdefs = []
    _tdefs = []

    def __init__(self):
        self.name = ''
        self.description = ''
        self._p = list(self._pdefs)
        self._t = list(self._tdefs)
        self.combiner = None

    def parameter_definitions(self): return list(self._p)
    def terminal_definitions(self): return list(self._t)

    def add_terminal(self, d):
        self._t = self._t + [TDef(len(self._t), d.name, getattr(d, 'description', ''))]

    def add_parameter(self, d):
        self._p = self._p + [PDef(len(self._p), d.name, '', True, 0.0)]

    def parameter_id(self, n):
        for p in self._p:
            if p.name == n:
                return p.id()
        raise RuntimeError('Invalid parameter name')

    def has_parameter(self, n): return any(p.name == n for p in self._p)

    def terminal_id(self, n):
        for t in self._t:
            if t.name == n:
                return t.id()
        raise RuntimeError('Invalid terminal name')

    def parameter_definition(self, i):
        return self._p[i] if isinstance(i, int) else self._p[self.parameter_id(i)]

    def terminal_definition(self, i): return self._t[i]
    def dup(self): return self


class NetTerminalRef:
    def __init__(self, device, tid):
        self._d, self._t = device, tid

    def device(self): return self._d
    def device_class(self): return self._d.device_class()
    def terminal_id(self): return self._t
    def terminal_def(self): return self._d.device_class()._t[self._t]
    def net(self): return self._d._conn.get(self._t)


class NetPinRef:
    def __init__(self, pin, net): self._p, self._n = pin, net
    def pin(self): return self._p
    def pin_id(self): return self._p.id()
    def net(self): return self._n


class NetSubcircuitPinRef:
    def __init__(self, sub, pin): self._s, self._p = sub, pin
    def subcircuit(self): return self._s
    def pin(self): return self._p
    def pin_id(self): return self._p.id()
    def net(self): return self._s._conn.get(self._p.id())


class _Named:
    def dname(self):
        return self.name


class Net(_Named):
    def __init__(self, circuit, name, cid):
        self._c, self.name, self.cluster_id = circuit, name, cid
        self._props = {}

    def expanded_name(self):
        if self.name:
            return self.name
        return '$%d' % self.cluster_id

    def qname(self): return self._c.name + ':' + self.expanded_name()
    def circuit(self): return self._c

    def each_terminal(self):
        for d in list(self._c._devices):
            for t, n in sorted(d._conn.items()):
                if n is self:
                    yield NetTerminalRef(d, t)

    def each_pin(self):
        for p in self._c._pins:
            if self._c._pin_nets.get(p.id()) is self:
                yield NetPinRef(p, self)

    def each_subcircuit_pin(self):
        for s in self._c._subs:
            for pid, n in sorted(s._conn.items()):
                if n is self:
                    yield NetSubcircuitPinRef(s, s._ref._pins[pid])

    def terminal_count(self): return len(list(self.each_terminal()))
    def pin_count(self): return len(list(self.each_pin()))
    def subcircuit_pin_count(self): return len(list(self.each_subcircuit_pin()))
    def is_floating(self): return self.terminal_count() + self.pin_count() + self.subcircuit_pin_count() < 2
    def is_passive(self): return self.terminal_count() + self.subcircuit_pin_count() == 0
    def is_internal(self): return self.pin_count() == 0 and self.terminal_count() == 2
    def property(self, k): return self._props.get(k)
    def set_property(self, k, v): self._props[k] = v
    def __str__(self): return str(self.expanded_name())
    __repr__ = __str__


class Pin:
    def __init__(self, i, name):
        self._id, self._name = i, name

    def id(self): return self._id
    def name(self): return self._name
    def expanded_name(self): return self._name if self._name else '$%d' % self._id


class Device(_Named):
    def __init__(self, circuit, cls, name, i):
        self._c, self._cls, self.name, self._id = circuit, cls, name, i
        self._conn = {}
        self._par = {p.id(): p.default_value for p in cls._p}
        self.device_abstract = None

    def id(self): return self._id
    def circuit(self): return self._c
    def device_class(self): return self._cls
    def expanded_name(self): return self.name if self.name else '$%d' % self._id

    def _tid(self, t):
        return t if isinstance(t, int) else self._cls.terminal_id(t)

    def connect_terminal(self, t, net):
        if net is None:
            self._conn.pop(self._tid(t), None)
        else:
            self._conn[self._tid(t)] = net

    def disconnect_terminal(self, t): self._conn.pop(self._tid(t), None)
    def net_for_terminal(self, t): return self._conn.get(self._tid(t))

    def _pid(self, p):
        return p if isinstance(p, int) else self._cls.parameter_id(p)

    def parameter(self, p): return self._par[self._pid(p)]

    def set_parameter(self, p, v):
        if not (V.is_sym(v) or isinstance(v, (int, float))):
            raise TypeError('parameter value')
        self._par[self._pid(p)] = v

    def __str__(self): return str(self.expanded_name())


class SubCircuit(_Named):
    def __init__(self, circuit, ref, name, i):
        self._c, self._ref, self.name, self._id = circuit, ref, name, i
        self._conn = {}

    def id(self): return self._id
    def circuit(self): return self._c
    def circuit_ref(self): return self._ref
    def expanded_name(self): return self.name if self.name else '$%d' % self._id

    def connect_pin(self, p, net):
        self._conn[p if isinstance(p, int) else p.id()] = net

    def net_for_pin(self, p): return self._conn.get(p if isinstance(p, int) else p.id())


class Circuit:
    def __init__(self):
        self.name = ''
        self._nl = None
        self._devices, self._nets, self._pins, self._subs = [], [], [], []
        self._pin_nets = {}
        self._next = 1
        self.cell_index = 0

    def netlist(self): return self._nl

    def each_device(self): return live(self._devices)
    def each_net(self): return live(self._nets)
    def each_pin(self): return iter(list(self._pins))
    def each_subcircuit(self): return live(self._subs)
    def each_child(self): return iter(list(dict.fromkeys(s._ref for s in self._subs)))
    def devices(self): return list(self._devices)
    def nets(self): return list(self._nets)

    def create_net(self, name=''):
        n = Net(self, name, 0)
        self._nets.append(n)
        return n

    def create_device(self, cls, *a):
        name = a[-1] if a and isinstance(a[-1], (str, V.SymBase)) else ''
        d = Device(self, cls, name, self._next)
        self._next += 1
        if a and not isinstance(a[0], (str, V.SymBase)):
            d.device_abstract = a[0]
        self._devices.append(d)
        return d

    def create_subcircuit(self, ref, name=''):
        s = SubCircuit(self, ref, name, len(self._subs) + 1)
        self._subs.append(s)
        return s

    def create_pin(self, name=''):
        p = Pin(len(self._pins), name)
        self._pins.append(p)
        return p

    def connect_pin(self, p, net):
        self._pin_nets[p if isinstance(p, int) else p.id()] = net

    def net_for_pin(self, p): return self._pin_nets.get(p if isinstance(p, int) else p.id())
    def pin_count(self): return len(self._pins)
    def pin_by_id(self, i): return self._pins[i]

    def pin_by_name(self, n):
        for p in self._pins:
            if p._name == n:
                return p
        return None

    def net_by_name(self, n):
        for x in self._nets:
            if x.name == n:
                return x
        return None

    def device_by_name(self, n):
        for x in self._devices:
            if x.name == n:
                return x
        return None

    def remove_device(self, d):
        if d not in self._devices:
            raise RuntimeError('Device not within given circuit')
        self._devices.remove(d)

    def remove_net(self, n):
        self._nets.remove(n)

    def remove_subcircuit(self, s):
        self._subs.remove(s)

    def join_nets(self, a, b):
        for d in self._devices:
            for t, n in list(d._conn.items()):
                if n is b:
                    d._conn[t] = a
        for p, n in list(self._pin_nets.items()):
            if n is b:
                self._pin_nets[p] = a
        for s in self._subs:
            for p, n in list(s._conn.items()):
                if n is b:
                    s._conn[p] = a
        self._nets.remove(b)


class Netlist:
    def __init__(self):
        self._circuits, self._classes = [], []
        self.written = []

    def add(self, x):
        if isinstance(x, Circuit):
            x._nl = self
            x.cell_index = len(self._circuits)
            self._circuits.append(x)
        elif hasattr(x, '_p'):
            self._classes.append(x)

    def each_circuit(self): return iter(list(self._circuits))
    def each_device_class(self): return iter(list(self._classes))

    def _order(self):
        out, seen = [], set()

        def visit(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            for s in c._subs:
                visit(s._ref)
            out.append(c)
        for c in self._circuits:
            visit(c)
        return out

    def each_circuit_bottom_up(self): return iter(self._order())
    def each_circuit_top_down(self): return iter(self._order()[::-1])

    def top_circuits(self):
        refd = {id(s._ref) for c in self._circuits for s in c._subs}
        return [c for c in self._order()[::-1] if id(c) not in refd]

    def top_circuit(self):
        t = self.top_circuits()
        if len(t) > 1:
            raise RuntimeError('Netlist contains more than a single top circuit')
        return t[0] if t else None

    def top_circuit_count(self): return len(self.top_circuits())

    def is_case_sensitive(self): return getattr(self, '_cs', True)

    def circuit_by_name(self, n):
        if not self.is_case_sensitive():
            n = n.upper()
        for c in self._circuits:
            if c.name == n:
                return c
        return None

    def device_class_by_name(self, n):
        for c in self._classes:
            if c.name == n:
                return c
        return None

    def dup(self):
        o = Netlist()
        o._classes = list(self._classes)
        cm = {}
        for c in self._circuits:
            k = Circuit()
            k.name = c.name
            k._next = c._next
            o.add(k)
            k.cell_index = c.cell_index
            cm[id(c)] = k
        for c in self._circuits:
            k = cm[id(c)]
            nm = {}
            for n in c._nets:
                x = Net(k, n.name, n.cluster_id)
                x._props = dict(n._props)
                k._nets.append(x)
                nm[id(n)] = x
            k._pins = list(c._pins)
            k._pin_nets = {p: nm[id(n)] for p, n in c._pin_nets.items() if n is not None}
            for d in c._devices:
                x = Device(k, d._cls, d.name, d._id)
                x._par = dict(d._par)
                x._conn = {t: nm[id(n)] for t, n in d._conn.items()}
                x.device_abstract = d.device_abstract
                k._devices.append(x)
            for s in c._subs:
                x = SubCircuit(k, cm[id(s._ref)], s.name, s._id)
                x._conn = {p: nm[id(n)] for p, n in s._conn.items()}
                k._subs.append(x)
        return o

    def combine_devices(self):
        """parallel combination of capacitors and resistors between the same two nets (the
        harnesses use netlists in which every net has a pin, so that KLayout's serial
        combination does not apply)"""
        for c in self._circuits:
            seen = []
            for d in list(c._devices):
                n = type(d._cls).__name__
                if n not in ('DeviceClassCapacitor', 'DeviceClassResistor'):
                    continue
                a, b = d._conn.get(0), d._conn.get(1)
                if a is None or b is None:
                    continue
                for o in seen:
                    if o._cls is d._cls and {id(o._conn.get(0)), id(o._conn.get(1))} == {id(a), id(b)}:
                        if n == 'DeviceClassCapacitor':
                            o._par = {k: o._par[k] + d._par[k] for k in o._par}
                        else:
                            x, y = o._par[0], d._par[0]
                            o._par = dict(o._par)
                            o._par[0] = x * y / (x + y)
                        c._devices.remove(d)
                        break
                else:
                    seen.append(d)

    def write(self, path, writer=None, *a):
        self.written.append((path, writer))
        hook = getattr(Netlist, 'write_hook', None)
        if hook:
            hook(self, path, writer)

    def simplify(self): pass
    def purge(self): pass
    def purge_nets(self): pass
    def make_top_level_pins(self): pass


def exports(kdb):
    out = dict(Netlist=Netlist, Circuit=Circuit, Net=Net, Pin=Pin, Device=Device, SubCircuit=SubCircuit,
               NetTerminalRef=NetTerminalRef, NetPinRef=NetPinRef, NetSubcircuitPinRef=NetSubcircuitPinRef,
               DeviceClass=DeviceClass, DeviceTerminalDefinition=lambda n, d='': TDef(0, n, d))
    for cn in CLASSES:
        real = getattr(kdb, cn)()
        base = DeviceClass
        c = type(cn, (base,), {})
        c._pdefs = [PDef(p.id(), p.name, p.description, p.is_primary, p.default_value)
                    for p in real.parameter_definitions()]
        c._tdefs = [TDef(t.id(), t.name, t.description) for t in real.terminal_definitions()]
        out[cn] = c
    return out
