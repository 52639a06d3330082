"""Protocol-buffer messages that can hold symbolic values, generated from the descriptors
of the modules protoc makes from /repo/protos."""
import sys
import types
import importlib
from . import values as V
from . import strings as S

_classes = {}


def _default(f):
    t = f.type
    if t in (f.TYPE_DOUBLE, f.TYPE_FLOAT):
        return 0.0
    if t == f.TYPE_STRING:
        return ''
    if t == f.TYPE_BYTES:
        return b''
    if t == f.TYPE_BOOL:
        return False
    if t == f.TYPE_ENUM:
        return f.default_value
    return 0


def _is_rep(f):
    try:
        return f.is_repeated
    except AttributeError:
        return f.label == f.LABEL_REPEATED


def _check_scalar(f, v):
    t = f.type
    if t in (f.TYPE_DOUBLE, f.TYPE_FLOAT):
        if isinstance(v, V.SymBool):
            return V._num(v)
        if isinstance(v, V.SymInt):
            return V.SymReal(V.real_term(v))
        if isinstance(v, V.SymReal):
            return v
        if isinstance(v, (int, float)):
            return float(v)
    elif t == f.TYPE_STRING:
        v = S.decode(v)
        if isinstance(v, (str, S.SymStr)):
            return v
    elif t == f.TYPE_BOOL:
        if isinstance(v, (bool, V.SymBool, int)):
            return v
    elif t == f.TYPE_ENUM:
        if isinstance(v, str):
            return f.enum_type.values_by_name[v].number
        if isinstance(v, (int, V.SymInt)):
            return v
    elif t == f.TYPE_BYTES:
        return v
    else:
        if isinstance(v, V.SymInt):
            return v
        if isinstance(v, bool) or isinstance(v, int):
            return int(v)
        if isinstance(v, V.SymBool):
            return V._num(v)
    raise TypeError('bad value %r for field %s' % (v, f.full_name))


class RepScalar(list):
    def __init__(self, f, owner):
        super().__init__()
        self._f, self._o = f, owner

    def append(self, v):
        super().append(_check_scalar(self._f, v))
        self._o._touch()

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def MergeFrom(self, o):
        self.extend(list(o))

    def __iadd__(self, o):
        self.extend(o)
        return self


class RepMsg(list):
    def __init__(self, cls, owner):
        super().__init__()
        self._c, self._o = cls, owner

    def add(self, **kw):
        m = self._c(**kw)
        m._parent = self._o
        super().append(m)
        self._o._touch()
        return m

    def append(self, m):
        n = self.add()
        n.CopyFrom(m)

    def extend(self, ms):
        for m in list(ms):
            self.append(m)

    def MergeFrom(self, o):
        self.extend(o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, k, v):
        raise TypeError('does not support assignment')


class Msg:
    DESCRIPTOR = None

    def __init__(self, **kw):
        d = self.__dict__
        d['_v'] = {}
        d['_parent'] = None
        d['_present'] = False
        d['_subs'] = {}
        for k, v in kw.items():
            f = self._fields.get(k)
            if f is None:
                raise ValueError('Protocol message %s has no "%s" field.' % (self.DESCRIPTOR.name, k))
            if v is None:
                continue
            if _is_rep(f):
                getattr(self, k).extend(v)
            elif f.message_type is not None:
                sub = getattr(self, k)
                sub.CopyFrom(v if not isinstance(v, dict) else type(sub)(**v))
            else:
                setattr(self, k, v)

    def _touch(self):
        d = self.__dict__
        if not d['_present']:
            d['_present'] = True
            f = d.get('_slot')
            p = d['_parent']
            if f is not None and p is not None and f.containing_oneof is not None:
                p._clear_oneof(f.containing_oneof, f.name)
        if d['_parent'] is not None:
            d['_parent']._touch()

    def _clear_oneof(self, oo, keep):
        for f in oo.fields:
            if f.name != keep:
                self._v.pop(f.name, None)
                s = self._subs.pop(f.name, None)
                if s is not None:
                    s.__dict__['_parent'] = None

    def __getattr__(self, k):
        f = type(self)._fields.get(k)
        if f is None:
            raise AttributeError(k)
        if _is_rep(f):
            if k not in self._subs:
                self._subs[k] = RepMsg(cls_for(f.message_type), self) if f.message_type is not None \
                    else RepScalar(f, self)
            return self._subs[k]
        if f.message_type is not None:
            if k not in self._subs:
                m = cls_for(f.message_type)()
                m.__dict__['_parent'] = self
                m.__dict__['_slot'] = f
                self._subs[k] = m
            return self._subs[k]
        if k in self._v:
            return self._v[k]
        return _default(f)

    def __setattr__(self, k, v):
        f = type(self)._fields.get(k)
        if f is None:
            if k.startswith('_'):
                self.__dict__[k] = v
                return
            raise AttributeError('Assignment not allowed (no field "%s" in protocol message object).' % k)
        if _is_rep(f) or f.message_type is not None:
            raise AttributeError('Assignment not allowed to message, map, or repeated field "%s"' % k)
        v = _check_scalar(f, v)
        if f.containing_oneof is not None:
            self._clear_oneof(f.containing_oneof, k)
        self._v[k] = v
        self._touch()

    def HasField(self, k):
        f = type(self)._fields.get(k)
        if f is None or _is_rep(f):
            oo = self.DESCRIPTOR.oneofs_by_name.get(k)
            if oo is not None:
                return self.WhichOneof(k) is not None
            raise ValueError('Protocol message has no singular "%s" field.' % k)
        if f.message_type is not None:
            s = self._subs.get(k)
            return bool(s is not None and s._present)
        if f.containing_oneof is not None:
            return k in self._v
        raise ValueError('Field "%s" does not have presence.' % k)

    def WhichOneof(self, name):
        for f in self.DESCRIPTOR.oneofs_by_name[name].fields:
            if f.message_type is not None:
                s = self._subs.get(f.name)
                if s is not None and s._present:
                    return f.name
            elif f.name in self._v:
                return f.name
        return None

    def SetInParent(self):
        self._touch()

    def ClearField(self, k):
        self._v.pop(k, None)
        s = self._subs.pop(k, None)
        if isinstance(s, Msg):
            s.__dict__['_parent'] = None

    def Clear(self):
        for k in list(self._v) + list(self._subs):
            self.ClearField(k)

    def CopyFrom(self, o):
        if o is self:
            return
        self.Clear()
        self.MergeFrom(o)
        self._touch()

    def MergeFrom(self, o):
        if type(o).DESCRIPTOR.full_name != self.DESCRIPTOR.full_name:
            raise TypeError('MergeFrom() type mismatch')
        if not isinstance(o, Msg):
            o = from_real(o)
        for k, v in o._v.items():
            setattr(self, k, v)
        for k, s in o._subs.items():
            if isinstance(s, Msg):
                if s._present:
                    t = getattr(self, k)
                    t.MergeFrom(s)
                    t._touch()
            elif isinstance(s, RepMsg):
                r = getattr(self, k)
                for m in list(s):
                    r.append(m)
            else:
                getattr(self, k).extend(list(s))

    def ListFields(self):
        out = []
        for f in self.DESCRIPTOR.fields:
            if _is_rep(f):
                s = self._subs.get(f.name)
                if s:
                    out.append((f, s))
            elif f.message_type is not None:
                if self.HasField(f.name):
                    out.append((f, self._subs[f.name]))
            elif f.name in self._v:
                v = self._v[f.name]
                if f.containing_oneof is not None or V.is_sym(v) or v:
                    out.append((f, v))
        return out

    def IsInitialized(self):
        return True

    def SerializeToString(self, *a, **k):
        raise V.Unsupported('serialisation')

    def __eq__(self, o):
        if not isinstance(o, Msg):
            return NotImplemented
        if self.DESCRIPTOR.full_name != o.DESCRIPTOR.full_name:
            return False
        for f in self.DESCRIPTOR.fields:
            a, b = getattr(self, f.name), getattr(o, f.name)
            if f.message_type is not None and not _is_rep(f):
                if self.HasField(f.name) != o.HasField(f.name):
                    return False
                if not self.HasField(f.name):
                    continue
            if _is_rep(f):
                if len(a) != len(b):
                    return False
                if not all(bool(x == y) for x, y in zip(a, b)):
                    return False
            elif not bool(a == b):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __deepcopy__(self, memo):
        n = type(self)()
        n.MergeFrom(self)
        return n

    __copy__ = lambda self: self.__deepcopy__(None)

    def __str__(self):
        return '<%s>' % self.DESCRIPTOR.name

    __repr__ = __str__


def cls_for(desc):
    c = _classes.get(desc.full_name)
    if c is None:
        c = type(desc.name, (Msg,), {
            'DESCRIPTOR': desc,
            '_fields': {f.name: f for f in desc.fields},
        })
        _classes[desc.full_name] = c
        for e in desc.enum_types:
            setattr(c, e.name, enum_wrapper(e))
            for v in e.values:
                setattr(c, v.name, v.number)
        for n in desc.nested_types:
            setattr(c, n.name, cls_for(n))
        for f in desc.fields:
            setattr(c, f.name.upper() + '_FIELD_NUMBER', f.number)
    return c


def enum_wrapper(e):
    from google.protobuf.internal import enum_type_wrapper
    return enum_type_wrapper.EnumTypeWrapper(e)


def stand_in(real):
    """module holding stand-in classes for a generated *_pb2 module"""
    m = types.ModuleType(real.__name__)
    d = real.DESCRIPTOR
    m.DESCRIPTOR = d
    for n, desc in d.message_types_by_name.items():
        setattr(m, n, cls_for(desc))
    for n, e in d.enum_types_by_name.items():
        setattr(m, n, enum_wrapper(e))
        for v in e.values:
            setattr(m, v.name, v.number)
    return m


def from_real(msg):
    """real message -> stand-in"""
    c = cls_for(msg.DESCRIPTOR)()
    for f, v in msg.ListFields():
        if _is_rep(f):
            r = getattr(c, f.name)
            for x in v:
                r.append(from_real(x) if f.message_type is not None else x)
        elif f.message_type is not None:
            s = getattr(c, f.name)
            s.CopyFrom(from_real(v))
            s._touch()
        else:
            setattr(c, f.name, v)
    return c


class JsonFormat:
    """google.protobuf.json_format for stand-in messages (parsing of concrete text)"""
    @staticmethod
    def Parse(text, message, *a, **k):
        import google.protobuf.json_format as jf
        from google.protobuf import message_factory
        real = message_factory.GetMessageClass(message.DESCRIPTOR)()
        jf.Parse(text, real, *a, **k)
        message.MergeFrom(from_real(real))
        return message

    def __getattr__(self, n):
        import google.protobuf.json_format as jf
        return getattr(jf, n)
