"""A grammar of stream structs with their reference encoding.

Types are what an array or a field may hold, items are what a struct lists.  A type or item is a JSON-able expression:

    'u8' 'be16' 'sle32' 'be64' 'f32' 'f64' 'pad4' 'padl3' 'padb3' 'pad0' 'fbuf2' 'vstr' 'vbuf' 'map'
    ['farr', n, T]  ['varr', T]  ['sarr', T]  ['struct', [items]]  ['derived', [items], [items]]
    ['sel', [items], [items]]  (chosen by a key)   ['fsel', n, [items], [items]]  (chosen by looking ahead n bytes)
    ['rec']  (a fixed-size Buffer record)
    items: any type (a named field), ['opt', T], ['const', T], ['bits', [widths]], ['posbits', k], ['pad', n], ['ptr'], ['lazy', [items]]

parse(expr) gives an object with
    values()     specs: plain values, lists, or Rec(type, combo) for structs
    encode(v)    the expected bytes
    bad()        values that can't be represented
"""
import itertools
import struct
from infi.instruct import *
from infi.instruct.base import Marshal, MinMax, EMPTY_CONTEXT
from infi.instruct.string import (PaddedStringMarshal, VarSizeStringMarshal, VarSizeBufferMarshal, FixedSizeBufferMarshal,
                                  PADDING_DIRECTION_LEFT, PADDING_DIRECTION_BOTH, PADDING_DIRECTION_RIGHT)
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.mapping import FixedSizeMappingMarshal
from infi.instruct.struct import Field, Struct
from infi.instruct.struct.optional import OptionalField
from infi.instruct.struct.selector import FuncStructSelectorMarshal, StructSelectorMarshal
from infi.instruct.struct_macros import StructFunc, ReadPointer, Bits
from infi.instruct.buffer.compat import buffer_to_struct_adapter
from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, uint_field


class Fixed3(Buffer):
    x = be_uint_field(where=bytes_ref[0:2])
    y = uint_field(where=bytes_ref[2].bits[0:4])
    z = uint_field(where=bytes_ref[2].bits[4:8])


class Rec(object):
    """The value of a struct: what to construct and what to expect."""

    def __init__(self, cls, values, expected=None):
        self.cls, self.values, self.expected = cls, values, expected or values

    def __repr__(self):
        return "%s(%r)" % (self.cls.__name__, self.values)


def construct(v):
    if isinstance(v, Rec):
        return v.cls(**dict((k, construct(x)) for k, x in v.values.items()))
    if isinstance(v, list):
        return [construct(x) for x in v]
    return v


def same(got, v):
    if isinstance(v, Rec):
        return type(got) == v.cls and all(same(getattr(got, k), x) for k, x in v.expected.items())
    if isinstance(v, list):
        return isinstance(got, list) and len(got) == len(v) and all(same(g, x) for g, x in zip(got, v))
    return type(got) == type(v) and got == v


def show(got, depth=3):
    if isinstance(got, (Struct, Buffer)):
        return "%s(%s)" % (type(got).__name__, ", ".join("%s=%s" % (k, show(x)) for k, x in sorted(vars(got).items())
                                                         if not k.startswith('_lazy')))
    if isinstance(got, list):
        return "[%s]" % ", ".join(show(g) for g in got)
    return repr(got)


class Type(object):
    fixed = False     # whether all values have one size
    delimited = True

    def fields(self, name):
        return [Field(name, self.marshal())]

    def attrs(self, name, v):
        return {name: v}

    expect = attrs

    def bad(self):
        return []

    def bad_attrs(self, name, v):
        return {name: v}

    @property
    def size(self):
        return len(self.encode(self.values()[0]))


class Number(Type):
    fixed = True

    def __init__(self, m, fmt, values, bad):
        self.m, self.fmt, self._values, self._bad = m, fmt, values, bad

    def marshal(self):
        return self.m

    def fields(self, name):
        return [self.m(name)]

    def values(self):
        return self._values

    def encode(self, v):
        return struct.pack(self.fmt, v)

    def bad(self):
        return self._bad


NUMBERS = {
    'u8': lambda: Number(UBInt8, 'B', [0, 0xA7], [-1, 256, 'x']),
    'be16': lambda: Number(UBInt16, '>H', [0x12FE], [0x10000]),
    'sle32': lambda: Number(SLInt32, '<l', [-2, 0x12345678], [1 << 31, -(1 << 31) - 1]),
    'be64': lambda: Number(UBInt64, '>Q', [0x8001020304050607], [-1, 1 << 64]),
    'f32': lambda: Number(BFloat32, '>f', [-1.5], [1e300]),
    'f64': lambda: Number(LFloat64, '<d', [0.1], ['y']),
}


class Padded(Type):
    fixed = True
    KINDS = {'pad4': (4, b'\0', PADDING_DIRECTION_RIGHT), 'padl3': (3, b' ', PADDING_DIRECTION_LEFT),
             'padb3': (3, b'.', PADDING_DIRECTION_BOTH), 'pad0': (0, b'\0', PADDING_DIRECTION_RIGHT)}

    def __init__(self, kind):
        self.n, self.padding, self.direction = self.KINDS[kind]

    def marshal(self):
        return PaddedStringMarshal(self.n, self.padding, self.direction)

    def fields(self, name):
        return [PaddedString(name, self.n, self.padding, self.direction)]

    def values(self):
        return [b'', b'a', b'\x80z'][:1 if self.n == 0 else 3]

    def encode(self, v):
        return v.rjust(self.n, self.padding) if self.direction == PADDING_DIRECTION_LEFT else v.ljust(self.n, self.padding)

    def bad(self):
        return [b'x' * (self.n + 1)]


class FixedBuf(Type):
    fixed = True

    def marshal(self):
        return FixedSizeBufferMarshal(2)

    def fields(self, name):
        return [FixedSizeBuffer(name, 2)]

    def values(self):
        return [b'\0\0', b'\xffq']

    def encode(self, v):
        return v

    def bad(self):
        return [b'a', b'abc', b'']


class VarStr(Type):
    def marshal(self):
        return VarSizeStringMarshal(UBInt8)

    def fields(self, name):
        return [VarSizeString(name, UBInt8)]

    def values(self):
        return [b'', b'a\0b']

    def encode(self, v):
        return struct.pack('B', len(v)) + v

    def bad(self):
        return [b'x' * 256]


class VarBuf(Type):
    def marshal(self):
        return VarSizeBufferMarshal(ULInt16)

    def fields(self, name):
        return [VarSizeBuffer(name, ULInt16)]

    def values(self):
        return [b'', b'\0\0\xff']

    def encode(self, v):
        return struct.pack('<H', len(v)) + v


class Mapped(Type):
    fixed = True
    MAP = {'red': 1, 'green': 0, 'blue': 255}

    def marshal(self):
        return FixedSizeMappingMarshal(dict(self.MAP), UBInt8)

    def fields(self, name):
        return [MappingField(name, UBInt8, dict(self.MAP))]

    def values(self):
        return ['blue', 'green']

    def encode(self, v):
        return struct.pack('B', self.MAP[v])

    def bad(self):
        return ['pink', 1]


class Array(Type):
    def __init__(self, kind, element, n=None):
        self.kind, self.element, self.n = kind, element, n
        self.fixed = kind == 'farr' and (element.fixed or n == 0)

    def marshal(self):
        if self.kind == 'farr':
            return FixedSizeArrayMarshal(self.n, self.element.marshal())
        return {'varr': VarSizeArrayMarshal, 'sarr': SumSizeArrayMarshal}[self.kind](UBInt8, self.element.marshal())

    def fields(self, name):
        e = self.element.marshal()
        if self.kind == 'farr':
            return [FixedSizeArray(name, self.n, e)]
        return [{'varr': VarSizeArray, 'sarr': SumSizeArray}[self.kind](name, UBInt8, e)]

    def values(self):
        e = self.element.values()
        if self.kind == 'farr':
            return [[e[(k + s) % len(e)] for k in range(self.n)] for s in range(2 if len(e) > 1 and self.n else 1)]
        return [[], [e[-1]], [e[0], e[-1], e[0]]]

    def encode(self, v):
        data = b''.join(self.element.encode(x) for x in v)
        if self.kind == 'farr':
            return data
        return struct.pack('B', len(v) if self.kind == 'varr' else len(data)) + data

    def bad(self):
        e = self.element.values()[-1]
        out = []
        if self.kind == 'farr':
            out += [[e] * (self.n + 1)] + ([[e] * (self.n - 1)] if self.n else [])
        for b in self.element.bad()[:2]:
            out.append([b] if self.kind != 'farr' else [b] * self.n)
        return [x for x in out if x or (self.kind == 'farr' and self.n)]


class Sized(Type):
    """Text, a buffer or an array whose size is one of other integers."""
    SIZES = {'SB8': (SBInt8, 'b'), 'UL16': (ULInt16, '<H'), 'SL32': (SLInt32, '<l'), 'UB64': (UBInt64, '>Q'), 'map': (None, 'B')}
    MAP = {0: 1, 2: 7, 3: 0, 6: 255, 4: 6}

    def __init__(self, kind, size, element=None):
        self.kind, self.element = kind, element
        self.size_marshal, self.fmt = self.SIZES[size]
        if size == 'map':
            self.size_marshal = FixedSizeMappingMarshal(dict(self.MAP), UBInt8)

    def marshal(self):
        if self.element is None:
            return {'str': VarSizeStringMarshal, 'buf': VarSizeBufferMarshal}[self.kind](self.size_marshal)
        return {'varr': VarSizeArrayMarshal, 'sarr': SumSizeArrayMarshal}[self.kind](self.size_marshal, self.element.marshal())

    def values(self):
        if self.element is None:
            return [b'', b'ab', b'xyz']
        e = self.element.values()
        return [[], [e[0], e[-1]]]

    def size_bytes(self, n):
        return struct.pack(self.fmt, self.MAP[n] if not isinstance(self.size_marshal, type(UBInt8)) else n)

    def encode(self, v):
        if self.element is None:
            return self.size_bytes(len(v)) + v
        data = b''.join(self.element.encode(x) for x in v)
        return self.size_bytes(len(v) if self.kind == 'varr' else len(data)) + data


class Optional(Type):
    """A flag byte, and a field that's read if the flag is set.  A spec is the value, or None if it's absent."""

    def __init__(self, inner):
        self.inner = inner

    def fields(self, name):
        flag = name + '_flag'
        return [UBInt8(flag), OptionalField(name, self.inner.marshal(), lambda obj, stream, context: getattr(obj, flag) != 0)]

    def values(self):
        return [None] + self.inner.values()[:2]

    def attrs(self, name, v):
        return {name: v, name + '_flag': 0 if v is None else 1}

    expect = attrs

    def encode(self, v):
        return b'\0' if v is None else b'\1' + self.inner.encode(v)

    def bad(self):
        return self.inner.bad()[:1]

    def bad_attrs(self, name, v):
        return {name: v, name + '_flag': 1}


class Const(Type):
    def __init__(self, inner):
        self.inner = inner
        self.fixed = inner.fixed
        self.value = inner.values()[-1]

    def fields(self, name):
        if isinstance(self.value, Rec):
            return [ConstField(name, construct(self.value))]
        return [ConstField(name, self.value, self.inner.marshal())]

    def values(self):
        return [None]

    def attrs(self, name, v):
        return {}

    def expect(self, name, v):
        return {name: self.value}

    def encode(self, v):
        return self.inner.encode(self.value)


class BitGroup(Type):
    """Bit fields of these widths; negative ones are padding.  A spec is a tuple of values."""
    fixed = True

    def __init__(self, widths):
        self.widths = widths

    def fields(self, name):
        fields = []
        for k, w in enumerate(self.widths):
            n = '%s_%d' % (name, k)
            fields.append(BitPadding(-w) if w < 0 else BitFlag(n) if w == 1 else BitField(n, w))
        return [BitFields(*fields)]

    def values(self):
        ones = tuple((1 << w) - 1 for w in self.widths if w > 0)
        mixed = tuple(0x5A6D2C93 >> k & (1 << w) - 1 for k, w in enumerate(w for w in self.widths if w > 0))
        return [ones, mixed]

    def attrs(self, name, v):
        return dict(zip(['%s_%d' % (name, k) for k, w in enumerate(self.widths) if w > 0], v))

    expect = attrs

    def encode(self, v):
        n = at = 0
        it = iter(v)
        for w in self.widths:
            if w > 0:
                n |= next(it) << at
            at += abs(w)
        return bytes(bytearray(n >> k & 255 for k in range(0, at, 8)))

    def bad(self):
        return [tuple((1 << w) - 1 + (i == k) for i, w in enumerate(x for x in self.widths if x > 0))
                for k in range(len([w for w in self.widths if w > 0]))]

    def bad_attrs(self, name, v):
        return self.attrs(name, v)


class Positional(Type):
    """Bit fields in listed places of two bytes."""
    fixed = True
    LAYOUTS = [[[(12, 16), (0, 3)], [(3, 12)]], [[(8, 16)], [(4, 8), (0, 4)]], [[(0, 1)], [(15, 16), (1, 2)]]]

    def __init__(self, k):
        self.layout = self.LAYOUTS[k]

    def fields(self, name):
        return [BitFields(*[BitField('%s_%d' % (name, k), [slice(a, b) for a, b in s]) for k, s in enumerate(self.layout)])]

    def widths(self):
        return [sum(b - a for a, b in s) for s in self.layout]

    def values(self):
        return [tuple((1 << w) - 1 if i == k else 0 for i, w in enumerate(self.widths())) for k in range(len(self.layout))] + \
               [tuple(0x5A6D2C93 >> k & (1 << w) - 1 for k, w in enumerate(self.widths()))]

    attrs = BitGroup.attrs

    def attrs(self, name, v):
        return dict(('%s_%d' % (name, k), x) for k, x in enumerate(v))

    expect = attrs

    def encode(self, v):
        n = 0
        for x, s in zip(v, self.layout):
            for a, b in s:
                n |= (x & (1 << b - a) - 1) << a
                x >>= b - a
        return struct.pack('<H', n)

    def bad(self):
        return [tuple(1 << w if i == k else 0 for i, w in enumerate(self.widths())) for k in range(len(self.layout))]

    def bad_attrs(self, name, v):
        return self.attrs(name, v)


class Padding(Type):
    fixed = True

    def __init__(self, n):
        self.n = n

    def fields(self, name):
        return [BytePadding(self.n, b'\xee') if self.n != 1 else Padding_(1)]

    def values(self):
        return [None]

    def attrs(self, name, v):
        return {}

    expect = attrs

    def encode(self, v):
        return b'\xee' * self.n if self.n != 1 else b'\0'


from infi.instruct.struct_macros import Padding as Padding_     # the library's older name for BytePadding


class Pointer(Type):
    """A length field, a byte, and content with the length."""

    def fields(self, name):
        n = name + '_len'
        return [UBInt8(n), UBInt8(name + '_gap'), VarSizeBuffer(name, ReadPointer(n))]

    def values(self):
        return [b'', b'\0yz']

    def attrs(self, name, v):
        return {name: v, name + '_len': len(v), name + '_gap': 0x77}

    expect = attrs

    def encode(self, v):
        return struct.pack('BB', len(v), 0x77) + v


class Pointers(Type):
    """A length field, and an array of buffers of that length."""

    def fields(self, name):
        n = name + '_len'
        return [UBInt8(n), FixedSizeArray(name, 2, VarSizeBufferMarshal(ReadPointer(n)))]

    def values(self):
        return [[b'', b''], [b'a\0', b'\0c']]

    def attrs(self, name, v):
        return {name: v, name + '_len': len(v[0])}

    expect = attrs

    def encode(self, v):
        return struct.pack('B', len(v[0])) + b''.join(v)


class Fields(Type):
    """Several items."""

    def __init__(self, items):
        self.items = [parse(i) for i in items]
        self.fixed = all(i.fixed for i in self.items)

    def names(self, name):
        return ['%s%s' % (name, k) for k in range(len(self.items))]

    def all_fields(self, name):
        return [f for n, i in zip(self.names(name), self.items) for f in i.fields(n)]

    def values(self, limit=None):
        columns = [i.values() for i in self.items]
        combos = list(itertools.islice(itertools.product(*columns), limit or 4000))
        return combos

    def few(self):
        """Combinations in which every value of every item occurs."""
        columns = [i.values() for i in self.items]
        n = max([len(c) for c in columns] + [1])
        return [tuple(c[k % len(c)] for c in columns) for k in range(n)]

    def all_attrs(self, name, combo, how='attrs'):
        d = {}
        for n, i, v in zip(self.names(name), self.items, combo):
            d.update(getattr(i, how)(n, v))
        return d

    def encode(self, combo):
        return b''.join(i.encode(v) for i, v in zip(self.items, combo))

    def all_bad(self, name):
        """Assignments of attributes in which one can't be represented."""
        combo = self.few()[-1]
        for k, (n, i) in enumerate(zip(self.names(name), self.items)):
            for b in i.bad():
                d = self.all_attrs(name, combo)
                d.update(i.bad_attrs(n, b))
                yield d


class LazyItem(Fields):
    def fields(self, name):
        return [Lazy(*self.all_fields(name + '_'))]

    def values(self):
        return self.few()

    def attrs(self, name, combo):
        return self.all_attrs(name + '_', combo)

    def expect(self, name, combo):
        return self.all_attrs(name + '_', combo, 'expect')

    def bad(self):
        return list(self.all_bad(''))

    def bad_attrs(self, name, b):
        return dict((name + '_' + k, v) for k, v in b.items())


class LazyTwin(LazyItem):
    """The same without laziness."""

    def fields(self, name):
        return self.all_fields(name + '_')


class StructItem(Fields):
    def __init__(self, items, derived=None, name='S'):
        Fields.__init__(self, items + (derived or []))
        self.split = len(items) if derived is not None else None
        self.cls_name = name
        self.cls = None

    def define(self, bases=(Struct,), **attrs):
        if self.cls is None:
            if self.split is not None:
                base = type(Struct)('Base', bases, dict(_fields_=Fields.all_fields(self, 'f')[:1], __module__='case'))
                bases = (base,)
            self.cls = type(Struct)(self.cls_name, bases, dict(attrs, _fields_=self.all_fields('f'), __module__='case'))
        return self.cls

    def marshal(self):
        return self.define()

    def spec(self, combo):
        return Rec(self.define(), self.all_attrs('f', combo), self.all_attrs('f', combo, 'expect'))

    def combo(self, rec):
        return rec.combo

    def values(self):
        out = []
        for c in self.few():
            r = self.spec(c)
            r.combo = c
            out.append(r)
        return out

    def encode(self, v):
        return Fields.encode(self, v.combo)

    def bad(self):
        return [Rec(self.define(), d) for d in self.all_bad('f')][:3]


class Keyed(Type):
    """One of two structs, by the value of the first byte."""
    delimited = True

    def __init__(self, a, b, ahead=None, default=False):
        self.structs = [StructItem([['const', 'u8']] + a, name='A'), StructItem([['const', 'be16']] + b, name='B')]
        self.keys = [0xA7, 0x12]
        self.ahead, self.default = ahead, default
        sizes = [s.fixed and len(s.encode(s.values()[0])) for s in self.structs]
        self.fixed = all(s.fixed for s in self.structs) and sizes[0] == sizes[1]

    def marshal(self):
        a, b = [s.define() for s in self.structs]
        if self.ahead is None:
            if self.default:
                return StructSelector(UBInt8, {self.keys[0]: a}, b)
            return StructSelector(UBInt8, {self.keys[0]: a, self.keys[1]: b})
        ahead, keys = self.ahead, self.keys

        def choose(stream, context):
            data = stream.read(ahead)
            return a if bytearray(data)[0] == keys[0] else b
        return FuncStructSelectorMarshal(choose)

    def fields(self, name):
        if self.ahead is None:
            return [Field(name, self.marshal())]
        a, b = [s.define() for s in self.structs]
        ahead, keys = self.ahead, self.keys

        def choose(obj, stream, context):
            return a if bytearray(stream.read(ahead))[0] == keys[0] else b
        return [SelectStructByFunc(name, choose)]

    def values(self):
        return [v for s in self.structs for v in s.values()]

    def encode(self, v):
        return next(s for s in self.structs if s.define() is v.cls).encode(v)

    def bad(self):
        return self.structs[0].bad()[:1]


class ZeroKeyed(Keyed):
    """One struct for the key 0, and another for all others."""

    def __init__(self, a, b):
        self.structs = [StructItem(['u8'] + a, name='A'), StructItem(['u8'] + b, name='B')]
        self.ahead = None
        self.default = True
        sizes = [s.fixed and len(s.encode(s.values()[0])) for s in self.structs]
        self.fixed = all(s.fixed for s in self.structs) and sizes[0] == sizes[1]

    def marshal(self):
        a, b = [s.define() for s in self.structs]
        return StructSelector(UBInt8, {0: a}, b)

    def values(self):
        return [v for s, zero in zip(self.structs, (True, False)) for v in s.values() if (v.values['f0'] == 0) == zero]


class KeyedByField(Type):
    """One of two structs, by the value of a field before it."""

    def __init__(self, a, b):
        self.structs = [StructItem(a, name='A'), StructItem(b, name='B')]

    def fields(self, name):
        key = name + '_key'
        a, b = [s.define() for s in self.structs]
        return [UBInt8(key), Field(name, StructSelector(ReadPointer(key), {1: a, 2: b}))]

    def values(self):
        return [v for s in self.structs for v in s.values()]

    def key(self, v):
        return 1 + [s.define() for s in self.structs].index(v.cls)

    def attrs(self, name, v):
        return {name: v, name + '_key': self.key(v)}

    expect = attrs

    def encode(self, v):
        return struct.pack('B', self.key(v)) + self.structs[self.key(v) - 1].encode(v)


class Adapted(Type):
    fixed = True

    def marshal(self):
        return buffer_to_struct_adapter(Fixed3)

    def values(self):
        return [Rec(Fixed3, dict(x=0x1234, y=5, z=10))]

    def encode(self, v):
        return struct.pack('>HB', v.values['x'], v.values['y'] | v.values['z'] << 4)


def parse(e):
    if isinstance(e, str):
        if e in NUMBERS:
            return NUMBERS[e]()
        if e in Padded.KINDS:
            return Padded(e)
        return {'fbuf2': FixedBuf, 'vstr': VarStr, 'vbuf': VarBuf, 'map': Mapped, 'ptr': Pointer, 'ptrs': Pointers, 'rec': Adapted}[e]()
    kind, args = e[0], e[1:]
    if kind == 'farr':
        return Array(kind, parse(args[1]), args[0])
    if kind in ('varr', 'sarr'):
        return Array(kind, parse(args[0]))
    if kind == 'sized':
        return Sized(args[0], args[1], parse(args[2]) if len(args) > 2 else None)
    if kind == 'struct':
        return StructItem(args[0])
    if kind == 'derived':
        return StructItem(args[0], args[1], name='D')
    if kind == 'sel':
        return Keyed(args[0], args[1])
    if kind == 'dsel':
        return Keyed(args[0], args[1], default=True)
    if kind == 'zsel':
        return ZeroKeyed(args[0], args[1])
    if kind == 'ksel':
        return KeyedByField(args[0], args[1])
    if kind == 'fsel':
        return Keyed(args[1], args[2], ahead=args[0])
    return {'opt': lambda t: Optional(parse(t)), 'const': lambda t: Const(parse(t)), 'bits': BitGroup, 'posbits': Positional,
            'pad': Padding, 'lazy': LazyItem, 'eager': LazyTwin}[kind](*args)


SIMPLE = ['u8', 'be16', 'sle32', 'be64', 'f32', 'f64', 'pad4', 'padl3', 'padb3', 'pad0', 'fbuf2', 'vstr', 'vbuf', 'map', 'rec']
FIXED = ['u8', 'be16', 'sle32', 'be64', 'f32', 'f64', 'pad4', 'padl3', 'padb3', 'pad0', 'fbuf2', 'map', 'rec']
ITEMS = [['bits', [3, 5]], ['bits', [1, -2, 9, 4]], ['posbits', 0], ['posbits', 1], ['posbits', 2], ['pad', 0], ['pad', 1], ['pad', 3], 'ptr', 'ptrs', ['ksel', ['u8'], [['ksel', ['vstr'], ['ptr']]]],
         ['opt', 'be16'], ['opt', 'vstr'], ['const', 'u8'], ['const', 'vstr'], ['const', ['struct', ['u8', 'vstr']]],
         ['lazy', ['u8', 'sle32']], ['lazy', [['bits', [4, 4]], 'pad4', ['const', 'be16']]],
         ['lazy', [['farr', 2, ['struct', ['u8', ['bits', [8]]]]]]]]
COMPOSITE = [['farr', 2, 'be16'], ['farr', 0, 'u8'], ['farr', 2, 'vstr'], ['varr', 'u8'], ['varr', 'vbuf'], ['sarr', 'be16'], ['sarr', 'vstr'],
             ['varr', ['struct', ['u8', 'ptr']]], ['sarr', ['struct', ['vstr', ['opt', 'u8']]]], ['varr', ['varr', 'u8']],
             ['farr', 2, ['sarr', 'vstr']], ['struct', ['ptr', ['opt', 'u8'], 'u8']], ['struct', [['struct', ['ptr']], 'ptr']],
             ['derived', ['u8'], ['vstr']], ['sel', ['u8'], ['vstr']], ['dsel', ['u8'], []], ['zsel', ['u8'], ['vstr']], ['fsel', 1, [], ['u8']],
             ['fsel', 2, ['vstr'], []], ['varr', ['sel', ['u8'], []]], ['sarr', ['fsel', 1, ['u8'], ['ptr']]],
             ['struct', [['sel', [['sel', ['u8'], []]], ['u8']], 'u8']], ['farr', 2, 'rec'], ['struct', [['lazy', ['u8', 'be16']], 'u8']]]
ALL = SIMPLE + ITEMS + COMPOSITE
