"""A family of record definitions with their reference encoding.

A program is a list of items laid out one after another.  Every item is one or two fields and its own reference
encoder; where an item starts is written as a constant (while that's known), as the position after the previous field,
or as arithmetic over the length fields.

    program(items, style, names) -> Program with
        .define()            the record class
        .values()            all combinations of the items' values: dicts of field values to set
        .encode(v)           the expected packed bytes
        .fields(v)           the expected field values after pack or unpack
        .bounded             False if the last item is open-ended
        .open_at(v)          where the open item starts (or the length)
"""
import itertools
import json
import struct
from mc.rec import record
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_uint_field, le_uint_field, be_int_field,
                                  float_field, str_field, bytearray_field, list_field, buffer_field, json_field,
                                  uint8, b_uint16, l_int32, after_ref, len_ref, num_ref, self_ref, total_size,
                                  member_func_ref, min_ref, max_ref, str_type_factory)


class Pair(Buffer):
    """A nested record with a fixed size."""
    x = be_uint_field(where=bytes_ref[0:2])
    y = uint_field(where=bytes_ref[2].bits[0:4])
    z = uint_field(where=bytes_ref[2].bits[4:8])

    def __eq__(self, other):
        return type(self) == type(other) and (self.x, self.y, self.z) == (other.x, other.y, other.z)

    def __ne__(self, other):
        return not self == other


class Blob(Buffer):
    """A nested record with a variable size."""
    n = uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.data))
    data = bytearray_field(where=bytes_ref[1:1 + n])

    def __eq__(self, other):
        return type(self) == type(other) and self.data == other.data

    def __ne__(self, other):
        return not self == other


def pair_bytes(p):
    return struct.pack('>HB', p.x, p.y | p.z << 4)


def blob_bytes(b):
    return bytes(bytearray([len(b.data)])) + bytes(b.data)


PAIR1, PAIR2 = lambda: Pair(x=0x1234, y=5, z=10), lambda: Pair(x=0, y=15, z=0)
BLOB0, BLOB2 = lambda: Blob(data=bytearray()), lambda: Blob(data=bytearray(b'\x80q'))


class Item(object):
    """name: prefix of its fields' names; start: expression of the first byte"""
    kind = None
    open = False
    static = None        # size in bytes, if fixed

    def __init__(self, name, other):
        self.name = name          # name of the main field
        self.len_name = other     # name of the length field, if any

    def values(self):
        raise NotImplementedError()

    def encode(self, v):
        raise NotImplementedError()

    def add(self, attrs, start):
        raise NotImplementedError()

    def size_ref(self, attrs):
        """Size as an expression over the fields (None if there's no such expression)."""
        return self.static

    def last(self, attrs):
        return attrs[self.name]

    def set(self, v):
        return {self.name: v}

    def fields(self, v):
        return {self.name: v}


class Fixed(Item):
    def add(self, attrs, start):
        attrs[self.name] = self.field(where=bytes_ref[start:start + self.static] if self.static > 1 else bytes_ref[start])


class U8(Fixed):
    kind, static, field = 'u8', 1, staticmethod(uint_field)

    def values(self):
        return [0, 0xA7]

    def encode(self, v):
        return struct.pack('B', v)


class BE16(Fixed):
    kind, static, field = 'be16', 2, staticmethod(be_uint_field)

    def values(self):
        return [0x12FE]

    def encode(self, v):
        return struct.pack('>H', v)


class LE24(Fixed):
    kind, static, field = 'le24', 3, staticmethod(le_uint_field)

    def values(self):
        return [0x8142F3]

    def encode(self, v):
        return struct.pack('<L', v)[:3]


class S32(Fixed):
    kind, static, field = 's32', 4, staticmethod(be_int_field)

    def values(self):
        return [-2]

    def encode(self, v):
        return struct.pack('>l', v)


class F64(Fixed):
    kind, static, field = 'f64', 8, staticmethod(lambda **kw: float_field(endian='big', **kw))

    def values(self):
        return [-1.5]

    def encode(self, v):
        return struct.pack('>d', v)


class Str4(Fixed):
    kind, static, field = 'str4', 4, staticmethod(str_field)

    def values(self):
        return ['', 'ab', 'wxyz']

    def encode(self, v):
        return v.encode().ljust(4)


class Raw2(Fixed):
    kind, static, field = 'raw2', 2, staticmethod(bytearray_field)

    def values(self):
        return [bytearray(b'\x00\x80')]

    def encode(self, v):
        return bytes(v)


class Flags(Item):
    """Two bit fields in a byte."""
    kind, static = 'flags', 1

    def add(self, attrs, start):
        attrs[self.name] = uint_field(where=bytes_ref[start].bits[3:8])
        attrs[self.len_name] = uint_field(where=bytes_ref[start].bits[0:3])

    def values(self):
        return [(0, 7), (21, 2)]

    def encode(self, v):
        return struct.pack('B', v[0] << 3 | v[1])

    def set(self, v):
        return {self.name: v[0], self.len_name: v[1]}

    fields = set


class Split(Item):
    """A 12-bit field in two separate places, and one between them."""
    kind, static = 'split', 3

    def add(self, attrs, start):
        attrs[self.name] = uint_field(where=bytes_ref[start + 2] + bytes_ref[start].bits[0:4])
        attrs[self.len_name] = uint_field(where=bytes_ref[start].bits[4:8] + bytes_ref[start + 1])

    def values(self):
        return [(0xABC, 0x123)]

    def encode(self, v):
        return struct.pack('BBB', v[0] >> 8 | (v[1] & 15) << 4, v[1] >> 4, v[0] & 255)

    def set(self, v):
        return {self.name: v[0], self.len_name: v[1]}

    fields = set

    def last(self, attrs):
        return attrs[self.name]


class Nested(Fixed):
    kind, static, field = 'nested', 3, staticmethod(lambda **kw: buffer_field(Pair, **kw))

    def values(self):
        return [PAIR1()]

    def encode(self, v):
        return pair_bytes(v)


class List3(Item):
    """A list with a fixed count."""
    kind, static = 'list3', 6

    def add(self, attrs, start):
        attrs[self.name] = list_field(b_uint16, n=3, where=bytes_ref[start:start + 6])

    def values(self):
        return [[1, 0, 0xFFFE]]

    def encode(self, v):
        return struct.pack('>3H', *v)


class Counted(Item):
    """A length field and a field with a size that follows from it."""
    unit = 1       # bytes per count
    bias = 0       # what's stored is the count plus this

    def add(self, attrs, start):
        n = attrs[self.len_name] = uint_field(where=bytes_ref[start], set_before_pack=len_ref(self.name if self.bias else getattr(self_ref, self.name)) + self.bias)
        size = n * self.unit if self.unit != 1 else n
        if self.bias:
            size = size - self.bias * self.unit
        attrs[self.name] = self.make(n, bytes_ref[start + 1:start + 1 + size])

    def size_ref(self, attrs):
        n = attrs[self.len_name]
        return (n - self.bias) * self.unit + 1

    def encode(self, v):
        data = self.content(v)
        return struct.pack('B', len(v) + self.bias) + data

    def fields(self, v):
        return {self.name: v, self.len_name: len(v) + self.bias}


class Bytes(Counted):
    kind = 'bytes'

    def make(self, n, where):
        return bytearray_field(where=where)

    def values(self):
        return [bytearray(), bytearray(b'\x01'), bytearray(b'\xff\x00z')]

    def content(self, v):
        return bytes(v)


class BytesPlus(Bytes):
    kind, bias = 'bytes+2', 2

    def values(self):
        return [bytearray(), bytearray(b'\x80\x7f')]


class Text(Counted):
    kind = 'text'

    def make(self, n, where):
        return str_field(where=where)

    def values(self):
        return ['', 'a b']

    def content(self, v):
        return v.encode()


class List16(Counted):
    kind, unit = 'list16', 2

    def make(self, n, where):
        return list_field(b_uint16, n=n, where=where)

    def values(self):
        return [[], [0x8001], [2, 0x300]]

    def content(self, v):
        return struct.pack('>%dH' % len(v), *v)


class ListPairs(Counted):
    kind, unit = 'pairs', 3

    def make(self, n, where):
        return list_field(Pair, where=where)

    def values(self):
        return [[], [PAIR1(), PAIR2()]]

    def content(self, v):
        return b''.join(pair_bytes(p) for p in v)


class FuncBytes(Item):
    """A size computed by member functions: from the content when packing, from the flag when unpacking."""
    kind = 'func'

    def add(self, attrs, start):
        name, len_name = self.name, self.len_name
        n = attrs[len_name] = uint_field(where=bytes_ref[start], set_before_pack=lambda obj: len(getattr(obj, name)) * 3)
        attrs[name] = bytearray_field(
            where_when_pack=bytes_ref[start + 1:start + 1 + num_ref(member_func_ref(lambda obj: len(getattr(obj, name))))],
            where_when_unpack=bytes_ref[start + 1:start + 1 + n // 3])

    def size_ref(self, attrs):
        return attrs[self.len_name] // 3 + 1

    def values(self):
        return [bytearray(), bytearray(b'\x55\xaa')]

    def encode(self, v):
        return struct.pack('B', len(v) * 3) + bytes(v)

    def fields(self, v):
        return {self.name: v, self.len_name: len(v) * 3}


class Clamped(Item):
    """A size bounded by min_ref and max_ref: at least 1 and at most 3 bytes."""
    kind = 'clamped'

    def add(self, attrs, start):
        n = attrs[self.len_name] = uint_field(where=bytes_ref[start])
        attrs[self.name] = bytearray_field(where=bytes_ref[start + 1:start + 1 + min_ref(max_ref(n, 1), 3)])

    def size_ref(self, attrs):
        return min_ref(max_ref(attrs[self.len_name], 1), 3) + 1

    def values(self):
        return [(0, bytearray(b'x')), (2, bytearray(b'\x91\x92')), (9, bytearray(b'abc'))]

    def encode(self, v):
        return struct.pack('B', v[0]) + bytes(v[1])

    def set(self, v):
        return {self.len_name: v[0], self.name: v[1]}

    fields = set


class Tail(Item):
    """Open-ended: has to be the last."""
    open = True

    def add(self, attrs, start):
        attrs[self.name] = self.make(bytes_ref[start:])

    def size_ref(self, attrs):
        return None


class TailBytes(Tail):
    kind = 'bytes...'

    def make(self, where):
        return bytearray_field(where=where)

    def values(self):
        return [bytearray(), bytearray(b'\x00\xfe')]

    def encode(self, v):
        return bytes(v)


class TailText(Tail):
    kind = 'text...'

    def make(self, where):
        return str_field(where=where)

    def values(self):
        return ['', 'xy z']

    def encode(self, v):
        return v.encode()


class TailList(Tail):
    kind = 'list...'
    unit = 4

    def make(self, where):
        return list_field(l_int32, where=where)

    def values(self):
        return [[], [-2, 3]]

    def encode(self, v):
        return struct.pack('<%dl' % len(v), *v)


class TailBlobs(Tail):
    kind = 'blobs...'

    def make(self, where):
        return list_field(Blob, where=where)

    def values(self):
        return [[], [BLOB2(), BLOB0(), BLOB2()]]

    def encode(self, v):
        return b''.join(blob_bytes(b) for b in v)


class TailNested(Tail):
    """Open-ended place of a record that knows its own size, so what follows is ignored."""
    kind = 'blob...'
    self_delimited = True

    def make(self, where):
        return buffer_field(Blob, where=where)

    def values(self):
        return [BLOB0(), BLOB2()]

    def encode(self, v):
        return blob_bytes(v)


class TailJson(Tail):
    kind = 'json...'

    def make(self, where):
        return json_field(where=where)

    def values(self):
        return [{'a': [1, None]}, 7]

    def encode(self, v):
        return json.dumps(v).encode()


class TotalRest(Item):
    """A field with the total size, and content up to that size."""
    kind = 'total'

    def add(self, attrs, start):
        n = attrs[self.len_name] = be_uint_field(where=bytes_ref[start:start + 2], set_before_pack=total_size)
        attrs[self.name] = bytearray_field(where_when_pack=bytes_ref[start + 2:], where_when_unpack=bytes_ref[start + 2:n])

    def size_ref(self, attrs):
        return None

    def values(self):
        return [bytearray(), bytearray(b'\xc0\x01\x02')]

    def encode(self, v):
        return bytes(v)      # completed by the program

    def fields(self, v):
        return {self.name: v}


STATIC = [U8, BE16, LE24, S32, F64, Str4, Raw2, Flags, Split, Nested, List3]
DYNAMIC = [Bytes, BytesPlus, Text, List16, ListPairs, FuncBytes, Clamped]
TAILS = [TailBytes, TailText, TailList, TailBlobs, TailNested, TailJson, TotalRest]
KINDS = dict((c.kind, c) for c in STATIC + DYNAMIC + TAILS)

STYLES = ('after', 'arith', 'self')
NAMES = ('up', 'down', 'lens')


class Program(object):
    def __init__(self, kinds, style='after', names='up', base=0):
        self.kinds, self.style, self.names, self.base = kinds, style, names, base
        self.items = []
        for k, kind in enumerate(kinds):
            r = k if names == 'up' else 9 - k
            main, other = 'f%d' % r, ('n%d' % r if names != 'lens' else 'a%d' % k)
            self.items.append(KINDS[kind](main, other))
        self.bounded = not any(i.open for i in self.items)
        self.static = all(i.static is not None for i in self.items)

    def attrs(self):
        attrs = {}
        start = base = self.base             # while it's constant
        dynamic = None        # the dynamic part of the start, when it's not
        previous = None
        for item in self.items:
            item.add(attrs, start)
            if item.static is not None and not isinstance(start, int) and self.style == 'arith':
                base += item.static
            elif item.static is not None and isinstance(start, int):
                start += item.static
                base = start
                continue
            elif self.style == 'arith':
                size = item.size_ref(attrs)
                if size is not None:
                    dynamic = size if dynamic is None else dynamic + size
            if self.style == 'arith' and dynamic is not None:
                start = dynamic + base if base else dynamic
            elif self.style == 'self':
                start = after_ref_by_func(item, attrs, start)
            else:
                start = after_ref(item.last(attrs))
        return attrs

    def define(self, bases=(Buffer,), **extra):
        attrs = self.attrs()
        attrs.update(extra)
        return record(attrs, bases)

    def values(self, limit=None):
        combos = itertools.product(*[i.values() for i in self.items])
        return list(itertools.islice(combos, limit))

    def set(self, combo):
        d = {}
        for item, v in zip(self.items, combo):
            d.update(item.set(v))
        return d

    def encode(self, combo):
        out = b''
        total = None
        for item, v in zip(self.items, combo):
            if item.kind == 'total':
                total = len(out)
                out += b'??'
            out += item.encode(v)
        if total is not None:
            out = out[:total] + struct.pack('>H', self.base + len(out)) + out[total + 2:]
        return out

    def fields(self, combo):
        d = {}
        for item, v in zip(self.items, combo):
            d.update(item.fields(v))
            if item.kind == 'total':
                d[item.len_name] = self.base + len(self.encode(combo))
        return d

    def open_at(self, combo):
        out = 0
        for item, v in zip(self.items, combo):
            if item.open:
                return out
            out += len(item.encode(v)) + (2 if item.kind == 'total' else 0)
        return out

    def __repr__(self):
        return "%s %s %s" % ('+'.join(self.kinds), self.style, self.names)


def after_ref_by_func(item, attrs, start):
    """The end of the item as arithmetic on its own start and fields that are referred to by name."""
    if item.static is not None:
        return start + item.static
    if isinstance(item, Counted):
        n = num_ref(getattr(self_ref, item.len_name))
        return start + (n - item.bias) * item.unit + 1
    size = item.size_ref(attrs)
    return start + size if size is not None else None


def programs(lengths, static=STATIC, dynamic=DYNAMIC, tails=TAILS, styles=STYLES, names=NAMES):
    """All programs: bodies of these lengths (items that are not open), with and without an open or total item last."""
    body = [c.kind for c in static + dynamic]
    last = [c.kind for c in tails]
    for n in lengths:
        for kinds in itertools.product(body, repeat=n):
            for tail in [None] + last:
                k = list(kinds) + ([tail] if tail else [])
                if not k:
                    continue
                dynamic_before = any(KINDS[x].static is None for x in k[:-1])
                for name in names:
                    for style in (styles if dynamic_before else styles[:1]):
                        yield [k, style, name]
