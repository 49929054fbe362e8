"""C20: parsing takes exactly one object's bytes from the stream, also with look-ahead."""
import io
import itertools
import os
import struct as pystruct
from mc.core import Space
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, same, show, ALL, parse
from mc.props.c14 import NESTED, PAIRS
from mc.rec import record
from infi.instruct import *
from infi.instruct.base import Marshal, EMPTY_CONTEXT
from infi.instruct.errors import InstructError
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.string import VarSizeStringMarshal, VarSizeBufferMarshal, PaddedStringMarshal, PADDING_DIRECTION_BOTH
from infi.instruct.struct import Struct, Field
from infi.instruct.struct.selector import FuncStructSelectorMarshal, StructSelectorMarshal
from infi.instruct.utils.read_ahead_stream import ReadAheadStream
from infi.instruct.buffer import Buffer, bytes_ref, uint_field, be_uint_field, bytearray_field, after_ref, len_ref, self_ref, list_field, uint8
from infi.instruct.buffer.compat import buffer_to_struct_adapter

ID = 'C20'
RULE = ('look-ahead stream: all reachable states with all operations, and all histories to a depth; objects: structs of the grammar of C14, '
        'one after another through five kinds of streams; choices: all look-ahead patterns up to past the end of the object, nested and in arrays')
ASSUMPTIONS = ['a look-ahead read continues after the bytes that were already looked at']

# ---------------------------------------------------------------- the look-ahead stream


class AheadModel(object):
    def __init__(self, data):
        self.data, self.taken, self.buffer, self.ahead = data, 0, b'', False

    def take(self, n):
        out = self.data[self.taken:self.taken + n]
        self.taken += len(out)
        return out

    def apply(self, op):
        if op[0] == 'mode':
            self.ahead = op[1]
            return None
        if op[0] == 'read':
            if self.ahead:
                out = self.take(op[1])
                self.buffer += out
                return out
            out = self.buffer[:op[1]]
            self.buffer = self.buffer[op[1]:]
            return out + self.take(op[1] - len(out))
        if self.ahead or self.buffer:
            return 'refused'
        self.data += b'W'
        return None


class Source(object):
    """What is below: reads in order, writes to the end."""

    def __init__(self, data):
        self.data, self.taken = data, 0

    def read(self, n):
        out = self.data[self.taken:self.taken + n]
        self.taken += len(out)
        return out

    def write(self, data):
        self.data += data


OPS = [['read', 0], ['read', 1], ['read', 2], ['read', 3], ['mode', True], ['mode', False], ['write']]


def real_op(stream, op):
    if op[0] == 'read':
        return bytes(stream.read(op[1]))
    if op[0] == 'mode':
        stream.set_read_ahead(op[1])
        return None
    try:
        stream.write(b'W')
    except Exception:
        return 'refused'


def replay(data, history):
    source = Source(data)
    stream, model = ReadAheadStream(source), AheadModel(data)
    for op in history:
        got, want = real_op(stream, op), model.apply(op)
    return source, stream, model, got, want


def check_ahead(ctx, data, history):
    source, stream, model, got, want = replay(data, history)
    ctx.eq(got, want, "last of %s on %r" % (history, data))
    ctx.eq((stream.is_read_ahead_empty(), source.taken, source.data), (not model.buffer, model.taken, model.data), "state after %s on %r" % (history, data))
    rest = model.buffer + model.data[model.taken:]
    stream.set_read_ahead(False)
    ctx.eq(bytes(stream.read(len(rest) + 2)), rest, "what is left after %s on %r" % (history, data))
    ctx.step()
    return model.taken, len(model.buffer), model.ahead, len(model.data)


def run_ahead_states(case, ctx):
    """All reachable states, each by a shortest history, with all operations."""
    data = b'abcdefghij'[:case]
    seen = {(0, 0, False, len(data)): []}
    todo = [[]]
    while todo:
        history = todo.pop(0)
        for op in OPS:
            key = check_ahead(ctx, data, history + [op])
            if op == ['write'] and key[3] > len(data) + 1:
                continue
            if key not in seen:
                seen[key] = history + [op]
                todo.append(history + [op])
            ctx.state(case, key)
    ctx.trace(len(seen))
    ctx.outcome('states')


def run_ahead_histories(case, ctx):
    first, n, size = case
    data = b'abcdefgh'[:size]
    for rest in itertools.product(OPS, repeat=n - len(first)):
        key = check_ahead(ctx, data, first + list(rest))
        ctx.state(size, key)
    ctx.trace()
    ctx.outcome('histories')


# ---------------------------------------------------------------- streams

class NoTell(object):
    def __init__(self, data):
        self.inner = io.BytesIO(data)

    def read(self, n):
        return self.inner.read(n)

    def left(self):
        return self.inner.read()


class BadTell(NoTell):
    def tell(self):
        raise io.UnsupportedOperation("tell")


class Pipe(object):
    """A real pipe."""

    def __init__(self, data):
        r, w = os.pipe()
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        self.file = os.fdopen(r, 'rb')
        self.read = self.file.read
        self.tell = self.file.tell

    def left(self):
        with self.file:
            return self.file.read()


class Offset(NoTell):
    """Starts in the middle."""

    def __init__(self, data):
        self.inner = io.BytesIO(b'123' + data)
        self.inner.read(3)
        self.tell = self.inner.tell
        self.seek = self.inner.seek


class Ahead(NoTell):
    """The look-ahead stream itself, after looking at some of it."""

    def __init__(self, data):
        self.inner = ReadAheadStream(io.BytesIO(data))
        self.inner.set_read_ahead(True)
        self.inner.read(2)
        self.inner.set_read_ahead(False)
        self.read = self.inner.read

    def left(self):
        return self.inner.read(1 << 16)


STREAMS = {'no tell': NoTell, 'bad tell': BadTell, 'pipe': Pipe, 'offset': Offset, 'ahead': Ahead}


class Top(StructItem):
    pass


def run_objects(case, ctx):
    items, kind, n = case
    s = Top(items, name='Top')
    cls = s.define()
    combos = s.few()
    specs = s.values()
    order = [specs[k % len(specs)] for k in range(n)]
    data = b''.join(s.encode(v) for v in order)
    if len(data) > 4000:
        ctx.outcome('skipped')
        return
    stream = STREAMS[kind](data + b'\xf0\xf1\xf2\xf3\xf4')
    for k, v in enumerate(order):
        got = cls.create_from_stream(stream)
        if not same(got, v):
            ctx.fail("object %d of %s from a stream with %s: %s instead of %s", k, items, kind, show(got), v)
        ctx.step()
    ctx.eq(stream.left(), b'\xf0\xf1\xf2\xf3\xf4', "what is left after %d of %s from a stream with %s" % (n, items, kind))
    # as elements
    body = VarSizeArrayMarshal(UBInt8, cls)
    stream = STREAMS[kind](pystruct.pack('B', n) + data + b'\xf0\xf1')
    ctx.true(same(body.create_from_stream(stream), order), "array of %s from a stream with %s" % (items, kind))
    ctx.eq(stream.left(), b'\xf0\xf1', "what is left after an array of %s from a stream with %s" % (items, kind))
    body = SumSizeArrayMarshal(UBInt32, cls)
    if all(s.encode(v) for v in specs):
        stream = STREAMS[kind](pystruct.pack('>L', len(data)) + data + b'\xf0\xf1')
        ctx.true(same(body.create_from_stream(stream), order), "byte-counted array of %s from a stream with %s" % (items, kind))
        ctx.eq(stream.left(), b'\xf0\xf1', "what is left after a byte-counted array of %s from a stream with %s" % (items, kind))
    ctx.state(repr(items), kind)
    ctx.outcome('objects')
    ctx.trace()


def gen_objects(tier):
    def gen():
        single = [[i] for i in ALL + NESTED]
        double = [list(p) for p in itertools.product(PAIRS, repeat=2)]
        for items in single + (double if tier != 'quick' else double[::3]) + ([list(p) for p in itertools.product(ALL, repeat=2)] if tier != 'quick' else []):
            for kind in sorted(STREAMS):
                yield [items, kind, 3]
    return gen


# ---------------------------------------------------------------- padding on the wire

def run_wire(case, ctx):
    """Byte-counted arrays of strings with padding on the wire, which isn't part of the value."""
    element, lengths, kind, wrapped = case
    m = {'vstr': VarSizeStringMarshal(UBInt8), 'both': VarSizeStringMarshal(UBInt8, b' ', PADDING_DIRECTION_BOTH),
         'struct': type(Struct)('E', (Struct,), dict(_fields_=[UBInt8('k'), VarSizeString('s', UBInt8)], __module__='case'))}[element]
    pad = b' ' if element == 'both' else b'\0'
    content = b''
    want = []
    for text, padding in lengths:
        body = b'x' * text + pad * padding
        if element == 'both':
            body = pad * (padding // 2) + b'x' * text + pad * (padding - padding // 2)
        content += (b'\x07' if element == 'struct' else b'') + pystruct.pack('B', len(body)) + body
        want.append(b'x' * text)
    array = SumSizeArrayMarshal(UBInt16, m)
    data = pystruct.pack('>H', len(content)) + content
    if wrapped:
        inner = type(Struct)('I', (Struct,), dict(_fields_=[UBInt8('key'), Field('a', array), UBInt8('end')], __module__='case'))
        if wrapped == 'key':
            m = StructSelectorMarshal(UBInt8, {1: inner})
        else:
            m = FuncStructSelectorMarshal(lambda stream, context: inner if stream.read(3)[0:1] == b'\x01' else None)
        data = b'\x01' + data + b'\x63'
    else:
        m = array
    stream = STREAMS[kind](data + b'rest')
    got = m.create_from_stream(stream)
    if wrapped:
        ctx.eq((got.key, got.end), (1, 0x63), "beside the array in %s" % (case,))
        got = got.a
    if element == 'struct':
        got = [e.s for e in got]
    ctx.eq(got, want, "%s" % (case,))
    ctx.eq(stream.left(), b'rest', "what is left after %s" % (case,))
    ctx.step()
    ctx.state(*map(repr, case))
    ctx.outcome('padding' if any(p for t, p in lengths) else 'none')


def gen_wire():
    forms = [(t, p) for t in (0, 1, 2) for p in (0, 1, 3)]
    for element in ('vstr', 'both', 'struct'):
        for n in range(3):
            for lengths in itertools.product(forms, repeat=n):
                for kind in sorted(STREAMS):
                    yield [element, [list(x) for x in lengths], kind, None]
                for wrapped in ('key', 'func'):
                    yield [element, [list(x) for x in lengths], 'no tell' if n % 2 else 'offset', wrapped]


# ---------------------------------------------------------------- choices

def fixed(name, n, key=None):
    fields = ([ConstField('key', key, UBInt8)] if key is not None else []) + [UBInt8('b%d' % k) for k in range(n)]
    return type(Struct)(name, (Struct,), dict(_fields_=fields, __module__='case'))


def var(name):
    return type(Struct)(name, (Struct,), dict(_fields_=[VarSizeBuffer('v', UBInt8)], __module__='case'))


def run_look(case, ctx):
    """A choice that looks at bytes with these reads and then takes a struct of this size."""
    reads, size, kind, how, before = case
    seen = []
    if how == 'sum':
        # the sizes of the elements are told by a stream of which a part was read before
        target = type(Struct)('T', (Struct,), dict(_fields_=[SumSizeArray('v', UBInt8, UBInt8)], __module__='case'))
    else:
        target = fixed('T', size) if how != 'var' else var('T')

    def look(stream, context):
        for n in reads:
            seen.append(bytes(stream.read(n)))
        return target
    if how == 'field':
        def choose(obj, stream, context):
            seen.append(obj.first)
            return look(stream, context)
        m = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('first'), SelectStructByFunc('x', choose)], __module__='case'))
    else:
        m = FuncStructSelectorMarshal(look)
        if how == 'twice':
            m = FuncStructSelectorMarshal(lambda stream, context, m=m: stream.read(before) and None or m)
    body = bytes(bytearray(range(0x40, 0x40 + size))) if how not in ('var', 'sum') else pystruct.pack('B', size - 1) + b'v' * (size - 1)
    data = (b'\x2a' if how == 'field' else b'') + body + bytes(bytearray(range(0x80, 0x90)))
    stream = STREAMS[kind](data)
    looked = max(sum(reads), before if how == 'twice' else 0)
    if sum(reads) > size or how == 'twice' and before > size:
        e = ctx.rejects(lambda: m.create_from_stream(stream), "look-ahead of %s with %d bytes" % (reads, size))
        ctx.true(isinstance(e, InstructError), "%r after look-ahead of %s" % (e, reads))
        return
    got = m.create_from_stream(stream)
    if how == 'field':
        ctx.eq((got.first, seen.pop(0)), (0x2a, 0x2a), "the struct as seen by the choice")
        got = got.x
    at = 0
    tail = data[1:] if how == 'field' else data
    for n, s in zip(reads, seen):
        ctx.eq(s, tail[at:at + n], "look-ahead read in %s" % (case,))
        at += n
    if how in ('var', 'sum'):
        ctx.eq(bytes(bytearray(got.v)), body[1:], "content in %s" % (case,))
    else:
        ctx.eq([getattr(got, 'b%d' % k) for k in range(size)], list(bytearray(body)), "content in %s" % (case,))
    ctx.eq(stream.left(), bytes(bytearray(range(0x80, 0x90))), "what is left after %s" % (case,))
    ctx.state(*map(repr, case))
    ctx.step()
    ctx.outcome('taken')


def gen_look(tier):
    def gen():
        top = 4 if tier == 'quick' else 6
        patterns = [list(p) for n in range(4) for p in itertools.product((0, 1, 2, 3, 5)[:4 if tier == 'quick' else 5], repeat=n)]
        for size in range(1, top + 1):
            for reads in patterns:
                for kind in ('no tell', 'offset', 'ahead'):
                    for how in ('plain', 'field', 'var', 'sum'):
                        yield [reads, size, kind, how, 0]
                if len(reads) < 3:
                    for before in range(0, size + 2):
                        yield [reads, size, 'offset', 'twice', before]
    return gen


def run_keys(case, ctx):
    """Choice by a key that is part of the object."""
    key_type, mapping, default, keys, container = case
    m = {'u8': UBInt8, 'be16': UBInt16, 's8': SBInt8, 'vstr': VarSizeStringMarshal(UBInt8), 'pad2': PaddedStringMarshal(2)}[key_type]
    values = {'u8': [0, 1, 255], 'be16': [0, 1, 0x100], 's8': [0, -1, 127], 'vstr': [b'', b'a', b'bb'], 'pad2': [b'', b'a', b'bb']}[key_type]
    structs = []
    for k in range(3):
        structs.append(type(Struct)('K%d' % k, (Struct,), dict(_fields_=[Field('key', m)] + [UBInt8('b%d' % i) for i in range(k)], __module__='case')))
    table = dict((values[i], structs[j]) for i, j in mapping)
    selector = StructSelectorMarshal(m, table, structs[2] if default else None)
    data = b''
    want = []
    failed = False
    for k in keys:
        cls = table.get(values[k], structs[2] if default else None)
        if cls is None:
            failed = True
            cls = structs[0]
        n = structs.index(cls)
        spec = Rec(cls, dict([('key', values[k])] + [('b%d' % i, 0x30 + i) for i in range(n)]))
        want.append(spec)
        data += cls(**spec.values).to_bytes()
    if container == 'array':
        selector = VarSizeArrayMarshal(UBInt8, selector)
        data = pystruct.pack('B', len(want)) + data
    elif container == 'sum':
        selector = SumSizeArrayMarshal(UBInt8, selector)
        data = pystruct.pack('B', len(data)) + data
    elif container == 'fixed':
        selector = FixedSizeArrayMarshal(len(want), selector)
    stream = NoTell(data + b'rest')

    def read():
        if container == 'one by one':
            return [selector.create_from_stream(stream) for k in keys]
        return selector.create_from_stream(stream)
    if failed:
        ctx.true(isinstance(ctx.rejects(read, "%s with an unknown key" % (case,)), InstructError), "error for an unknown key")
        return
    ctx.true(same(read(), want), "%s" % (case,))
    ctx.eq(stream.left(), b'rest', "what is left after %s" % (case,))
    ctx.eq(selector.write_to_string([construct(w) for w in want]) if container != 'one by one' else
           b''.join(selector.write_to_string(construct(w)) for w in want), data, "written %s" % (case,))
    ctx.step()
    ctx.state(*map(repr, case))
    ctx.outcome('taken')


def gen_keys():
    maps = [[[0, 0]], [[0, 1], [1, 0]], [[1, 1], [2, 2]], [[0, 2], [1, 2], [2, 0]]]
    for key_type in ('u8', 'be16', 's8', 'vstr', 'pad2'):
        for mapping in maps:
            for default in (0, 1):
                for n in (1, 2, 3):
                    for keys in itertools.product(range(3), repeat=n):
                        for container in ('one by one', 'array', 'sum', 'fixed'):
                            yield [key_type, mapping, default, list(keys), container]


def run_short(case, ctx):
    """A key that is longer than the object that was chosen by it: what was looked at and not taken is not dropped in silence."""
    key_size, sizes, pick, kind = case
    structs = [fixed('S%d' % i, n) for i, n in enumerate(sizes)]
    key = {1: UBInt8, 2: UBInt16, 3: None, 4: UBInt32}[key_size]
    data = bytes(bytearray(range(0x40, 0x40 + max(key_size, max(sizes)))))
    if key_size == 3:
        class Triple(Marshal):
            def create_from_stream(self, stream, context=None, *args, **kwargs):
                return tuple(bytearray(stream.read(3)))

            def to_repr(self, obj, context=None):
                return repr(obj)
        key = Triple()
        table = {tuple(bytearray(data[:3])): structs[0]}
    else:
        table = {int.from_bytes(data[:key_size], 'big'): structs[0]}
    if pick == 'default':
        table = dict((k, structs[1]) for k in ((9, 9, 9), 9))
    selector = StructSelectorMarshal(key, table, structs[0] if pick == 'default' else structs[1])
    stream = STREAMS[kind](data + b'rest')
    if sizes[0] < key_size:
        err = ctx.rejects(lambda: selector.create_from_stream(stream), "%s: %d bytes of the key are not in the object" % (case, key_size - sizes[0]))
        ctx.true(isinstance(err, InstructError), "%s: error is %r" % (case, err))
    else:
        got = selector.create_from_stream(stream)
        ctx.true(type(got) is structs[0], "%s: got %r" % (case, got))
        ctx.eq(stream.left(), data[sizes[0]:] + b'rest', "what is left after %s" % (case,))
        ctx.eq(selector.write_to_string(got), data[:sizes[0]], "written %s" % (case,))
        ctx.outcome('taken')
    if sizes[0] < key_size:
        ctx.outcome('rejected')
    ctx.step()
    ctx.state(*map(repr, case))


def gen_short():
    for key_size in (1, 2, 3, 4):
        for a in range(1, 6):
            for b in (1, 4, 5):
                for pick in ('key', 'default'):
                    for kind in sorted(STREAMS):
                        yield [key_size, [a, b], pick, kind]


def run_nested(case, ctx):
    """Choices inside of choices: every level looks ahead before the next."""
    levels, size, kind = case
    m = leaf = fixed('Leaf', size)
    log = []
    for depth, (how, n) in enumerate(reversed(levels)):
        if how == 'func':
            def choose(stream, context, m=m, n=n):
                log.append(bytes(stream.read(n)))
                return m
            m = FuncStructSelectorMarshal(choose)
        elif how == 'parse':          # the choice parses with the inner choice before it decides on it
            def choose(stream, context, m=m):
                o = m.create_from_stream(stream)
                log.append(o.b0)
                return m
            m = FuncStructSelectorMarshal(choose)
        elif how == 'field':
            m = type(Struct)('F', (Struct,), dict(_fields_=[Field('x', m), UBInt8('end')], __module__='case'))
        elif how == 'key':
            if not (isinstance(m, type) and issubclass(m, Struct)):
                m = type(Struct)('G', (Struct,), dict(_fields_=[Field('x', m)], __module__='case'))
            m = StructSelectorMarshal(UBInt8, {0x40: m})
        else:
            m = type(Struct)('A', (Struct,), dict(_fields_=[FixedSizeArray('x', 2, m)], __module__='case'))
    data, ok, count = wire(levels, size)
    stream = STREAMS[kind](data + b'\x81\x82\x83\x84')
    if not ok:
        ctx.rejects(lambda: m.create_from_stream(stream), "%s" % (case,))
        return
    got = m.create_from_stream(stream)
    ctx.eq(stream.left(), b'\x81\x82\x83\x84', "what is left after %s" % (case,))
    ctx.eq(m.write_to_string(got), data, "written after %s" % (case,))
    ctx.state(*map(repr, case))
    ctx.step()
    ctx.outcome('taken')


def wire(levels, size):
    """Expected bytes, whether every look-ahead stays within its object, ..."""
    def build(i):
        if i == len(levels):
            return bytes(bytearray(range(0x40, 0x40 + size))), True
        data, ok = build(i + 1)
        how, n = levels[i]
        if how == 'field':
            return data + b'\x5e', ok
        if how == 'array':
            return data + data, ok
        if how == 'func':
            ok = ok and n <= len(data)
        return data, ok
    data, ok = build(0)
    return data, ok, 0


def gen_nested(tier):
    def gen():
        hows = [['func', 0], ['func', 1], ['func', 2], ['func', 3], ['key', 1], ['field', 0], ['array', 0], ['parse', 0]]
        for depth in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            for levels in itertools.product(hows, repeat=depth):
                names = [h for h, n in levels]
                if 'parse' in names and not all(h in ('func', 'parse') for h in names[names.index('parse') + 1:]):
                    continue
                for size in (1, 2):
                    yield [[list(x) for x in levels], size, ('no tell', 'offset', 'bad tell')[depth % 3]]
    return gen


# ---------------------------------------------------------------- adapted records

def run_adapter(case, ctx):
    layout, n, container, kind = case
    attrs = {}
    at = 0
    for k, bits in enumerate(layout):
        first, last = at // 8, (at + bits - 1) // 8
        where = bytes_ref[first].bits[at % 8:at % 8 + bits] if first == last else bytes_ref[first:last + 1].bits[at % 8:at % 8 + bits]
        attrs['f%d' % k] = uint_field(where=where)
        at += bits
    cls = record(attrs)
    size = (at + 7) // 8
    m = buffer_to_struct_adapter(cls)
    values = []
    data = b''
    for i in range(n):
        v = dict(('f%d' % k, (0x6D2C9A35 >> k + i) & (1 << bits) - 1) for k, bits in enumerate(layout))
        values.append(v)
        word = shift = 0
        for k, bits in enumerate(layout):
            word |= v['f%d' % k] << shift
            shift += bits
        # partial-byte numbers are stored from the least significant bit on; whole-byte little endian ones likewise
        data += bytes(bytearray(word >> b & 255 for b in range(0, size * 8, 8)))
    head = b''
    if container == 'array':
        m = VarSizeArrayMarshal(UBInt8, m)
        head = pystruct.pack('B', n)
    elif container == 'sum':
        m = SumSizeArrayMarshal(UBInt8, m)
        head = pystruct.pack('B', len(data))
    elif container == 'fixed':
        m = FixedSizeArrayMarshal(n, m)
    elif container == 'chosen':
        m = FuncStructSelectorMarshal(lambda stream, context, m=m: stream.read(1) and m)
    elif container == 'field':
        m = type(Struct)('S', (Struct,), dict(_fields_=[UBInt8('a'), Field('x', m), UBInt8('b')], __module__='case'))
        data = b''.join(b'\x01' + data[k * size:(k + 1) * size] + b'\x02' for k in range(n))
    stream = STREAMS[kind](head + data + b'rest')
    if container in ('array', 'sum', 'fixed'):
        got = m.create_from_stream(stream)
    else:
        got = [m.create_from_stream(stream) for k in range(n)]
    ctx.eq(stream.left(), b'rest', "what is left after %s" % (case,))
    objs = [g.x if container == 'field' else g for g in got]
    ctx.eq([dict((k, getattr(o, k)) for k in attrs) for o in objs], values, "%s" % (case,))
    if container != 'chosen':       # choices by function write structs
        ctx.eq(head + b''.join(bytes(m.write_to_string(g)) for g in got) if container not in ('array', 'sum', 'fixed') else bytes(m.write_to_string(got)),
               head + data, "%s written" % (case,))
    ctx.step()
    ctx.state(*map(repr, case))
    ctx.outcome('records')


def gen_adapter():
    layouts = [[8], [4, 4], [3], [8, 4], [12], [1, 2, 3, 4], [16, 8], [5, 6]]
    for layout in layouts:
        for n in (1, 2, 3):
            for container in ('plain', 'array', 'sum', 'fixed', 'chosen', 'field'):
                for kind in ('no tell', 'offset', 'bad tell', 'ahead'):
                    yield [layout, n, container, kind]


def run_unsized(case, ctx):
    """Records without a fixed size can't be taken from a stream."""
    kind = case
    attrs = {'n': uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.x))}
    if kind == 'open':
        attrs['x'] = bytearray_field(where=bytes_ref[1:])
    elif kind == 'counted':
        attrs['x'] = bytearray_field(where=bytes_ref[1:1 + attrs['n']])
    else:
        attrs['x'] = list_field(uint8, n=attrs['n'], where=bytes_ref[1:])
    cls = record(attrs)
    m = buffer_to_struct_adapter(cls)
    ctx.rejects(lambda: m.create_from_stream(NoTell(b'\x02abcdef')), "taking a record that's %s" % kind)
    o = m.create_from_string(b'\x02ab')
    ctx.eq((m.sizeof(o), bytes(m.write_to_string(o))), (3, b'\x02ab'), "record that's %s" % kind)
    ctx.state(kind)


# ---------------------------------------------------------------- announced sizes

ELEMENTS = ['be16', 'vstr', ['struct', ['vstr', ['opt', 'u8']]], ['varr', 'be16'], ['sarr', 'vstr'], ['farr', 2, 'vstr'], ['sel', ['u8'], []],
            ['fsel', 1, ['u8'], ['ptr']], ['struct', ['u8', ['lazy', ['be16']]]], 'sle32', ['sarr', ['sarr', 'u8']]]


def run_totals(case, ctx):
    """Every announced number of bytes: the elements fill it exactly or it's an error."""
    expr, kind, prefix, count = case
    t = parse(expr)
    values = [v for v in t.values() if t.encode(v)]
    for order in itertools.product(range(len(values)), repeat=count):
        order = [values[k] for k in order]
        encoded = [t.encode(v) for v in order]
        ends = dict((sum(map(len, encoded[:k])), order[:k]) for k in range(count + 1))
        data = b''.join(encoded) + b'\xf0\xf1'
        if len(data) > 60:
            continue
        body = SumSizeArrayMarshal({'u8': UBInt8, 'le16': ULInt16}[prefix], t.marshal())
        for total in range(len(data) - 1):
            head = pystruct.pack({'u8': 'B', 'le16': '<H'}[prefix], total)
            stream = STREAMS[kind](head + data)
            what = "%d bytes of %s from a stream with %s" % (total, order, kind)
            if total in ends:
                ctx.true(same(body.create_from_stream(stream), ends[total]), what)
                ctx.eq(stream.left(), data[total:], "what is left after %s" % what)
                ctx.outcome('taken')
            else:
                ctx.rejects(lambda: body.create_from_stream(stream), what)
                # by itself, in a string
                ctx.rejects(lambda: body.create_from_string(head + data[:total]), what)
                if kind == 'pipe':
                    stream.left()
            ctx.step()
        ctx.state(expr, prefix, kind, repr(order))
        ctx.trace()


EMPTY = [['farr', 0, 'u8'], 'pad0', ['struct', [['farr', 0, 'vstr'], ['pad', 0]]], ['farr', 3, ['farr', 0, 'u8']], ['farr', 0, ['sarr', 'u8']],
         ['struct', [['lazy', ['pad0', ['farr', 0, 'u8']]]]], ['struct', [['const', 'pad0']]]]


def run_no_size(case, ctx):
    """Elements that take nothing can't fill an announced number of bytes, and fill none."""
    expr, kind, total = case
    t = parse(expr)
    assert not any(t.encode(v) for v in t.values())
    data = b'abcd'
    body = SumSizeArrayMarshal(UBInt8, t.marshal())
    head = pystruct.pack('B', total)
    stream = STREAMS[kind](head + data)
    if total == 0:
        ctx.eq(body.create_from_stream(stream), [], "no bytes of %s" % (case,))
        ctx.eq(stream.left(), data, "what is left")
        ctx.outcome('taken')
    else:
        ctx.rejects(lambda: body.create_from_stream(stream), "%d bytes of %s" % (total, case))
        ctx.outcome('rejected')
    ctx.step()
    ctx.state(*map(repr, case))
    ctx.trace()


def gen_totals(tier):
    for expr in ELEMENTS:
        for kind in sorted(STREAMS):
            for prefix in ('u8', 'le16'):
                for count in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
                    yield [expr, kind, prefix, count]


LARGE = {'ahead': (8192, 24), 'choices': (512, 9)}


def spaces(tier):
    quick = tier == 'quick'
    n = 5 if quick else 7
    return [
        Space('ahead states', lambda: iter(range(0, 7 if quick else 11)), run_ahead_states, 'reachable states of the look-ahead stream', ['states']),
        Space('ahead histories', lambda: ([[a, b], n, size] for a in OPS for b in OPS for size in (2, 6)), run_ahead_histories,
              'histories of the look-ahead stream', ['histories']),
        Space('wire', gen_wire, run_wire, 'byte-counted arrays with padding on the wire', ['padding', 'none']),
        Space('totals', lambda: gen_totals(tier), run_totals, 'announced sizes of byte-counted arrays', ['taken', 'rejected']),
        Space('no size', lambda: ([e, k, n] for e in EMPTY for k in sorted(STREAMS) for n in (0, 1, 2, 4)), run_no_size,
              'elements of no size in byte-counted arrays', ['taken', 'rejected']),
        Space('look', gen_look(tier), run_look, 'choices by function: look-ahead patterns', ['taken', 'rejected']),
        Space('keys', gen_keys, run_keys, 'choices by key', ['taken', 'rejected']),
        Space('short', gen_short, run_short, 'keys longer than the object', ['taken', 'rejected']),
        Space('nested', gen_nested(tier), run_nested, 'choices within choices', ['taken', 'rejected']),
        Space('adapter', gen_adapter, run_adapter, 'adapted records', ['records']),
        Space('unsized', lambda: iter(['open', 'counted', 'list']), run_unsized, 'adapted records without a fixed size', ['rejected']),
        Space('objects', gen_objects(tier), run_objects, 'objects one after another', ['objects']),
    ]
