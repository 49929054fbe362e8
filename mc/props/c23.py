"""C23: constant, mapped and optional fields admit only valid content."""
import io
import itertools
import struct as pystruct
from mc.core import Space
from mc import sfamily
from mc.sfamily import StructItem, Rec, construct, same, show, parse
from infi.instruct import *
from infi.instruct.errors import InstructError
from infi.instruct.mapping import FixedSizeMappingMarshal
from infi.instruct.string import *
from infi.instruct.array import *
from infi.instruct.struct import Struct, Field
from infi.instruct.struct.optional import OptionalField

ID = 'C23'
RULE = ('constants: every constant of one byte and of each kind against every value assigned or parsed; maps: all maps over small domains, every name and '
        'wire value; optional fields: all patterns of presence of up to three, chained, with values, conditions and defaults')
ASSUMPTIONS = ['a keyword argument for a constant field is ignored',
               'an absent optional field that is parsed keeps its default',
               'a struct constant is not changed through its own attributes']


def define(name, fields, bases=(Struct,)):
    return type(Struct)(name, bases, dict(_fields_=fields, __module__='case'))


# ---------------------------------------------------------------- constants

class Const1(Struct):
    _fields_ = [UBInt8('a'), UBInt8('b', 5)]


class Const2(Struct):
    _fields_ = [UBInt8('a'), UBInt8('b', 5)]


class Vary(Struct):
    _fields_ = [VarSizeBuffer('v', UBInt8), Field('n', Const1)]


class Derived1(Const1):
    _fields_ = Const1._fields_ + [UBInt8('c', 1)]


def vary(v, a):
    return Vary(v=v, n=Const1(a=a))


KINDS = {
    # marshal, valid, others of the same kind, wrong kind
    'sb8': (lambda: SBInt8, [0, -1, 127, -128], []),
    'be16': (lambda: UBInt16, [0, 1, 256, 65535], []),
    'le32': (lambda: ULInt32, [0, 0x01020304, 0x04030201], []),
    'float': (lambda: BFloat64, [0.0, 1.5, -1.5], []),
    'padded': (lambda: PaddedStringMarshal(3), [b'', b'ab', b'a', b'abc'], []),
    'vstr': (lambda: VarSizeStringMarshal(UBInt8), [b'', b'a', b'ab', b'\0a'], []),
    'vbuf': (lambda: VarSizeBufferMarshal(UBInt8), [b'', b'a', b'a\0', b'\0'], []),
    'fbuf': (lambda: FixedSizeBufferMarshal(2), [b'ab', b'ba', b'\0\0'], []),
    'map': (lambda: FixedSizeMappingMarshal({'x': 1, 'y': 0}, UBInt8), ['x', 'y'], []),
    'farr': (lambda: FixedSizeArrayMarshal(2, UBInt8), [[1, 2], [2, 1], [0, 0]], []),
    'varr': (lambda: VarSizeArrayMarshal(UBInt8, UBInt16), [[], [1], [1, 2]], []),
    'struct': (lambda: None, [lambda: Const1(a=0), lambda: Const1(a=1), lambda: Const1(a=1, b=6), lambda: Const1(a=255, b=255)],
               [lambda: Const2(a=1), lambda: Derived1(a=1), lambda: None]),
    'nested': (lambda: None, [lambda: vary(b'', 1), lambda: vary(b'a', 1), lambda: vary(b'a', 2), lambda: vary(b'ab', 1)], [lambda: Const1(a=1)]),
}


def value(v):
    return v() if callable(v) else v


def make_const(name, kind, v):
    m = KINDS[kind][0]()
    return ConstField(name, value(v), m) if m is not None else ConstField(name, value(v))


def make_plain(name, kind):
    m = KINDS[kind][0]()
    return Field(name, m if m is not None else type(value(KINDS[kind][1][0])))


def equal(a, b):
    if isinstance(a, Struct) or isinstance(b, Struct):
        return type(a) == type(b) and a.to_bytes() == b.to_bytes()
    return a == b


def is_const(ctx, o, v, what):
    ctx.true(equal(o.c, value(v)) and equal(o.d, 7), "%s: the constants are %s and %s" % (what, show(o.c), o.d))


def run_const(case, ctx):
    kind, index, place = case
    v = KINDS[kind][1][index]
    fields = [UBInt8('before'), make_const('c', kind, v), UBInt8('after'), ConstField('d', 7, UBInt8)]
    plain = [UBInt8('before'), make_plain('c', kind), UBInt8('after'), UBInt8('d')]
    if place == 'lazy':
        fields = [UBInt8('before'), Lazy(make_const('c', kind, v), UBInt8('after')), ConstField('d', 7, UBInt8)]
    cls = define('S', fields)
    free = define('S', plain)
    if place == 'derived':
        cls = define('T', cls._fields_, (cls,))

    def wire(x, d=7):
        return free(before=1, c=value(x), after=2, d=d).to_bytes()

    def parse(data):
        if place == 'array':
            return VarSizeArrayMarshal(UBInt8, cls).create_from_string(b'\x01' + data)[0]
        o = cls.create_from_string(data)
        o.after          # lazily parsed content is checked when it is accessed
        return o
    right = wire(v)
    for how in ('created', 'parsed', 'created with'):
        o = cls(before=1, after=2) if how == 'created' else cls(before=1, after=2, c=value(v)) if how == 'created with' else parse(right)
        is_const(ctx, o, v, "%s %s" % (case, how))
        ctx.eq(o.to_bytes(), right, "bytes of %s %s" % (case, how))
        o.c = value(v)            # its own value may be assigned
        is_const(ctx, o, v, "%s %s, assigned its value" % (case, how))
        for other in KINDS[kind][1] + KINDS[kind][2] + [None, 'other', 1 << 70, object()]:
            if equal(value(other), value(v)):
                continue
            ctx.rejects(lambda: setattr(o, 'c', value(other)), "assigning %s to %s" % (show(value(other)), case))
            is_const(ctx, o, v, "%s %s after assigning %s" % (case, how, show(value(other))))
            ctx.eq(o.to_bytes(), right, "bytes of %s %s after assigning" % (case, how))
            ctx.step()
        ctx.rejects(lambda: setattr(o, 'd', 8), "assigning another constant")
    ctx.true(equal(getattr(cls(), 'c'), value(v)), "the constant of an empty instance of %s" % (case,))
    for other in KINDS[kind][1]:
        data = wire(other)
        if equal(value(other), value(v)):
            is_const(ctx, parse(data), v, "%s parsed" % (case,))
            ctx.outcome('accepted')
        else:
            ctx.rejects(lambda: parse(data), "%s parsed from %s" % (case, show(value(other))))
        ctx.step()
    ctx.rejects(lambda: parse(wire(v, 6)), "the other constant of %s" % (case,))
    is_const(ctx, parse(right), v, "%s parsed after failures" % (case,))
    ctx.state(*case)
    ctx.trace()


def gen_const():
    for kind in sorted(KINDS):
        for index in range(len(KINDS[kind][1])):
            for place in ('plain', 'lazy', 'derived', 'array'):
                if place == 'lazy' and kind in ('vstr', 'vbuf', 'varr', 'nested'):
                    continue
                yield [kind, index, place]


def run_byte(case, ctx):
    """A byte, against all bytes."""
    c = case
    cls = define('S', [ConstField('c', c, UBInt8)])
    o = cls()
    for x in range(256):
        data = pystruct.pack('B', x)
        if x == c:
            ctx.eq(cls.create_from_string(data).c, c, "parsed")
            o.c = x
            ctx.outcome('accepted')
        else:
            ctx.rejects(lambda: cls.create_from_string(data), "parsing %d as the constant %d" % (x, c))
            ctx.rejects(lambda: setattr(o, 'c', x), "assigning %d to the constant %d" % (x, c))
        ctx.eq((o.c, o.to_bytes()), (c, pystruct.pack('B', c)), "constant %d" % c)
    ctx.state(c)
    ctx.step(256)


def run_struct_bytes(case, ctx):
    """A struct of two bytes, against all bytes in each of them."""
    a, b = case
    cls = define('S', [ConstField('c', Const1(a=a, b=b)), UBInt8('x')])
    for k in range(2):
        for v in range(256):
            pair = [a, b]
            pair[k] = v
            data = pystruct.pack('BBB', pair[0], pair[1], 9)
            if pair == [a, b]:
                o = cls.create_from_string(data)
                ctx.eq((o.c.a, o.c.b, o.x), (a, b, 9), "parsed")
                ctx.outcome('accepted')
            else:
                ctx.rejects(lambda: cls.create_from_string(data), "parsing %r as the constant %s" % (data, case))
            ctx.step()
    ctx.state(a, b)


# ---------------------------------------------------------------- maps

def run_map(case, ctx):
    prefix, table, form = case
    m, fmt, all_values = {'UBInt8': (UBInt8, 'B', range(256)), 'SBInt8': (SBInt8, 'b', range(-128, 128)),
                          'ULInt16': (ULInt16, '<H', [0, 1, 2, 256, 512, 3, 0x102, 0xffff]),
                          'pad2': (PaddedStringMarshal(2), '2s', [b'', b'a', b'ab', b'ba', b'b'])}[prefix]
    table = dict((k, v.encode() if prefix == 'pad2' else v) for k, v in (tuple(x) for x in table))
    if form == 'numbers':
        table = dict((int(k, 36), v) for k, v in table.items())
    names = sorted(table)
    others = ['q', 'X', 'x ', 7, None, (1,)] + list(table.values())
    mapping = FixedSizeMappingMarshal(dict(table), m)
    cls = define('S', [UBInt8('a'), MappingField('v', m, dict(table)), UBInt8('b')] if form != 'lazy' else
                 [Lazy(UBInt8('a'), MappingField('v', m, dict(table)), UBInt8('b'))])
    forward = dict(table)
    for name in names + others:
        try:
            known = name in forward
        except TypeError:
            known = False
        o = cls(a=1, v=name, b=2)
        if known:
            data = pystruct.pack(fmt, forward[name])
            ctx.eq((mapping.write_to_string(name), o.to_bytes()), (data, b'\x01' + data + b'\x02'), "%r in %s" % (name, case))
            back = cls.create_from_string(b'\x01' + data + b'\x02')
            ctx.eq((mapping.create_from_string(data), back.v, back.a, back.b), (name, name, 1, 2), "%r of %s" % (data, case))
            ctx.eq((mapping.sizeof(name), cls.sizeof(o)), (len(data), len(data) + 2), "size of %r in %s" % (name, case))
            ctx.outcome('known')
        else:
            ctx.rejects(lambda: mapping.write_to_string(name), "unknown name %r in %s" % (name, case))
            ctx.rejects(o.to_bytes, "unknown name %r in a field of %s" % (name, case))
        ctx.step()
    back = dict((v, k) for k, v in table.items())
    for v in all_values:
        data = pystruct.pack(fmt, v)
        if v in back:
            ctx.eq(mapping.create_from_string(data), back[v], "wire value %r of %s" % (v, case))
        else:
            ctx.rejects(lambda: mapping.create_from_string(data), "unknown wire value %r of %s" % (v, case))
            ctx.rejects(lambda: cls.create_from_string(b'\x01' + data + b'\x02').v, "unknown wire value %r of a field of %s" % (v, case))
        ctx.step()
    ctx.eq((mapping.min_max_sizeof().min, mapping.is_fixed_size()), (pystruct.calcsize(fmt), True), "size of the map")
    ctx.state(*map(repr, case))
    ctx.trace()


def gen_map(tier):
    def gen():
        for prefix, values in (('UBInt8', [0, 1, 2, 255]), ('SBInt8', [0, -1, 5, -128]), ('ULInt16', [0, 1, 256, 0xffff]), ('pad2', ['', 'a', 'ab', 'ba'])):
            for n in range(4 if tier == 'quick' else 5):
                for chosen in itertools.permutations(values, n):
                    table = [[k, v] for k, v in zip('xyzw', chosen)]
                    for form in ('plain', 'lazy', 'numbers'):
                        yield [prefix, table, form]
    return gen


def run_ambiguous(case, ctx):
    """A map that gives two names one wire value isn't one to one."""
    table = dict((k, v) for k, v in case)
    if len(set(table.values())) < len(table):
        ctx.rejects(lambda: FixedSizeMappingMarshal(table, UBInt8), "map %s" % table)
        ctx.rejects(lambda: MappingField('v', UBInt8, table), "map %s" % table)
    else:
        FixedSizeMappingMarshal(table, UBInt8)
        ctx.outcome('known')
    ctx.state(repr(case))


# ---------------------------------------------------------------- optional fields

OPTIONAL = {'u8': (lambda: UBInt8, [0, 7], 'B'), 'be16': (lambda: UBInt16, [0, 0x102], '>H'), 'vstr': (lambda: VarSizeStringMarshal(UBInt8), [b'', b'ab'], None),
            'arr': (lambda: VarSizeArrayMarshal(UBInt8, UBInt8), [[], [1]], None), 'struct': (lambda: Const1, [lambda: Const1(a=0), lambda: Const1(a=3)], None),
            'f64': (lambda: BFloat64, [0.0], '>d'), 'map': (lambda: FixedSizeMappingMarshal({'x': 1, '': 0}, UBInt8), ['', 'x'], None)}


def encode(kind, v):
    return OPTIONAL[kind][0]().write_to_string(v)


def run_optional(case, ctx):
    """Fields that depend on the bits of the first byte, or on the optional field before."""
    kinds, rule, with_default = case
    conditions = []
    log = []
    for k in range(len(kinds)):
        def condition(obj, stream, context, k=k):
            log.append((k, obj.flags, [getattr(obj, 'o%d' % j, None) for j in range(k)]))
            if rule == 'flags' or k == 0:
                return obj.flags & 1 << k      # not a bool
            if rule == 'previous':
                return getattr(obj, 'o%d' % (k - 1)) is not None
            return getattr(obj, 'o%d' % (k - 1)) is None and obj.flags & 1 << k
        conditions.append(condition)
    default = [value(OPTIONAL[kind][1][-1]) if with_default else None for kind in kinds]
    cls = define('S', [UBInt8('flags')] + [OptionalField('o%d' % k, OPTIONAL[kind][0](), conditions[k], default[k]) for k, kind in enumerate(kinds)]
                 + [UBInt8('end')])
    # written exactly when they have a value
    for values in itertools.product(*[[None] + OPTIONAL[kind][1] for kind in kinds]):
        values = [value(v) for v in values]
        flags = sum(1 << k for k, v in enumerate(values) if v is not None)
        o = cls(flags=flags, end=0x99, **dict(('o%d' % k, v) for k, v in enumerate(values)))
        data = pystruct.pack('B', flags) + b''.join(encode(kind, v) for kind, v in zip(kinds, values) if v is not None) + b'\x99'
        ctx.eq(o.to_bytes(), data, "%s with %s" % (case, values))
        ctx.eq(cls.sizeof(o), len(data), "size of %s with %s" % (case, values))
        b = cls.min_max_sizeof()
        ctx.true(b.min <= len(data) <= b.max, "size bounds of %s: %s" % (case, b))
        ctx.step()
        ctx.state(repr(case), repr([show(v) for v in values]))
        # read exactly when the condition holds
        for flags in range(1 << len(kinds)):
            present = []
            for k in range(len(kinds)):
                if rule == 'flags' or k == 0:
                    present.append(bool(flags & 1 << k))
                elif rule == 'previous':
                    present.append(present[-1] or default[k - 1] is not None)
                else:
                    present.append(not present[-1] and default[k - 1] is None and bool(flags & 1 << k))
            if any(p and v is None for p, v in zip(present, values)):
                continue
            data = pystruct.pack('B', flags) + b''.join(encode(kind, v) for kind, v, p in zip(kinds, values, present) if p) + b'\x99'
            del log[:]
            stream = io.BytesIO(data + b'rest')
            back = cls.create_from_stream(stream)
            want = [v if p else d for v, p, d in zip(values, present, default)]
            ctx.true((back.flags, back.end) == (flags, 0x99) and all(equal(getattr(back, 'o%d' % k), v) for k, v in enumerate(want)),
                     "%s parsed from %r: %s" % (case, data, show(back)))
            ctx.eq(stream.tell(), len(data), "end of %s parsed from %r" % (case, data))
            ctx.true(all(len([e for e in log if e[0] == k]) == 1 and e[1] == flags for k, e in enumerate(log)), "conditions were asked with %s" % (log,))
            ctx.outcome('present' if any(present) else 'absent')
            if not with_default:
                ctx.eq(back.to_bytes(), data, "bytes of %s parsed" % (case,))
            ctx.step()
    # assigned and removed
    o = cls(flags=0, end=1)
    for k, kind in enumerate(kinds):
        for v in [value(OPTIONAL[kind][1][0]), None, value(OPTIONAL[kind][1][-1])]:
            setattr(o, 'o%d' % k, v)
            data = b'\0' + b''.join(encode(kind, getattr(o, 'o%d' % j)) for j, kind in enumerate(kinds) if getattr(o, 'o%d' % j) is not None) + b'\x01'
            ctx.eq(o.to_bytes(), data, "%s after assigning %s to field %d" % (case, show(v), k))
    ctx.trace()


def gen_optional(tier):
    def gen():
        kinds = sorted(OPTIONAL)
        for n in (1, 2, 3):
            few = kinds if n < 3 else ['u8', 'vstr', 'struct'] if tier == 'quick' else kinds
            for k in itertools.product(few, repeat=n):
                for rule in ('flags', 'previous', 'either'):
                    for with_default in (0, 1):
                        yield [list(k), rule, with_default]
    return gen


LARGE = {'choices': (2048, 20)}


def spaces(tier):
    quick = tier == 'quick'
    return [
        Space('constants', gen_const, run_const, 'constants of all kinds', ['accepted', 'rejected']),
        Space('bytes', lambda: iter(range(256) if not quick else [0, 1, 2, 9, 127, 128, 200, 254, 255]), run_byte, 'constant bytes against all bytes', ['accepted', 'rejected']),
        Space('struct bytes', lambda: ([a, b] for a in (0, 5, 255) for b in (0, 5, 128)), run_struct_bytes, 'constant structs against all bytes', ['accepted', 'rejected']),
        Space('maps', gen_map(tier), run_map, 'maps, with all names and wire values', ['known', 'rejected']),
        Space('ambiguous', lambda: ([[k, v] for k, v in zip('xyz', t)] for t in itertools.product(range(3), repeat=3)), run_ambiguous,
              'maps that are not one to one', ['known', 'rejected']),
        Space('optional', gen_optional(tier), run_optional, 'patterns of optional fields', ['present', 'absent']),
    ]
