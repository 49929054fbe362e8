"""Sizes far over those of the exhaustive spaces: next to every power of two up to a limit, and everything up to a small number.

What depends on a threshold (a buffer's length, a cache of small things, a fixed number of rounds) differs at one of them.
"""
import math
from infi.instruct import *
from infi.instruct.base import WritableContext
from infi.instruct.struct import Struct, Field
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, le_uint_field, str_field, bytearray_field, json_field,
                                  list_field, buffer_field, uint8, b_uint16, after_ref, len_ref, total_size, self_ref)
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray
from mc.bits import to_bits, view_bits
from mc.rec import record, unpack


def sizes(top, small=0):
    """Every size to the small one, and those next to every power of two."""
    out = set(range(1, small + 1))
    n = 8
    while n <= top:
        out |= set([n - 1, n, n + 1])
        n *= 2
    return sorted(out)


def pattern(n, step=7):
    """Bytes in which no two near places hold the same, and none is zero."""
    return bytes(bytearray(1 + (k * step + k // 251 * 13) % 255 for k in range(n)))


def letters(n):
    return ''.join(chr(97 + (k * 7 + k // 26 * 3) % 26) for k in range(n))


def both_ways(ctx, cls, values, data, what):
    """Packs, unpacks, sizes."""
    obj = cls(**values)
    ctx.eq(bytes(obj.pack()), data, what + ": packed")
    ctx.eq(math.ceil(obj.calc_byte_size()), len(data), what + ": size")
    other = cls()
    n = other.unpack(data)
    ctx.eq(math.ceil(n), len(data), what + ": number of bytes unpacked")
    for k in sorted(values):
        got = getattr(other, k)
        ctx.eq(got, values[k], what + ": unpacked " + k)
    ctx.eq(bytes(other.pack()), data, what + ": packed again")
    ctx.step(4)


def round_trip(ctx, cls, values, data, what, attrs=None):
    """The same for structs."""
    obj = cls(**values)
    ctx.eq(cls.write_to_string(obj), data, what + ": written")
    ctx.eq(cls.sizeof(obj), len(data), what + ": size")
    other = cls.create_from_string(data)
    for k in sorted(attrs or values):
        ctx.eq(getattr(other, k), (attrs or values)[k], what + ": parsed " + k)
    ctx.eq(cls.write_to_string(other), data, what + ": written again")
    ctx.rejects(lambda: bytes(cls.create_from_string(data[:-1]).to_bytes()), what + ": without its last byte")
    ctx.step(4)


def done(ctx, case):
    ctx.state(*[repr(x) for x in case])
    ctx.outcome(case[0])
    ctx.trace()


# ---------------------------------------------------------------- records

def run_numbers(case, ctx):
    name, n = case
    values = [0, 1, (1 << 8 * n) - 1, int.from_bytes(pattern(n), 'big'), 1 << 8 * n - 1, (1 << 8 * n - 1) - 1]
    for order, make in (('big', be_uint_field), ('little', le_uint_field)):
        for form in ('closed', 'open', 'bits'):
            where = {'closed': bytes_ref[1:n + 1], 'open': bytes_ref[1:], 'bits': bytes_ref[0:n + 2].bits[8:8 + n * 8]}[form]
            cls = record([('a', uint_field(where=bytes_ref[0])), ('f', make(where=where))] if form != 'open' else
                         [('a', uint_field(where=bytes_ref[0])), ('f', make(where=where, byte_size=n))])
            for v in values:
                what = "%s of %d bytes in %s place: %#x" % (make.__name__, n, form, v)
                data = b'\x77' + v.to_bytes(n, order)
                obj = cls(a=0x77, f=v)
                ctx.eq(bytes(obj.pack()), data, what)
                ctx.eq(unpack(cls, data).f, v, what + ": unpacked")
            obj = cls(a=1, f=1 << 8 * n)
            ctx.rejects(obj.pack, "%d bits in %d bytes" % (8 * n + 1, n))
    done(ctx, case)


def run_text(case, ctx):
    name, n = case
    full = letters(n)
    for justify in ('left', 'right', 'center'):
        cls = record([('a', uint_field(where=bytes_ref[0])), ('f', str_field(where=bytes_ref[1:n + 1], justify=justify, padding=b'.')),
                      ('b', uint_field(where=bytes_ref[n + 1]))])
        for k in sorted(set([0, 1, n // 2, n - 1, n])):
            text = full[:k]
            room = n - k
            data = [{'left': text + '.' * room, 'right': '.' * room + text,
                     'center': '.' * (room // 2 + r) + text + '.' * (room - room // 2 - r)}[justify] for r in ((0, 1) if room % 2 else (0,))]
            what = "%s text of %d in %d bytes" % (justify, k, n)
            got = bytes(cls(a=1, f=text, b=2).pack())
            ctx.true(got in [b'\x01' + d.encode() + b'\x02' for d in data], what + ": packed to %r" % (got,))
            for d in data:
                ctx.eq(unpack(cls, b'\x01' + d.encode() + b'\x02').f, text, what + ": unpacked")
    for what, make, value, raw in (
            ('bytearray', bytearray_field, bytearray(pattern(n)), pattern(n)),
            ('open text', str_field, full, full.encode()),
            ('text', lambda where: str_field(where=where, encoding='utf-16-be'), u'\u20ac' * (n // 2), b'\x20\xac' * (n // 2)),
            ('json', json_field, {'k': [full[:max(n - 10, 0)]]}, None)):
        if what == 'json':
            import json
            raw = json.dumps(value).encode()
        for where in (bytes_ref[1:], bytes_ref[1:1 + len(raw)]):
            cls = record([('a', uint_field(where=bytes_ref[0])), ('f', make(where=where))])
            data = b'\x09' + raw
            what = "%s of %d bytes" % (what, len(raw))
            ctx.eq(bytes(cls(a=9, f=value).pack()), data, what)
            other = unpack(cls, data)
            ctx.eq(other.f, value, what + ": unpacked")
            ctx.eq(bytes(other.pack()), data, what + ": packed again")
    done(ctx, case)


class Triple(Buffer):
    x = be_uint_field(where=bytes_ref[0:2])
    y = uint_field(where=bytes_ref[2])

    def __eq__(self, other):
        return (self.x, self.y) == (other.x, other.y)

    def __ne__(self, other):
        return not self == other


def run_lists(case, ctx):
    name, n = case
    numbers = list(bytearray(pattern(n)))
    twos = [(k * 257 + 3) % 65536 for k in range(n)]
    triples = [Triple(x=a, y=b) for a, b in zip(twos, numbers)]
    kinds = [('uint8', uint8, numbers, 1, bytes(bytearray(numbers))),
             ('uint16', b_uint16, twos, 2, b''.join(x.to_bytes(2, 'big') for x in twos))]
    if n <= 1100:
        kinds.append(('record', Triple, triples, 3, b''.join(bytes(bytearray([a >> 8, a & 255, b])) for a, b in zip(twos, numbers))))
    for kind, element, items, size, raw in kinds:
        count = be_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(self_ref.f))
        for form in ('closed', 'open', 'constant', 'counted', 'counted closed'):
            if form == 'closed':
                f = list_field(element, where=bytes_ref[2:2 + n * size])
            elif form == 'open':
                f = list_field(element, where=bytes_ref[2:])
            elif form == 'constant':
                f = list_field(element, n=n, where=bytes_ref[2:])
            elif form == 'counted':
                f = list_field(element, n=count, where=bytes_ref[2:])
            else:
                f = list_field(element, n=count, where=bytes_ref[2:2 + count * size])
            cls = record([('count', count), ('f', f)])
            both_ways(ctx, cls, {'f': items}, n.to_bytes(2, 'big') + raw, "list of %d %s (%s)" % (n, kind, form))
            if form == 'counted closed':
                ctx.rejects(lambda: unpack(cls, n.to_bytes(2, 'big') + raw[:-1]), "%s list of %d %s, without its last byte" % (form, n, kind))
    done(ctx, case)


def run_far(case, ctx):
    name, n = case
    for order in ('up', 'down'):
        a, b = ('a', 'b') if order == 'up' else ('b', 'a')
        for form in ('plain', 'computed', 'bits', 'backwards', 'total'):
            size = n + 2
            tail = []
            if form == 'plain':
                pair = [(a, uint_field(where=bytes_ref[0])), (b, be_uint_field(where=bytes_ref[n:n + 2]))]
            elif form == 'computed':
                first = be_uint_field(where=bytes_ref[0:2])
                pair = [(a, first), (b, be_uint_field(where=bytes_ref[first:first + 2]))]
            elif form == 'bits':
                pair = [(a, uint_field(where=bytes_ref[0])), (b, uint_field(where=bytes_ref[0:n + 2].bits[n * 8 - 3:n * 8 + 12]))]
            elif form == 'backwards':
                pair = [(a, uint_field(where=bytes_ref[0])), (b, uint_field(where=bytes_ref[n + 1] + bytes_ref[n]))]
            else:
                pair = [(a, be_uint_field(where=bytes_ref[0:2], set_before_pack=total_size)), (b, be_uint_field(where=bytes_ref[n:n + 2]))]
            cls = record(pair)
            out = bytearray(size)
            values = {b: 0x1234}
            if form == 'computed':
                values[a] = n
                if n < 2:
                    continue
                out[0:2] = n.to_bytes(2, 'big')
            elif form == 'total':
                if n < 2:
                    continue
                out[0:2] = size.to_bytes(2, 'big')
            else:
                values[a] = out[0] = 0x99
            if form == 'backwards':
                out[n:n + 2] = b'\x12\x34'
                out[n], out[n + 1] = 0x12, 0x34
            elif form == 'bits':
                whole = 0x1234 << n * 8 - 3
                out = bytearray((whole | 0x99).to_bytes(size, 'little'))
            else:
                out[n:n + 2] = b'\x12\x34'
            both_ways(ctx, cls, values, bytes(out), "field at %d of a %s record, %s" % (n, form, order))
    done(ctx, case)


def run_parts(case, ctx):
    """A field in n parts."""
    name, n = case
    data = pattern(2 * n)
    for form in ('evens', 'reversed', 'nibbles', 'odd bits', 'slices'):
        part = {'evens': lambda k: bytes_ref[2 * k], 'reversed': lambda k: bytes_ref[2 * n - 1 - k],
                'nibbles': lambda k: bytes_ref[k].bits[2:6], 'odd bits': lambda k: bytes_ref[k].bits[3],
                'slices': lambda k: bytes_ref[2 * k:2 * k + 2]}[form]
        width = {'evens': 8, 'reversed': 8, 'nibbles': 4, 'odd bits': 1, 'slices': 16}[form]
        bits = [b >> k & 1 for b in bytearray(data) for k in range(8)]
        places = {'evens': lambda k: range(16 * k, 16 * k + 8), 'reversed': lambda k: range(8 * (2 * n - 1 - k), 8 * (2 * n - k)),
                  'nibbles': lambda k: range(8 * k + 2, 8 * k + 6), 'odd bits': lambda k: [8 * k + 3],
                  'slices': lambda k: range(16 * k, 16 * k + 16)}[form]
        where = part(0)
        for k in range(1, n):
            where = where + part(k)
        cls = record([('f', uint_field(where=where, endian='little'))])
        order = [p for k in range(n) for p in places(k)]
        value = sum(bits[p] << i for i, p in enumerate(order))
        what = "%d parts of %d bits (%s)" % (n, width, form)
        ctx.eq(unpack(cls, data).f, value, what)
        out = [0] * (max(order) + 1)
        for i, p in enumerate(order):
            out[p] = value >> i & 1
        out += [0] * (-len(out) % 8)
        want = bytes(bytearray(sum(out[i + k] << k for k in range(8)) for i in range(0, len(out), 8)))
        ctx.eq(bytes(cls(f=value).pack()), want, what + ": packed")
    done(ctx, case)


def run_chain(case, ctx):
    """n fields, each at the end of the one before, or computed from it."""
    name, n = case
    for order in ('up', 'down'):
        names = ['f%03d' % (k if order == 'up' else n - k) for k in range(n)]
        last = None
        pairs, values = [], {}
        out = b''
        for k, f in enumerate(names):
            start = 0 if last is None else after_ref(last)
            if k % 3 == 0:
                last = uint_field(where=bytes_ref[start])
                values[f] = (k * 7 + 1) % 256
                out += bytes(bytearray([values[f]]))
            elif k % 3 == 1:
                last = be_uint_field(where=bytes_ref[start:start + 2] if k > 1 else bytes_ref[after_ref(last):after_ref(last) + 2])
                values[f] = (k * 1031 + 1) % 65536
                out += values[f].to_bytes(2, 'big')
            else:
                last = str_field(where=bytes_ref[start:start + 3])
                values[f] = letters(k)[-3:].ljust(3, 'z')
                out += values[f].encode()
            pairs.append((f, last))
        both_ways(ctx, record(pairs), values, out, "chain of %d fields, %s" % (n, order))
        # the value of each is computed from the next
        last = uint_field(where=bytes_ref[n - 1])
        pairs = [(names[n - 1], last)]
        for k in reversed(range(n - 1)):
            last = uint_field(where=bytes_ref[k], set_before_pack=last + 1)
            pairs.append((names[k], last))
        cls = record(pairs)
        obj = cls(**{names[n - 1]: 3})
        if n <= 253:
            ctx.eq(bytes(obj.pack()), bytes(bytearray(3 + n - 1 - k for k in range(n))), "chain of %d values, %s" % (n, order))
    done(ctx, case)


# ---------------------------------------------------------------- structs

def make_struct(fields, name='S', bases=(Struct,), **attrs):
    return type(Struct)(name, bases, dict(attrs, _fields_=fields, __module__='case'))


def run_fields(case, ctx):
    """Structs with n fields, constants, bits, optional and lazy fields."""
    name, n = case
    kinds = [lambda f, k: (UBInt8(f), (k * 7 + 1) % 256, 1), lambda f, k: (ULInt16(f), (k * 1031) % 65536, 2),
             lambda f, k: (FixedSizeString(f, 3), letters(k + 3)[-3:].encode(), 3)]
    for form in ('plain', 'lazy', 'derived', 'same'):
        fields, values, out = [], {}, b''
        for k in range(n):
            f = 'f%d' % k
            field, v, size = kinds[0 if form == 'same' else k % 3](f, k)
            fields.append(field)
            values[f] = v
            out += v if size == 3 else v.to_bytes(size, 'little')
        if form == 'derived':
            cls = make_struct(fields[:n // 2], name='Base')
            cls = make_struct(cls._fields_ + fields[n // 2:], bases=(cls,))
        else:
            cls = make_struct([Lazy(*fields)] if form == 'lazy' else fields)
        round_trip(ctx, cls, values, out, "%s struct of %d fields" % (form, n))
        m = cls.min_max_sizeof()
        ctx.eq((m.min, m.max), (len(out), len(out)), "bounds of the %s struct of %d fields" % (form, n))
        text = repr(cls(**values))
        ctx.eq(text, "S(%s)" % ", ".join("f%d=%r" % (k, values['f%d' % k]) for k in range(n)), "printed struct of %d fields" % n)
    done(ctx, case)


def run_depth(case, ctx):
    """Structs nested n deep, each with a field before and after the inner one."""
    name, n = case
    for form in ('plain', 'array', 'optional', 'lazy'):
        inner = make_struct([UBInt8('v')], name='L0')
        value, out = inner(v=200), b'\xc8'
        text = 'L0(v=200)'
        for k in range(1, n + 1):
            if form == 'array':
                mid = FixedSizeArray('m', 1, inner)
            elif form == 'optional':
                mid = OptionalField('m', inner, lambda *args: True)
            elif form == 'lazy':
                mid = Lazy(Field('m', inner))
            else:
                mid = Field('m', inner)
            outer = make_struct([UBInt8('a'), mid, ULInt16('z')], name='L%d' % k)
            value = outer(a=k % 256, m=[value] if form == 'array' else value, z=k * 3)
            out = bytes(bytearray([k % 256])) + out + (k * 3).to_bytes(2, 'little')
            text = 'L%d(a=%d, m=%s, z=%d)' % (k, k % 256, '[ %s ]' % text if form == 'array' else text, k * 3)
            inner = outer
        what = "structs nested %d deep (%s)" % (n, form)
        ctx.eq(inner.write_to_string(value), out, what)
        ctx.eq(inner.sizeof(value), len(out), what + ": size")
        ctx.eq(repr(value), text, what + ": printed")
        other = inner.create_from_string(out)
        ctx.eq(inner.write_to_string(other), out, what + ": written again")
        ctx.eq(repr(other), text, what + ": parsed")
        x = other
        for k in range(n):
            x = x.m[0] if form == 'array' else x.m
        ctx.eq(x.v, 200, what + ": innermost")
        ctx.rejects(lambda: inner.create_from_string(out[:-1]).to_bytes(), what + ": cut")
    # records
    inner = record([('v', uint_field(where=bytes_ref[0]))])
    value, out = inner(v=200), b'\xc8'
    for k in range(1, n + 1):
        first = uint_field(where=bytes_ref[0])
        outer = record([('a', first), ('m', buffer_field(inner, where=bytes_ref[1:1 + len(out)])),
                        ('z', uint_field(where=bytes_ref[1 + len(out)]))], name='R%d' % k)
        value = outer(a=k % 256, m=value, z=k % 200)
        out = bytes(bytearray([k % 256])) + out + bytes(bytearray([k % 200]))
        inner = outer
    what = "records nested %d deep" % n
    ctx.eq(bytes(value.pack()), out, what)
    ctx.eq(value.calc_byte_size(), len(out), what)
    other = unpack(inner, out)
    ctx.eq(bytes(other.pack()), out, what + ": unpacked and packed")
    done(ctx, case)


def run_arrays(case, ctx):
    name, n = case
    numbers = list(bytearray(pattern(n)))
    raw = bytes(bytearray(numbers))
    twos = [(k * 257 + 3) % 65536 for k in range(n)]
    raw2 = b''.join(x.to_bytes(2, 'little') for x in twos)
    length = n.to_bytes(2, 'little')
    for what, field, value, data in (
            ('fixed array', FixedSizeArray('f', n, UBInt8), numbers, raw),
            ('fixed array of two', FixedSizeArray('f', n, ULInt16), twos, raw2),
            ('counted array', VarSizeArray('f', ULInt16, UBInt8), numbers, length + raw),
            ('counted array of two', VarSizeArray('f', ULInt16, ULInt16), twos, length + raw2),
            ('sized array', SumSizeArray('f', ULInt32, ULInt16), twos, (2 * n).to_bytes(4, 'little') + raw2),
            ('fixed string', FixedSizeString('f', n), letters(n).encode(), letters(n).encode()),
            ('padded string', PaddedString('f', n), letters(n).encode(), letters(n).encode()),
            ('padded string with room', PaddedString('f', n + 1, b'.'), letters(n).encode(), letters(n).encode() + b'.'),
            ('string', VarSizeString('f', ULInt16), letters(n).encode(), length + letters(n).encode()),
            ('buffer', VarSizeBuffer('f', ULInt16), bytearray(pattern(n)), length + pattern(n)),
            ('fixed buffer', FixedSizeBuffer('f', n), bytearray(pattern(n)), pattern(n))):
        cls = make_struct([UBInt8('a'), field, UBInt8('z')])
        round_trip(ctx, cls, {'a': 5, 'f': value, 'z': 6}, b'\x05' + data + b'\x06', "%s of %d" % (what, n))
    done(ctx, case)


def run_lazy(case, ctx):
    """A group of n bytes of which one field is used."""
    name, n = case
    one = n // 3
    fields = [FixedSizeBuffer('a', one), UBInt8('b'), FixedSizeBuffer('c', n - one)]
    raw = pattern(n)
    values = {'a': bytearray(raw[:one]), 'b': 0x5a, 'c': bytearray(raw[one:]), 'x': 0x1234, 'z': 7}
    data = b'\x12\x34' + raw[:one] + b'\x5a' + raw[one:] + b'\x07'
    for form in ('one', 'last', 'nested', 'many'):
        group = {'one': [Lazy(*fields), UBInt8('z')], 'last': [Lazy(*(fields + [UBInt8('z')]))],
                 'nested': [Lazy(fields[0], Lazy(*fields[1:])), UBInt8('z')], 'many': [Lazy(f) for f in fields] + [UBInt8('z')]}[form]
        cls = make_struct([UBInt16('x')] + group)
        round_trip(ctx, cls, values, data, "lazy group of %d bytes (%s)" % (n, form))
        for f in sorted(values):
            obj = cls.create_from_string(data)
            ctx.eq(getattr(obj, f), values[f], "%s of a lazy group of %d bytes (%s)" % (f, n, form))
            obj.b = 0x66
            ctx.eq(obj.to_bytes(), data[:2 + one] + b'\x66' + data[3 + one:], "changed after reading %s (%d bytes, %s)" % (f, n, form))
    done(ctx, case)


def run_bits(case, ctx):
    """Bit fields of n bits at every offset in their byte."""
    name, n = case
    for before in range(8):
        after = -(n + before) % 8
        parts = ([BitField('a', before)] if before else []) + [BitField('f', n)] + ([BitField('z', after)] if after else [])
        cls = make_struct([BitFields(*parts), UBInt8('e')])
        for v in (0, 1, (1 << n) - 1, int.from_bytes(pattern(n // 8 + 1), 'big') & (1 << n) - 1, 1 << n - 1):
            values = {'f': v, 'e': 9}
            whole = v << before
            if before:
                values['a'] = a = 0x55 & (1 << before) - 1
                whole |= a
            if after:
                values['z'] = z = 0x2a & (1 << after) - 1
                whole |= z << before + n
            data = whole.to_bytes((before + n + after) // 8, 'little') + b'\x09'
            round_trip(ctx, cls, values, data, "bit field of %d bits after %d: %#x" % (n, before, v))
    done(ctx, case)


def run_choices(case, ctx):
    """Maps and selections with n alternatives."""
    name, n = case
    table = dict(('name%d' % k, k * 3 + 1) for k in range(n))
    cls = make_struct([MappingField('f', UBInt32, table), UBInt8('z')])
    for k in sorted(set([0, 1, n // 2, n - 2, n - 1])):
        if 0 <= k < n:
            round_trip(ctx, cls, {'f': 'name%d' % k, 'z': 8}, (k * 3 + 1).to_bytes(4, 'big') + b'\x08', "map of %d names: %d" % (n, k))
    ctx.rejects(lambda: cls.create_from_string((3 * n).to_bytes(4, 'big') + b'\x08'), "number that's not in a map of %d" % n)
    ctx.rejects(lambda: cls(f='name%d' % n, z=1).to_bytes(), "name that's not in a map of %d" % n)
    structs = [make_struct([ConstField('k', k, UBInt16), UBInt8('v')], name='C%d' % k) for k in range(n)]
    cls = make_struct([Field('f', StructSelector(UBInt16, dict(enumerate(structs)))), UBInt8('z')])
    for k in sorted(set([0, 1, n // 2, n - 2, n - 1])):
        if 0 <= k < n:
            data = k.to_bytes(2, 'big') + b'\x11\x08'
            other = cls.create_from_string(data)
            ctx.true(type(other.f) is structs[k] and other.f.v == 0x11 and other.z == 8, "choice %d of %d: %r" % (k, n, other))
            ctx.eq(cls(f=structs[k](v=0x11), z=8).to_bytes(), data, "choice %d of %d" % (k, n))
    ctx.rejects(lambda: cls.create_from_string(n.to_bytes(2, 'big') + b'\x11\x08'), "choice %d of %d" % (n, n))
    done(ctx, case)


def run_ahead(case, ctx):
    """Choosing a struct after looking n bytes ahead."""
    name, n = case
    seen = []
    small = make_struct([FixedSizeBuffer('v', n)], name='Small')
    big = make_struct([FixedSizeBuffer('v', n + 5)], name='Big')

    def choose(obj, stream, context):
        data = stream.read(n)
        seen.append(bytes(data))
        return big if data[-1:] == b'B' else small
    cls = make_struct([UBInt8('a'), SelectStructByFunc('f', choose), UBInt16('z')])
    raw = pattern(n)[:-1]
    for last, chosen, rest in ((b'S', small, b''), (b'B', big, b'12345')):
        data = b'\x01' + raw + last + rest + b'\x02\x03'
        del seen[:]
        obj = cls.create_from_string(data)
        ctx.eq(seen, [raw + last], "what was looked at, %d bytes" % n)
        ctx.true(type(obj.f) is chosen, "choice after %d bytes: %r" % (n, type(obj.f)))
        ctx.eq(bytes(obj.f.v), raw + last + rest, "content after looking %d bytes ahead" % n)
        ctx.eq((obj.a, obj.z), (1, 0x203), "fields around it")
        ctx.eq(obj.to_bytes(), data, "written again")
        ctx.rejects(lambda: cls.create_from_string(data[:-1]), "without its last byte")
    done(ctx, case)


def run_context(case, ctx):
    """A context reaches n levels down, and the structs of each level are given to what's inside."""
    name, n = case
    seen = []

    def predicate(obj, stream, context):
        seen.append((obj is context.get('struct', None), context.get('given', None)))
        return True
    inner = make_struct([UBInt8('v'), OptionalField('o', UBInt8, predicate)], name='L0')
    for k in range(1, n + 1):
        inner = make_struct([OptionalField('o', UBInt8, predicate), Field('m', inner)], name='L%d' % k)
    data = pattern(n + 2)
    obj = inner.create_from_string(data, WritableContext({'given': 77}))
    ctx.eq(seen, [(True, 77)] * (n + 1), "contexts of %d levels" % (n + 1))
    ctx.eq(obj.to_bytes(), data, "%d levels" % n)
    done(ctx, case)


def run_classes(case, ctx):
    """Classes derived n times, each adding a field."""
    name, n = case
    for side in ('record', 'struct'):
        cls, fields, values, out = None, [], {}, b''
        last = None
        for k in range(n):
            f = 'f%03d' % k
            values[f] = (k * 7 + 1) % 256
            out += bytes(bytearray([values[f]]))
            if side == 'record':
                last = uint_field(where=bytes_ref[after_ref(last) if last is not None else 0])
                cls = record([(f, last)], bases=(cls or Buffer,), name='C%d' % k)
            else:
                fields = fields + [UBInt8(f, default=values[f] if k % 2 else None)]
                cls = make_struct(fields, name='C%d' % k, bases=(cls or Struct,))
        what = "%s class derived %d times" % (side, n - 1)
        if side == 'record':
            both_ways(ctx, cls, values, out, what)
        else:
            round_trip(ctx, cls, values, out, what)
            obj = cls(**dict((f, v) for f, v in values.items() if int(f[1:]) % 2 == 0))
            ctx.eq(obj.to_bytes(), out, what + ": with defaults")
    done(ctx, case)


def run_window(case, ctx):
    """Views of n bytes."""
    name, n = case
    data = pattern(n + 1)
    bits = to_bits(data)
    places = sorted(set(x for x in (0, 1, 7, 8, n * 4 - 1, n * 4, n * 4 + 3, n * 8 - 9, n * 8 - 8, n * 8 - 1, n * 8) if x >= 0))
    for s in (0, 1, 5, 8):
        if s > n * 8:
            continue
        view = BitView(data, s / 8., n)
        here = bits[s:n * 8]
        ctx.eq(view_bits(ctx, view, "view of %d bytes" % n), here, "view of %d bytes from bit %d" % (n, s))
        for a in places:
            for b in places:
                if a <= b <= len(here):
                    what = "[%d/8:%d/8] of a view of %d bytes from bit %d" % (a, b, n, s)
                    ctx.eq(view_bits(ctx, view[a / 8.:b / 8.], what), here[a:b], what)
                    ctx.step()
    done(ctx, case)


def run_edits(case, ctx):
    """Edits of arrays of n bytes."""
    name, n = case
    data = pattern(n + 1)
    bits = to_bits(data)
    places = sorted(set(x for x in (0, 3, 8, n * 4, n * 4 + 3, n * 8 - 8, n * 8) if x >= 0))
    for s in (0, 5):
        here = bits[s:n * 8]
        at = [x for x in places if x <= len(here)]
        for a in at:
            for b in at:
                if a > b:
                    continue
                for k in sorted(set([0, 1, 8, 13, n * 8 - 3])):
                    if k < 0:
                        continue
                    new = to_bits(pattern(n + 2, 11))[:k]

                    def make():
                        return BitAwareByteArray(bytearray(data), s / 8., n)
                    what = "%d bytes from bit %d: [%d/8:%d/8] = %d bits" % (n, s, a, b, k)
                    arr = make()
                    arr[a / 8.:b / 8.] = BitView(pattern(n + 2, 11), 0, k / 8.)
                    ctx.eq(view_bits(ctx, arr, what), here[:a] + new + here[b:], what)
                    ctx.step()
                arr = make()
                del arr[a / 8.:b / 8.]
                ctx.eq(view_bits(ctx, arr, "deleted"), here[:a] + here[b:], "deleted [%d/8:%d/8] of %d bytes from bit %d" % (a, b, n, s))
        arr = make()
        arr.extend(BitView(pattern(n + 2, 11), 0, n))
        ctx.eq(view_bits(ctx, arr, "extended"), here + to_bits(pattern(n + 2, 11))[:n * 8], "%d bytes from bit %d extended" % (n, s))
        arr = make()
        arr.zfill(3 * n)
        ctx.eq(view_bits(ctx, arr, "filled"), here + [0] * (3 * n * 8 - len(here)), "%d bytes from bit %d filled to %d" % (n, s, 3 * n))
    done(ctx, case)


def run_cut_record(case, ctx):
    """Data of n bytes cut at each place near a power of two, and at the end."""
    name, n = case
    cuts = [k for k in sizes(n) if k < n] + [0, n - 1]
    if n >= 2:
        rec = record([('a', uint_field(where=bytes_ref[0])), ('f', bytearray_field(where=bytes_ref[1:n]))])
        texts = record([('a', uint_field(where=bytes_ref[0])), ('f', str_field(where=bytes_ref[1:n], encoding='latin-1'))])
        lists = record([('a', uint_field(where=bytes_ref[0])), ('f', list_field(uint8, where=bytes_ref[1:n]))])
        far = record([('a', uint_field(where=bytes_ref[0])), ('f', uint_field(where=bytes_ref[n - 1]))])
        for cls in (rec, texts, lists, far):
            unpack(cls, pattern(n))
            for k in cuts:
                ctx.rejects(lambda: unpack(cls, pattern(n)[:k]), "record of %d bytes from %d" % (n, k))
                ctx.step()
    done(ctx, case)


def run_cut_struct(case, ctx):
    name, n = case
    cuts = [k for k in sizes(n) if k < n] + [0, n - 1]
    length = n.to_bytes(2, 'little')
    for what, field, head in (('buffer', FixedSizeBuffer('f', n), b''), ('string', FixedSizeString('f', n), b''),
                              ('array', FixedSizeArray('f', n, UBInt8), b''), ('counted array', VarSizeArray('f', ULInt16, UBInt8), length),
                              ('sized array', SumSizeArray('f', ULInt16, UBInt8), length), ('counted buffer', VarSizeBuffer('f', ULInt16), length),
                              ('counted string', VarSizeString('f', ULInt16), length), ('bits', BitFields(BitField('f', 8 * n)), b'')):
        cls = make_struct([field])
        cls.create_from_string(head + pattern(n))
        lazy = make_struct([Lazy(field)]) if not head else None
        for k in cuts:
            ctx.rejects(lambda: cls.create_from_string(head + pattern(n)[:k]), "%s of %d from %d bytes" % (what, n, k))
            if lazy:
                ctx.rejects(lambda: lazy.create_from_string(head + pattern(n)[:k]).f, "lazy %s of %d from %d bytes" % (what, n, k))
            ctx.step()
    done(ctx, case)


RUNS = dict((k[4:], v) for k, v in globals().items() if k.startswith('run_'))


def run(case, ctx):
    RUNS[case[0]](case, ctx)


def space(names, tier):
    """names: name -> (limit, all sizes up to)"""
    from mc.core import Space

    def gen():
        for name in sorted(names):
            top, small = names[name]
            for n in sizes(top, small) if tier == 'quick' else sizes(top * 2, small * 4):
                yield [name, n]
    return Space('large', gen, run, 'sizes to a small one, and next to the powers of two over it', sorted(names))
