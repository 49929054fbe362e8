"""C15: primitive numbers have their documented wire format."""
import io
import math
import struct
import sys
from mc.core import Space
import infi.instruct as instruct
from infi.instruct import Struct
from infi.instruct import numeric, errors
from infi.instruct.errors import InstructError

ID = 'C15'
RULE = ('a case is one primitive type and one value or one kind of bad data: all values of 8 and 16 bits, and for wider types all '
        'boundaries, walking ones and zeros, and byte patterns; as a marshal and as a field, in struct and in string form')
ASSUMPTIONS = ['the machine is little endian (native types)']


def types():
    for sign in 'US':
        for order in 'BLN':
            for bits in (8, 16, 32, 64):
                yield '%s%sInt%d' % (sign, order, bits), sign, order, bits
    for order in 'BLN':
        for bits in (32, 64):
            yield '%sFloat%d' % (order, bits), 'F', order, bits


TYPES = dict((t[0], t) for t in types())


def int_bytes(v, sign, order, bits):
    n = v & (1 << bits) - 1
    data = bytearray((n >> 8 * k) & 255 for k in range(bits // 8))
    if order == 'B' or (order == 'N' and sys.byteorder == 'big'):
        data.reverse()
    return bytes(data)


def float_bytes(v, order, bits):
    """IEEE 754, computed here."""
    e_bits, m_bits = (8, 23) if bits == 32 else (11, 52)
    bias = (1 << e_bits - 1) - 1
    sign = 1 if math.copysign(1, v) < 0 else 0
    if v != v:
        n = ((1 << e_bits) - 1) << m_bits | 1 << m_bits - 1
    elif math.isinf(v):
        n = ((1 << e_bits) - 1) << m_bits
    elif v == 0:
        n = 0
    else:
        m, e = math.frexp(abs(v))          # v = m * 2**e, 0.5 <= m < 1
        e -= 1
        if e < 1 - bias:
            n = int(round(math.ldexp(abs(v), bias - 1 + m_bits)))      # subnormal; exact for the values that are used
        else:
            n = (e + bias << m_bits) + (int(math.ldexp(m, m_bits + 1)) - (1 << m_bits))
    n |= sign << bits - 1
    return int_bytes(n, 'U', order, bits)


def forms(name):
    """The marshal, and structs with the type as a field."""
    short = getattr(instruct, name)
    marshal = getattr(numeric, name + 'Marshal')

    class One(Struct):
        _fields_ = [short('v')]

    class Mid(Struct):
        _fields_ = [instruct.UBInt8('before'), instruct.Field('v', marshal), instruct.UBInt8('after')]
    return short, marshal, One, Mid


def check_value(ctx, name, v, want, cache={}):
    if name not in cache:
        cache[name] = forms(name)
    short, marshal, One, Mid = cache[name]
    nan = v != v
    same = lambda x: (x == v or (nan and x != x)) and type(x) == type(v) and \
        (type(v) is int or nan or math.copysign(1, x) == math.copysign(1, v))
    what = "%s of %r" % (name, v)
    for m in (short, marshal):
        got = m.write_to_string(v)
        if nan:
            ctx.true(len(got) == len(want), "length of " + what)
        else:
            ctx.eq(bytes(got), want, "write_to_string of " + what)
        ctx.true(same(m.create_from_string(want)), "%s: read %r from %r" % (what, m.create_from_string(want), want))
    stream = io.BytesIO()
    stream.write(b'\x99')
    short.write_to_stream(v, stream)
    stream.write(b'\x66')
    ctx.eq(len(stream.getvalue()), len(want) + 2, "length of stream after " + what)
    stream.seek(1)
    ctx.true(same(marshal.create_from_stream(stream)), "%s from a stream" % what)
    ctx.eq(stream.tell(), 1 + len(want), "bytes read by " + what)
    for cls, a, b, kw in ((One, b'', b'', {}), (Mid, b'\x01', b'\xfe', dict(before=1, after=254))):
        obj = cls(v=v, **kw)
        if not nan:
            ctx.eq(obj.to_bytes(), a + want + b, "struct with " + what)
        back = cls.create_from_string(a + want + b)
        ctx.true(same(back.v), "%s: struct parsed %r" % (what, back.v))
        ctx.eq(cls.sizeof(obj), len(a + want + b), "sizeof with " + what)
    ctx.eq((short.sizeof(v), marshal.sizeof(v), tuple(short.min_max_sizeof())), (len(want), len(want), (len(want), len(want))), "size of " + what)
    ctx.step(6)
    ctx.state(name, repr(v))


def int_values(sign, bits):
    lo, hi = (0, (1 << bits) - 1) if sign == 'U' else (-(1 << bits - 1), (1 << bits - 1) - 1)
    out = set()
    for k in range(bits):
        for v in (1 << k, (1 << k) - 1, ~(1 << k) & (1 << bits) - 1, (1 << k) + 1):
            out.add(v)
    for p in ('00', '01', '7f', '80', 'ff', 'a5'):
        for q in ('00', 'ff', '12'):
            for k in range(bits // 8):
                out.add(int(q * k + p + q * (bits // 8 - k - 1), 16))
    out.add(int('0123456789abcdef'[:bits // 4], 16))
    out.add(int('fedcba9876543210'[:bits // 4], 16))
    for v in sorted(out):
        if v > hi:
            v -= 1 << bits
        if lo <= v <= hi:
            yield v


def run_ints(case, ctx):
    name, first, count = case
    _, sign, order, bits = TYPES[name]
    lo = 0 if sign == 'U' else -(1 << bits - 1)
    values = range(lo + first, lo + first + count) if count else int_values(sign, bits)
    for v in values:
        check_value(ctx, name, v, int_bytes(v, sign, order, bits))
    ctx.outcome('value')
    ctx.trace()


def gen_ints(all16):
    def gen():
        for name, sign, order, bits in types():
            if sign == 'F':
                continue
            if bits == 8:
                yield [name, 0, 256]
            elif bits == 16 and all16:
                for k in range(64):
                    yield [name, k * 1024, 1024]
            else:
                yield [name, 0, 0]
    return gen


def float_values(bits):
    e_bits, m_bits = (8, 23) if bits == 32 else (11, 52)
    bias = (1 << e_bits - 1) - 1
    for s in (1.0, -1.0):
        for v in (0.0, 1.0, 1.5, 0.1 if bits == 64 else 0.5, float('inf'), float('nan'), 3.0, 1e10 if bits == 64 else 65536.0):
            yield s * v
        for e in (-bias + 1, -bias + 2, -3, -1, 0, 1, 8, m_bits, bias - 1, bias):
            for m in (0, 1, 1 << m_bits - 1, (1 << m_bits) - 1, 1 << 7, 0xA5A5A5A5A5A5A & (1 << m_bits) - 1):
                yield s * math.ldexp((1 << m_bits) + m, e - m_bits)
        for m in (1, 2, 1 << m_bits - 1, (1 << m_bits) - 1):
            yield s * math.ldexp(m, 1 - bias - m_bits)


def run_floats(case, ctx):
    name = case[0]
    _, sign, order, bits = TYPES[name]
    for v in float_values(bits):
        check_value(ctx, name, v, float_bytes(v, order, bits))
    ctx.outcome('value')
    ctx.trace()


def lib_error(ctx, func, what):
    e = ctx.rejects(func, what)
    ctx.true(isinstance(e, InstructError), "%s: %r is not the library's error" % (what, e))


def run_bad(case, ctx):
    name = case[0]
    _, sign, order, bits = TYPES[name]
    short, marshal, One, Mid = forms(name)
    if sign == 'F':
        bad = ['x', b'1', None, [], 1j] + ([1e39, -1e39, 3.5e38] if bits == 32 else []) + [10 ** 400]
    else:
        lo, hi = (0, (1 << bits) - 1) if sign == 'U' else (-(1 << bits - 1), (1 << bits - 1) - 1)
        bad = [lo - 1, hi + 1, lo - (1 << bits), hi + (1 << bits), 1 << bits, -(1 << bits), 1 << 64, -1 << 64, 10 ** 30, 'x', b'1', None, [], 1.5, 2.0]
        bad = [v for v in bad if not (isinstance(v, int) and lo <= v <= hi)]
    for v in bad:
        for m in (short, marshal):
            lib_error(ctx, lambda: m.write_to_string(v), "writing %r as %s" % (v, name))
        for cls in (One, Mid):
            obj = cls(v=v, **(dict(before=0, after=0) if cls is Mid else {}))
            lib_error(ctx, obj.to_bytes, "writing %r as %s in a struct" % (v, name))
        ctx.state(name, repr(v))
        ctx.step(4)
    for n in range(bits // 8):
        data = b'\x01' * n
        for m in (short, marshal):
            lib_error(ctx, lambda: m.create_from_string(data), "reading %s from %d bytes" % (name, n))
            lib_error(ctx, lambda: m.create_from_stream(io.BytesIO(data)), "reading %s from %d bytes" % (name, n))
        lib_error(ctx, lambda: One.create_from_string(data), "reading %s from %d bytes in a struct" % (name, n))
        lib_error(ctx, lambda: Mid.create_from_string(b'\0' + data), "reading %s from %d bytes in a struct" % (name, n))
        ctx.state(name, n)
        ctx.step(4)
    # and valid values afterwards
    check_value(ctx, name, 1 if sign != 'F' else 1.0, int_bytes(1, sign, order, bits) if sign != 'F' else float_bytes(1.0, order, bits))


def run_bytes(case, ctx):
    """All values of two of the type's bytes, with the others clear or set."""
    name, i, j, background = case
    _, sign, order, bits = TYPES[name]
    mask = ~(255 << 8 * i | 255 << 8 * j) & (1 << bits) - 1
    base = mask if background else 0
    short = getattr(instruct, name)
    for a in range(256):
        for b in range(256):
            v = base | a << 8 * i | b << 8 * j
            if sign == 'S' and v >> bits - 1:
                v -= 1 << bits
            want = int_bytes(v, sign, order, bits)
            ctx.eq(bytes(short.write_to_string(v)), want, "write_to_string of %s of %r" % (name, v))
            ctx.eq(short.create_from_string(want), v, "%s read from %r" % (name, want))
        ctx.state(name, i, j, background, a)
        ctx.step(512)
    ctx.outcome('value')


def gen_bytes():
    for name, sign, order, bits in types():
        if sign != 'F' and bits > 16:
            for i in range(bits // 8):
                for j in range(i):
                    for background in (0, 1):
                        yield [name, i, j, background]


def spaces(tier):
    out = [
        Space('ints', gen_ints(True), run_ints, 'integers: all of 8 and 16 bits, boundaries and bit patterns of the others', ['value']),
        Space('floats', lambda: ([n] for n, t in sorted(TYPES.items()) if t[1] == 'F'), run_floats,
              'floats: all exponent boundaries x mantissa patterns', ['value']),
        Space('bad', lambda: ([n] for n in sorted(TYPES)), run_bad, 'values out of range or of another kind, and every short input', ['rejected']),
    ]
    if tier != 'quick':
        out.append(Space('bytes', gen_bytes, run_bytes, '32 and 64 bits: all values of each two bytes, the others clear or set', ['value']))
    return out
