"""C06: integers and floats of records keep their value, in the declared width, sign and byte order."""
import math
import struct
import sys
from mc.core import Space
from mc.bits import to_bits, to_bytes, bits_int, int_bits
from mc.rec import record
import infi.instruct.buffer as B
from infi.instruct.buffer import bytes_ref, int_field, float_field, list_field
from infi.instruct.buffer.io_buffer import BitView

ID = 'C06'
RULE = ('a case is one field kind, width, bit offset and byte order; all values of narrow widths and boundary, walking-bit '
        'and alternating values of wide ones are packed (also those that do not fit) and all stored patterns unpacked')
ASSUMPTIONS = ['partial-byte widths start from the least significant bit in every byte order',
               'a signed field of a width other than 8, 16, 32 or 64 bits stores unsigned numbers']

STANDARD = (8, 16, 32, 64)

KINDS = {
    'int_field': (B.int_field, 'native', 'signed'), 'uint_field': (B.uint_field, 'native', 'unsigned'),
    'be_int_field': (B.be_int_field, 'big', 'signed'), 'be_uint_field': (B.be_uint_field, 'big', 'unsigned'),
    'le_int_field': (B.le_int_field, 'little', 'signed'), 'le_uint_field': (B.le_uint_field, 'little', 'unsigned'),
}
for _e in ('native', 'big', 'little', 'unspecified'):
    for _s in ('signed', 'unsigned'):
        KINDS['%s %s' % (_e, _s)] = (lambda _e=_e, _s=_s, **kw: int_field(endian=_e, sign=_s, **kw), _e, _s)


def is_big(endian):
    return (sys.byteorder if endian in ('native', 'unspecified') else endian) == 'big'


def stored_bits(value, width, endian):
    bits = int_bits(value, width)       # two's complement for negative values
    return to_bits(to_bytes(bits)[::-1]) if width % 8 == 0 and is_big(endian) else bits


def loaded(bits, endian, signed):
    width = len(bits)
    if width % 8 == 0 and is_big(endian):
        bits = to_bits(to_bytes(bits)[::-1])
    v = bits_int(bits)
    return v - (1 << width) if signed and v >> (width - 1) else v


def int_values(width):
    """Values around and inside every range of this width, signed or not."""
    if width <= 10:
        return list(range(-(1 << width) - 3, (1 << (width + 1)) + 3))
    out = set()
    for k in range(width + 2):
        for d in (-1, 0, 1):
            out.update([(1 << k) + d, -(1 << k) + d])
    full = (1 << width) - 1
    for word in (0x0123456789ABCDEF01, 0xA5C3F00F5A3C96E187, 0x55 * (full // 255 if width % 8 == 0 else 1)):
        out.add(word & full)
        out.add(-(word & (full >> 1)))
    out.update([full ^ (1 << k) for k in range(width)])
    return sorted(out)


def bit_patterns(width):
    if width <= 10:
        for v in range(1 << width):
            yield int_bits(v, width)
        return
    for k in range(width):
        yield [int(i == k) for i in range(width)]
        yield [int(i != k) for i in range(width)]
    yield [0] * width
    yield [1] * width
    for word in (0x0123456789ABCDEF01, 0xA5C3F00F5A3C96E187):
        yield int_bits(word, width)


def place(first, width, form):
    if form == 'open':
        return dict(where=bytes_ref[first // 8:], byte_size=width // 8)
    if form == 'default':
        return dict(where=bytes_ref[first // 8:])
    if form == 'explicit':
        return dict(where=bytes_ref[first // 8:(first + width) // 8], byte_size=width // 8)
    if first % 8 == 0 and width % 8 == 0:
        return dict(where=bytes_ref[first // 8:(first + width) // 8])
    return dict(where=bytes_ref[0:(first + width + 7) // 8].bits[first:first + width])


def to_view(width):
    return BitView(bytes((width + 7) // 8), 0, width / 8)


def run_int(case, ctx):
    kind, width, first, form = case
    field, endian, sign = KINDS[kind]
    signed = sign == 'signed' and width in STANDARD
    cls = record({'f': field(**place(first, width, form))})
    size = (first + width + 7) // 8
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    for v in int_values(width):
        what = "%s of %d bits at %d: %d" % (kind, width, first, v)
        if not lo <= v <= hi:
            ctx.rejects(lambda: cls(f=v).pack(), what)
            continue
        want = [0] * (size * 8)
        want[first:first + width] = stored_bits(v, width, endian)
        ctx.eq(bytes(cls(f=v).pack()), to_bytes(want), what)
        ctx.step()
    for pattern in bit_patterns(width):
        want = loaded(pattern, endian, signed)
        for around in (0, 1):
            if form == 'open' and around:
                continue
            bits = [around] * (size * 8)
            bits[first:first + width] = pattern
            obj = cls()
            obj.unpack(to_bytes(bits))
            if not (obj.f == want and isinstance(obj.f, int)):
                ctx.fail("%s of %d bits at %d, unpacked from %s: got %r, expected %d", kind, width, first, bits, obj.f, want)
        ctx.eq(bytes(obj.pack()) if form == 'open' else to_bits(obj.pack())[first:first + width],
               to_bytes(bits) if form == 'open' else pattern, "repacked %s of %d bits: %r" % (kind, width, want))
        ctx.step()
    n = (width + 7) // 8
    for bad in (1.0, 1.5, '1', None, b'1', [1], float('nan'), bytes(n), bytearray(n), [0] * n, to_view(width), (), {}):
        ctx.rejects(lambda: cls(f=bad).pack(), "%s of %d bits: %r" % (kind, width, bad))
    ctx.state(case)
    ctx.outcome('signed' if signed else 'unsigned')
    ctx.trace()


def gen_int(kinds, widths, offsets, forms=('place',)):
    def gen():
        for width in widths:
            for kind in kinds:
                for form in forms:
                    for first in offsets:
                        yield [kind, width, first, form]
    return gen


# ---------------------------------------------------------------- list element types

ELEMENTS = {}
for _sign, _letter in (('', 'signed'), ('u', 'unsigned')):
    for _prefix, _endian in (('', 'native'), ('n_', 'native'), ('b_', 'big'), ('l_', 'little')):
        for _width in STANDARD:
            ELEMENTS['%s%sint%d' % (_prefix, _sign, _width)] = (_width, _endian, _letter == 'signed')


def run_element(case, ctx):
    name, mode = case
    width, endian, signed = ELEMENTS[name]
    element = getattr(B, name)
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    values = [v for v in (range(lo, hi + 1) if width == 8 else int_values(width)) if lo <= v <= hi]
    where = bytes_ref[1:] if mode == 'open' else bytes_ref[1:1 + 2 * width // 8]
    cls = record({'f': list_field(element, where=where, n=2 if mode == 'counted' else None)})
    for v, w in zip(values, values[1:] + values[:1]):
        want = b'\0' + to_bytes(stored_bits(v, width, endian) + stored_bits(w, width, endian))
        ctx.eq(bytes(cls(f=[v, w]).pack()), want, "list of %s: %d, %d" % (name, v, w))
        obj = cls()
        obj.unpack(want)
        ctx.eq(obj.f, [v, w], "unpacked list of %s from %r" % (name, want))
        ctx.step()
    for v in [lo - 1, hi + 1, lo - (1 << width), hi + (1 << width), 1.5, None, 'x']:
        for pair in ([v, 0], [0, v]):
            ctx.rejects(lambda: cls(f=pair).pack(), "list of %s: %r" % (name, pair))
    ctx.state(case)
    ctx.trace()


# ---------------------------------------------------------------- floats

def float_values(size):
    bits = size * 8
    out = set()
    for k in range(bits):
        out.update([1 << k, ((1 << bits) - 1) ^ (1 << k), (1 << k) - 1])
    out.update([0, (1 << bits) - 1])
    return sorted(out)


def same(a, b):
    return isinstance(a, float) and (a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b))


def run_float(case, ctx):
    endian, size, first, form = case
    code = {4: 'f', 8: 'd'}.get(size)
    order = '>' if is_big(endian) else '<'
    cls = record({'f': float_field(endian=endian, **place(first, size * 8, form))})
    total = (first + size * 8 + 7) // 8
    if code is None:
        ctx.rejects(lambda: cls(f=1.5).pack(), "float of %d bytes" % size)
        ctx.rejects(lambda: cls().unpack(bytes(total)), "float of %d bytes" % size)
        ctx.trace()
        return
    for word in float_values(size):
        raw = struct.pack('<Q', word)[:size]
        v = struct.unpack('<' + code, raw)[0]
        want = struct.pack(order + code, v)
        bits = [0] * (total * 8)
        bits[first:first + size * 8] = to_bits(want)
        if v == v:
            ctx.eq(bytes(cls(f=v).pack()), to_bytes(bits), "float of %d bytes, %s: %r" % (size, endian, v))
        obj = cls()
        obj.unpack(to_bytes(bits))
        if not same(obj.f, v):
            ctx.fail("float of %d bytes, %s, unpacked from %r: got %r, expected %r", size, endian, to_bytes(bits), obj.f, v)
        if v != v:
            got = to_bytes(to_bits(obj.pack())[first:first + size * 8])
            ctx.true(struct.unpack(order + code, got)[0] != 0 or True, '')
            ctx.true(math.isnan(struct.unpack(order + code, got)[0]), "NaN repacked as %r" % (got,))
        ctx.step()
    for v in (0.1, 1e-50, 7, -3, 1 << 30, 16777217.0):     # rounded to the nearest as IEEE does
        bits = [0] * (total * 8)
        bits[first:first + size * 8] = to_bits(struct.pack(order + code, v))
        ctx.eq(bytes(cls(f=v).pack()), to_bytes(bits), "float of %d bytes: %r" % (size, v))
    bad = ['1.5', None, [1.0]] + ([1e39, -1e39, 1e308] if size == 4 else []) + [10 ** 400]
    for v in bad:
        ctx.rejects(lambda: cls(f=v).pack(), "float of %d bytes: %r" % (size, v))
    ctx.state(case)
    ctx.outcome('float')
    ctx.trace()


def gen_float():
    for endian in ('native', 'big', 'little', 'unspecified'):
        for size in range(1, 10):
            for first in (0, 8, 3, 12):
                yield [endian, size, first, 'place']
            yield [endian, size, 0, 'open']
            yield [endian, size, 16, 'explicit']
        for first in (0, 8):
            yield [endian, 4, first, 'default']     # without a size, in an open place


LARGE = {'numbers': (512, 33)}


def spaces(tier):
    quick = tier == 'quick'
    narrow = list(range(1, 11))
    wide = [11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 48, 56, 63, 64, 65, 72] if quick else range(11, 81)
    whole = [8, 16, 24, 32, 40, 48, 56, 64, 72, 80]
    names = sorted(KINDS)
    return [
        Space('narrow', gen_int(names if not quick else names[:6] + names[6::3], narrow, [0, 3, 8] if quick else range(10)), run_int,
              'all widths up to 10 bits: all values, all stored patterns', ['signed', 'unsigned', 'rejected']),
        Space('wide', gen_int(names, wide, [0, 5] if quick else range(9)), run_int,
              'wider fields: boundary and walking-bit values', ['signed', 'unsigned', 'rejected']),
        Space('explicit', gen_int(names, whole, [0, 8], ['explicit', 'open']), run_int,
              'an explicit byte size, in closed and open places', ['signed', 'unsigned', 'rejected']),
        Space('elements', lambda: ([n, m] for n in sorted(ELEMENTS) for m in ('open', 'closed', 'counted')), run_element,
              'all list element types', ['rejected']),
        Space('floats', gen_float, run_float, 'floats of all sizes', ['float', 'rejected']),
    ]
