"""C04: packing puts every field's bits exactly where they are declared, and nothing else."""
import itertools
from mc.core import Space
from mc.bits import to_bits, to_bytes, bits_int, int_bits
from mc.rec import record
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, le_uint_field, bytearray_field, str_field,
                                  list_field, buffer_field, uint8, num_ref, member_func_ref, json_field)

ID = 'C04'
RULE = ('a case is one record definition: which parts of the record belong to which field (or to none), in which order, '
        'in which class; each is packed with the fields all ones one at a time, all together and with mixed contents')
ASSUMPTIONS = ['fields that share bits are not specified', 'a declared size of 0 is not specified']

CUTS = [0, 3, 8, 16, 20, 24, 32]


def where(segments, how='plain'):
    """A position made of bit ranges."""
    def bound(v):
        return num_ref(member_func_ref(lambda obj: v)) if how == 'computed' else v
    result = None
    for a, b in segments:
        if a % 8 == 0 and b % 8 == 0:
            part = bytes_ref[bound(a // 8):bound(b // 8)] if b - a > 8 or how == 'slices' else bytes_ref[bound(a // 8)]
        elif how == 'wide':
            part = bytes_ref[0:(b + 7) // 8].bits[a:b]
        else:
            first = a // 8
            part = bytes_ref[bound(first):bound((b + 7) // 8)].bits[bound(a - first * 8):bound(b - first * 8)]
        result = part if result is None else result + part
    return result


def encode(kind, bits):
    """The value that's stored as these bits."""
    if kind == 'bytes':
        return bytearray(to_bytes(bits))
    if kind == 'be' and len(bits) % 8 == 0:
        return bits_int(to_bits(to_bytes(bits)[::-1]))
    return bits_int(bits)


FIELD = {'bytes': bytearray_field, 'be': be_uint_field, 'le': le_uint_field}


def contents(fields):
    """{name: width} -> assignments of bits to the fields."""
    names = sorted(fields)
    for one in names:
        yield dict((n, [int(n == one)] * fields[n]) for n in names)
    yield dict((n, [1] * fields[n]) for n in names)
    for k, word in enumerate((0x9A6C53B1F, 0x5C39E74D2)):
        yield dict((n, [(word >> ((i + 5 * j) % 35)) & 1 for i in range(fields[n])]) for j, n in enumerate(names))


def check_pack(ctx, cls, layout, kinds, bits, size, what):
    """layout: name -> list of (first bit, end bit)"""
    obj = cls(**dict((n, encode(kinds[n], bits[n])) for n in layout))
    got = obj.pack()
    want = [0] * (size * 8)
    for n, segments in layout.items():
        todo = list(bits[n])
        for a, b in segments:
            want[a:b] = todo[:b - a]
            del todo[:b - a]
    ctx.eq((len(got), bytes(got)), (size, to_bytes(want)), "%s with %s" % (what, bits))
    ctx.step()


def run_layout(case, ctx):
    owners, kind, order, how = case
    layout = {}
    for (a, b), owner in zip(zip(CUTS, CUTS[1:]), owners):
        if owner:
            layout.setdefault('xabc'[owner], []).append((a, b))
    if not layout:
        return
    if order == 'down':
        if all(len(s) == 1 for s in layout.values()):
            return
        for s in layout.values():
            s.reverse()
    kinds = dict((n, kind) for n in layout)
    cls = record((n, FIELD[kind](where=where(s, how))) for n, s in layout.items())
    size = (max(b for s in layout.values() for a, b in s) + 7) // 8
    widths = dict((n, sum(b - a for a, b in s)) for n, s in layout.items())
    for bits in contents(widths):
        check_pack(ctx, cls, layout, kinds, bits, size, "%s %s" % (layout, how))
    ctx.state(owners, kind, order, how)
    ctx.outcome('%d fields' % len(layout))
    ctx.trace()


def gen_layout(kinds, orders, hows, labels=4):
    def gen():
        for how in hows:
            for kind in kinds:
                for order in orders:
                    for owners in itertools.product(range(labels), repeat=len(CUTS) - 1):
                        yield [list(owners), kind, order, how]
    return gen


# ---------------------------------------------------------------- inheritance

PLACES = {'a': (0, 8), 'b': (8, 13), 'c': (16, 32), 'd': (13, 16)}
OTHER = {'a': (32, 40), 'b': (40, 44), 'c': (48, 56)}


def run_inherit(case, ctx):
    levels, redefined, shape = case      # field -> class index, field -> class index that redefines it or -1
    classes = [{} for _ in range(3)]
    layout = {}
    for n, level in zip('abc', levels):
        classes[level][n] = le_uint_field(where=where([PLACES[n]]))
        layout[n] = [PLACES[n]]
    for n, level, again in zip('abc', levels, redefined):
        if again > level:
            classes[again][n] = le_uint_field(where=where([OTHER[n]]))
            layout[n] = [OTHER[n]]
        elif again >= 0:
            return
    if shape == 'chain':
        c0 = record(classes[0], name='C0')
        c1 = record(classes[1], (c0,), 'C1')
        cls = record(classes[2], (c1,), 'C2')
    elif shape == 'mixed':       # two independent bases
        if any(again == 1 for again in redefined):
            return
        c0 = record(classes[0], name='C0')
        c1 = record(classes[1], name='C1')
        cls = record(classes[2], (c0, c1), 'C2')
    else:                        # a diamond
        c0 = record(classes[0], name='C0')
        c1 = record(classes[1], (c0,), 'C1')
        c2 = record(classes[2], (c0,), 'C2')
        if any(l == 1 and again == 2 for l, again in zip(levels, redefined)):
            return               # a redefinition in an unrelated class
        cls = record({}, (c2, c1), 'C3')
    size = (max(b for s in layout.values() for a, b in s) + 7) // 8
    widths = dict((n, sum(b - a for a, b in s)) for n, s in layout.items())
    for bits in contents(widths):
        check_pack(ctx, cls, layout, dict((n, 'le') for n in layout), bits, size, "%s" % (case,))
    if shape != 'mixed':         # the base class is not affected by what derived classes define
        base = dict((n, [PLACES[n]]) for n, l in zip('abc', levels) if l == 0)
        if base:
            widths = dict((n, sum(b - a for a, b in s)) for n, s in base.items())
            for bits in contents(widths):
                check_pack(ctx, c0, base, dict((n, 'le') for n in base), bits,
                           (max(b for s in base.values() for a, b in s) + 7) // 8, "base of %s" % (case,))
    ctx.outcome('redefined' if any(r >= 0 for r in redefined) else 'inherited')
    ctx.state(case)
    ctx.trace()


def gen_inherit():
    for shape in ('chain', 'mixed', 'diamond'):
        for levels in itertools.product(range(3), repeat=3):
            for redefined in itertools.product((-1, 1, 2), repeat=3):
                yield [list(levels), list(redefined), shape]


# ---------------------------------------------------------------- names and declaration order

def run_names(case, ctx):
    perm, declared, how = case
    places = [(0, 4), (4, 8), (8, 24), (24, 32)]
    names = ['n%d' % k for k in perm]
    layout = dict((n, [p]) for n, p in zip(names, places))
    cls = record((n, le_uint_field(where=where(layout[n], how))) for n in (names[k] for k in declared))
    widths = dict((n, sum(b - a for a, b in s)) for n, s in layout.items())
    for bits in contents(widths):
        check_pack(ctx, cls, layout, dict((n, 'le') for n in layout), bits, 4, "%s" % (case,))
    ctx.state(case)
    ctx.trace()


def gen_names():
    for how in ('plain', 'computed'):
        for perm in itertools.permutations(range(4)):
            for declared in itertools.permutations(range(4)):
                yield [list(perm), list(declared), how]


# ---------------------------------------------------------------- declared size

def run_size(case, ctx):
    segments, declared, how = case
    layout = {'f': [tuple(s) for s in segments]}
    size = (max(b for a, b in layout['f']) + 7) // 8
    width = sum(b - a for a, b in layout['f'])

    def pack(bits):
        cls = record({'f': le_uint_field(where=where(layout['f'], how)), 'byte_size': declared})
        return cls, cls(f=bits_int(bits)).pack()
    if declared < size:
        ctx.rejects(lambda: pack([1] * width), "record of %d bytes declared as %d" % (size, declared))
    else:
        cls, _ = pack([0] * width)
        for bits in contents({'f': width}):
            check_pack(ctx, cls, layout, {'f': 'le'}, bits, declared, "%s" % (case,))
        ctx.outcome('filled' if declared > size else 'exact')
    ctx.state(case)
    ctx.trace()


def gen_size():
    for how in ('plain', 'computed', 'slices'):
        for segments in ([[0, 8]], [[0, 5]], [[4, 12]], [[16, 24]], [[8, 11]], [[16, 24], [0, 8]], [[3, 8], [9, 17]], [[0, 32]]):
            for declared in range(1, 8):
                yield [segments, declared, how]


# ---------------------------------------------------------------- too long and too short encodings

class Inner(Buffer):
    data = bytearray_field(where=bytes_ref[0:])


def run_length(case, ctx):
    kind, first, width, n, how = case
    end = first + width
    place = where([(first, end)], how)
    # the neighbours: everything in the first bytes that's not the place
    neighbours = {}
    if first:
        neighbours['a' if how != 'computed' else 'z'] = (0, first)
    neighbours['y'] = (end, ((end + 7) // 8 + 1) * 8)
    size = (end + 7) // 8 + 1
    attrs = dict((name, le_uint_field(where=where([p]))) for name, p in neighbours.items())
    data = bytearray((0xD1, 0xE2, 0xF3, 0xC4, 0xB5, 0xA6, 0x97, 0x88)[:n])
    if kind == 'bytes':
        attrs['m'], value = bytearray_field(where=place), data
    elif kind == 'list':
        attrs['m'], value = list_field(uint8, where=place), list(data)
    elif kind == 'nested':
        attrs['m'], value = buffer_field(Inner, where=place), Inner(data=data)
    elif kind == 'str':
        data = bytearray(b'abcdefgh'[:n])
        attrs['m'], value = str_field(where=place), data.decode()
    else:
        data = bytearray(b'12345678'[:n])
        attrs['m'], value = json_field(where=place), int(data)
    cls = record(attrs)
    need = (width + 7) // 8
    for fill in (0, 1):
        obj = cls(m=value, **dict((name, ((1 << (p[1] - p[0])) - 1) * fill) for name, p in neighbours.items()))
        if n < need and kind not in ('str', 'json'):
            ctx.rejects(obj.pack, "%s of %d bytes in %d bits" % (kind, n, width))
            continue
        try:
            got = obj.pack()
        except Exception:
            if n == need:
                raise
            ctx.outcome('too long is an error')
            continue
        want = [fill] * (size * 8)
        content = to_bits((data + b' ' * width)[:need])
        want[first:end] = content[:width]
        got_bits = to_bits(got)
        if n > need:
            ctx.outcome('too long is cut')
            want[first:end] = got_bits[first:end]
        ctx.eq(got_bits, want, "%s of %d bytes at bits %d-%d, neighbours %d" % (kind, n, first, end, fill))
        ctx.step()
    ctx.state(case)
    ctx.trace()


def gen_length():
    for kind in ('bytes', 'list', 'nested', 'str', 'json'):
        for how in ('plain', 'computed'):
            for first in (0, 8, 3, 12, 16):
                for width in (8, 16, 24, 32) + ((5, 12, 19) if kind != 'str' and kind != 'json' else ()):
                    for n in range(0 if kind != 'json' else 1, 7):
                        yield [kind, first, width, n, how]


PART_CUTS = [0, 8, 12, 24, 32, 40]


def run_length_parts(case, ctx):
    """The same for a place in several parts."""
    kind, order, n, how, name = case
    segments = [(PART_CUTS[k], PART_CUTS[k + 1]) for k in order]
    others = [(a, b) for a, b in zip(PART_CUTS, PART_CUTS[1:]) if (a, b) not in segments] + [(40, 48)]
    width = sum(b - a for a, b in segments)
    need = (width + 7) // 8
    attrs = dict(('g%d' % k, le_uint_field(where=where([s], how))) for k, s in enumerate(others))
    data = bytearray((0xD1, 0xE2, 0xF3, 0xC4, 0xB5, 0xA6, 0x97, 0x88)[:n])
    place = where(segments, how)
    if kind == 'bytes':
        attrs[name], value = bytearray_field(where=place), data
    elif kind == 'list':
        attrs[name], value = list_field(uint8, where=place), list(data)
    else:
        attrs[name], value = buffer_field(Inner, where=place), Inner(data=data)
    cls = record(attrs)
    for fill in (0, 1):
        values = dict(('g%d' % k, ((1 << (b - a)) - 1) * fill) for k, (a, b) in enumerate(others))
        values[name] = value
        obj = cls(**values)
        if n < need:
            ctx.rejects(obj.pack, "%s of %d bytes in %s" % (kind, n, segments))
            continue
        try:
            got = to_bits(obj.pack())
        except Exception:
            if n == need:
                raise
            ctx.outcome('too long is an error')
            continue
        want = [fill] * 48
        todo = to_bits(data)
        for a, b in segments:
            want[a:b] = todo[:b - a] if n == need else got[a:b]
            del todo[:b - a]
        ctx.eq(got, want, "%s of %d bytes in %s, neighbours %d" % (kind, n, segments, fill))
        ctx.step()
    ctx.state(*case)
    ctx.trace()


def gen_length_parts(most):
    def gen():
        for kind in ('bytes', 'list', 'nested'):
            for k in range(2, most + 1):
                for order in itertools.permutations(range(len(PART_CUTS) - 1), k):
                    for n in range(0, 8):
                        for how in ('plain', 'computed'):
                            yield [kind, list(order), n, how, 'm' if how == 'plain' else 'a']
    return gen


# ---------------------------------------------------------------- different positions for packing and unpacking

def run_two_places(case, ctx):
    p, q, how = case
    cls = record({'f': le_uint_field(where_when_pack=where([tuple(p)], how), where_when_unpack=where([tuple(q)], how)),
                  'g': uint_field(where=bytes_ref[7])})
    width = p[1] - p[0]
    for v in sorted(set([0, 1, (1 << width) - 1, (1 << (width - 1)), 0x5A6B7C & ((1 << width) - 1)])):
        got = cls(f=v, g=0).pack()
        want = [0] * 64
        want[p[0]:p[1]] = int_bits(v, width)
        ctx.eq(bytes(got), to_bytes(want), "pack %d at %s, unpack from %s" % (v, p, q))
        data = [0] * 64
        data[q[0]:q[1]] = int_bits(v, width)
        for fill in (0, 1):
            bits = [fill] * 64
            bits[q[0]:q[1]] = int_bits(v, width)
            obj = cls()
            obj.unpack(to_bytes(bits))
            ctx.eq(obj.f, v, "unpack from %s, pack at %s" % (q, p))
        ctx.step()
    ctx.state(case)
    ctx.trace()


def gen_two_places():
    for width in (3, 8, 11, 16, 24):
        for p in (0, 4, 8, 13, 16):
            for q in (0, 4, 8, 13, 16, 24):
                for how in ('plain', 'computed', 'wide'):
                    yield [[p, p + width], [q, q + width], how]


LARGE = {'far': (16384, 24), 'parts': (128, 12)}


def spaces(tier):
    quick = tier == 'quick'
    need = ['1 fields', '2 fields', '3 fields']
    return [
        Space('layouts', gen_layout(['le'], ['up', 'down'], ['plain']), run_layout,
              'all assignments of 6 parts of 4 bytes to 3 named fields or to none', need),
        Space('layout-kinds', gen_layout(['be', 'bytes'] if quick else ['le', 'be', 'bytes'], ['down'] if quick else ['up', 'down'],
                                         ['slices', 'computed'] if quick else ['slices', 'wide', 'computed'], 3 if quick else 4),
              run_layout, 'the same with other field kinds and ways to write the position', need[:2]),
        Space('names', gen_names, run_names, 'all names x declaration orders of four adjacent fields'),
        Space('inherit', gen_inherit, run_inherit, 'all distributions and redefinitions of three fields over three classes',
              ['redefined', 'inherited']),
        Space('size', gen_size, run_size, 'declared sizes around the real one', ['filled', 'exact', 'rejected']),
        Space('length', gen_length, run_length, 'encodings of every length around the place', ['rejected']),
        Space('length-parts', gen_length_parts(2 if quick else 5), run_length_parts, 'the same in places of several parts', ['rejected']),
        Space('two-places', gen_two_places, run_two_places, 'different positions for packing and unpacking'),
    ]
