"""C11: data that ends before the end of a bounded field never gives a record."""
import itertools
import struct
from mc.core import Space
from mc import family
from mc.family import Program, programs, Pair, Blob, pair_bytes, blob_bytes, KINDS
from mc.rec import record
from infi.instruct.errors import InstructError
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_uint_field, le_uint_field, be_int_field, float_field, str_field,
                                  bytearray_field, list_field, buffer_field, json_field, uint8, b_uint16, l_int32, after_ref, len_ref, num_ref,
                                  self_ref, min_ref, max_ref, str_type_factory, member_func_ref)

ID = 'C11'
RULE = ('programs: one record definition of up to three items laid out one after another, each combination of its values, cut at every byte; '
        'places: every field kind at every position of a set, with data of every length; counts: every announced length with data of every '
        'length; inside: nested records and lists whose place is too small; conditions: skipped and present fields with data of every length')
ASSUMPTIONS = ['text, bytes and lists in a place with an open end hold what there is, as long as elements are not cut',
               'where an open place that starts after the end of the data begins is not specified']


def refused(ctx, func, what):
    e = ctx.rejects(func, what)
    ctx.true(isinstance(e, InstructError), "%s: the error is not one of the library's: %r" % (what, e))


def unpack(ctx, cls, data, reuse=None):
    obj = cls() if reuse is None else reuse
    given = bytes(data)
    try:
        obj.unpack(data)
    finally:
        ctx.eq(bytes(data), given, "the data")
    return obj


def kinds_of(data):
    return (data, bytearray(data))


# ---------------------------------------------------------------- programs

def open_values(item, v, rest):
    """What an open tail holds when only this part of it is there, or None if that has to be an error."""
    if item.kind in ('bytes...', 'text...'):
        return type(v)(rest) if item.kind == 'bytes...' else rest.decode()
    if item.kind in ('list...', 'blobs...'):
        for k in range(len(v) + 1):
            if len(item.encode(v[:k])) == len(rest):
                return v[:k]
    return None


def run_program(case, ctx):
    kinds, style, names = case
    p = Program(kinds, style, names)
    cls = p.define()
    for combo in p.values():
        data = p.encode(combo)
        fields = p.fields(combo)
        last = p.items[-1]
        opened = p.open_at(combo) if last.open else None
        used = cls()
        for end in range(len(data)):
            want = None
            if opened is not None and end >= opened:
                v = open_values(last, combo[-1], data[opened:end])
                if v is not None:
                    want = dict(fields)
                    want[last.name] = v
                    if isinstance(v, str):
                        want[last.name] = v.rstrip(' \0')
            what = "%r: %s cut after %d of %d bytes" % (p, fields, end, len(data))
            for n, cut in enumerate(kinds_of(data[:end])):
                obj = cls() if n == 0 else used
                if want is None:
                    refused(ctx, lambda: obj.unpack(cut), what)
                else:
                    obj.unpack(cut)
                    ctx.eq(dict((k, getattr(obj, k)) for k in fields), want, what)
                    ctx.outcome('open')
                ctx.step()
            ctx.state(p.kinds, p.style, p.names, repr(combo), end)
        # what failed before doesn't matter
        for obj in (used, cls()):
            obj.unpack(data)
            ctx.eq(dict((k, getattr(obj, k)) for k in fields), fields, "%r, complete" % (p,))
        ctx.trace()


def gen_programs(lengths, **kw):
    return lambda: programs(lengths, **kw)


# ---------------------------------------------------------------- places

PLACES = {
    # text: (byte positions, bits) of the field; bits None: whole bytes
    '0': ([0], 8), '3': ([3], 8), '0:2': ([0, 1], 16), '2:6': ([2, 3, 4, 5], 32), '1:4': ([1, 2, 3], 24), '0:8': (list(range(8)), 64),
    '5,0': ([5, 0], 16), '0,5': ([0, 5], 16), '2:4,0:2': ([2, 3, 0, 1], 32), '0:1,3:6': ([0, 3, 4, 5], 32), '1,3,5': ([1, 3, 5], 24),
    '2.0:3': ([2], 3), '2.5:8': ([2], 3), '1.7': ([1], 1), '1:3.4:12': ([1, 2], 8), '0:3.20:24': ([2], 4), '0:3.0:4': ([0], 4),
    '0:3.7:9': ([0, 1], 2), '0,4.4:12': ([0, 4], 8), '4,0.0:8': ([4], 8), '3.0:4+1': ([3, 1], 12), '1+3.0:4': ([1, 3], 12),
    '3:3': ([], 0), '2:4.8:8': ([], 0), '0:16': (list(range(16)), 128),
}


def place(text):
    if '+' in text:
        a, b = text.split('+')
        return place(a) + place(b)
    if '.' in text:
        base, bits = text.split('.')
        bits = [int(x) for x in bits.split(':')]
        base = place(base)
        return base.bits[bits[0]:bits[1]] if len(bits) == 2 else base.bits[bits[0]]
    parts = [x.split(':') for x in text.split(',')]
    parts = [slice(int(x[0]), int(x[1])) if len(x) == 2 else int(x[0]) for x in parts]
    return bytes_ref[parts[0]] if len(parts) == 1 else bytes_ref[parts]


FIELDS = {
    # kind: (makes the field, sizes in bits that it can have)
    'uint': (lambda w: uint_field(where=w), lambda n: n > 0),
    'int': (lambda w: int_field(where=w), lambda n: n in (8, 16, 32, 64)),
    'be': (lambda w: be_uint_field(where=w), lambda n: n > 0 and n % 8 == 0),
    'le': (lambda w: le_uint_field(where=w), lambda n: n > 0),
    'float': (lambda w: float_field(where=w), lambda n: n in (32, 64)),
    'str': (lambda w: str_field(where=w), lambda n: n % 8 == 0),
    'right': (lambda w: str_field(where=w, justify='right', padding=b'*'), lambda n: n % 8 == 0),
    'bytes': (lambda w: bytearray_field(where=w), lambda n: n % 8 == 0),
    'list': (lambda w: list_field(uint8, where=w), lambda n: n % 8 == 0),
    'counted': (lambda w: list_field(b_uint16, n=1, where=w), lambda n: n % 8 == 0 and n >= 16),
    'names': (lambda w: list_field(str_type_factory(byte_size=2), n=2, where=w), lambda n: n == 32),
    'record': (lambda w: buffer_field(Pair, where=w), lambda n: n % 8 == 0 and n >= 24),
    'blob': (lambda w: buffer_field(Blob, where=w), lambda n: n % 8 == 0 and n >= 64),
    'records': (lambda w: list_field(Blob, n=2, where=w), lambda n: n % 8 == 0 and n >= 64),
    'json': (lambda w: json_field(where=w), lambda n: n % 8 == 0 and n),
}


def run_place(case, ctx):
    kind, text, before, how = case
    make = FIELDS[kind][0]
    positions, bits = PLACES[text]
    attrs = {}
    where = place(text)
    if how == 'where':
        attrs['v'] = make(where)
    end = max(positions) + 1 if positions else 0
    if before:
        attrs['a' if before == 1 else 'z'] = uint_field(where=bytes_ref[9])      # needs more than the field itself
        end = max(end, 10)
    base = record(attrs) if how == 'where' else None
    cls = base
    digits = b'12345678901234567890'
    for size in range(21):
        data = digits[:size]
        if kind in ('blob', 'records'):
            data = (b'\x01' * 20)[:size]
        for d in kinds_of(data):
            what = "%s at %s from %d bytes" % (kind, text, size)
            if size < end:
                refused(ctx, lambda: cls().unpack(d), what)
            elif positions:
                o = unpack(ctx, cls, d)
                ctx.true(o.v is not None, what)
                ctx.outcome('complete')
            else:
                # nothing of it is in the data
                ctx.outcome('empty')
            ctx.step()
        ctx.state(kind, text, before, size)
    ctx.trace()


def gen_places():
    for kind in sorted(FIELDS):
        for text in sorted(PLACES):
            if FIELDS[kind][1](PLACES[text][1]) and not (kind == 'json' and '.' in text):
                for before in (0, 1, 2):
                    yield [kind, text, before, 'where']


# ---------------------------------------------------------------- announced lengths

def run_counts(case, ctx):
    """A length field, content of that length and maybe a field after it: every announced and every actual length."""
    kind, follow, names, limit = case
    n_name, v_name, z_name = {'up': 'abc', 'down': 'cba', 'mid': 'bac'}[names]
    n = uint_field(where=bytes_ref[1])
    unit = {'u16': 2, 'pairs': 3, 'pairs n': 3, 'u16 n': 2, 'u16 open': 2, 'pairs open': 3}.get(kind, 1)
    head = 2
    fixed_end = None
    size = n * unit if unit > 1 else n
    where = bytes_ref[2:2 + size]
    if kind == 'bytes':
        v = bytearray_field(where=where)
    elif kind == 'text':
        v = str_field(where=where)
    elif kind == 'u8':
        v = list_field(uint8, where=where)
    elif kind == 'u8 n':
        v = list_field(uint8, n=n, where=where)
    elif kind == 'u16':
        v = list_field(b_uint16, where=where)
    elif kind == 'u16 n':
        v = list_field(b_uint16, n=n, where=where)
    elif kind == 'pairs':
        v = list_field(Pair, where=where)
    elif kind == 'pairs n':
        v = list_field(Pair, n=n, where=where)
    elif kind == 'index':
        v = uint_field(where=bytes_ref[2 + n])
    elif kind == 'slice end':
        v = bytearray_field(where=bytes_ref[n:n + 2])
    elif kind == 'far':
        v = be_uint_field(where=bytes_ref[n * 2:n * 2 + 4])
    elif kind == 'bit':
        v = uint_field(where=bytes_ref[2:8].bits[n])
    elif kind == 'bits':
        v = uint_field(where=bytes_ref[2:8].bits[n:n + 5])
    elif kind == 'parts':
        v = bytearray_field(where=bytes_ref[0] + bytes_ref[2 + n:4 + n])
    elif kind == 'max':
        v = bytearray_field(where=bytes_ref[2:2 + max_ref(n, 3)])
    elif kind == 'min':
        v = bytearray_field(where=bytes_ref[2:2 + min_ref(n, 3)])
    elif kind == 'to':
        v = bytearray_field(where=bytes_ref[2:n])
    attrs = {n_name: n, v_name: v}
    if follow:
        attrs[z_name] = uint_field(where=bytes_ref[after_ref(v)])
    cls = record(attrs)
    for announced in range(limit):
        content = 2 + announced * unit
        if kind == 'index':
            content = 3 + announced
        elif kind == 'slice end':
            content = announced + 2
        elif kind == 'far':
            content = announced * 2 + 4
        elif kind == 'bit':
            content = 2 + announced // 8 + 1 if announced < 48 else None
        elif kind == 'bits':
            content = 2 + (announced + 4) // 8 + 1 if announced + 5 <= 48 else None
        elif kind == 'parts':
            content = 4 + announced
        elif kind == 'max':
            content = 2 + max(announced, 3)
        elif kind == 'min':
            content = 2 + min(announced, 3)
        elif kind == 'to':
            content = announced if announced >= 2 else None
        need = None
        if content is not None:
            need = max(content, 2)
            if follow:
                need = max(content + 1, 2)
        for size in range(limit * unit + 6):
            data = bytearray((37 + 11 * k) & 127 for k in range(size))
            if size > 1:
                data[1] = announced
            what = "%s follow %s: %d announced in %d bytes" % (kind, follow, announced, size)
            if need is None or size < need:
                refused(ctx, lambda: cls().unpack(data), what)
            else:
                o = unpack(ctx, cls, bytes(data))
                ctx.eq(getattr(o, n_name), data[1], what)
                ctx.outcome('complete')
                v = getattr(o, v_name)
                if kind in ('bytes', 'parts', 'max', 'min', 'to', 'slice end'):
                    where = {'parts': [0] + list(range(2 + announced, 4 + announced)), 'slice end': range(announced, announced + 2)}.get(
                        kind, range(2, content))
                    ctx.eq(v, bytearray(data[k] for k in where), what)
                elif kind in ('u8', 'u8 n'):
                    ctx.eq(v, list(data[2:content]), what)
                elif kind in ('u16', 'u16 n', 'pairs', 'pairs n'):
                    ctx.eq(len(v), announced, what)
                elif kind == 'index':
                    ctx.eq(v, data[content - 1], what)
                elif kind == 'far':
                    ctx.eq(v, struct.unpack('>L', bytes(data[content - 4:content]))[0], what)
                if follow and kind not in ('bit', 'bits'):
                    ctx.eq(getattr(o, z_name), data[content], what)
            ctx.step()
            ctx.state(kind, follow, names, announced, size)
    ctx.trace()


def gen_counts(limit):
    def g():
        for kind in ('bytes', 'text', 'u8', 'u8 n', 'u16', 'u16 n', 'pairs', 'pairs n', 'index', 'slice end', 'far', 'bit', 'bits', 'parts', 'max', 'min', 'to'):
            for follow in (0, 1):
                if follow and kind in ('bit', 'bits'):
                    continue
                for names in ('up', 'down', 'mid'):
                    yield [kind, follow, names, limit]
    return g


# ---------------------------------------------------------------- places that are too small for what's in them

class Tail(Buffer):
    """Knows how much it needs, and then takes what is left."""
    n = uint_field(where=bytes_ref[0])
    body = bytearray_field(where=bytes_ref[1:1 + n])
    more = be_uint_field(where=bytes_ref[after_ref(body):after_ref(body) + 2])


class Bits(Buffer):
    a = uint_field(where=bytes_ref[0].bits[0:4])
    b = uint_field(where=bytes_ref[0].bits[4:8] + bytes_ref[1])


class Deep(Buffer):
    k = uint_field(where=bytes_ref[0])
    blob = buffer_field(Blob, where=bytes_ref[1:])
    after = uint_field(where=bytes_ref[after_ref(blob)])


class Under(Pair):
    w = uint_field(where=bytes_ref[4])


CONTENT = {
    # name: (type, list of encodings of one element)
    'pair': (Pair, [b'\x12\x34\xa5']),
    'blob': (Blob, [b'\x00', b'\x03abc']),
    'tail': (Tail, [b'\x00\x12\x34', b'\x02ab\x12\x34']),
    'bits': (Bits, [b'\x5a\xa5']),
    'under': (Under, [b'\x12\x34\xa5\x00\x77']),
    'deep': (Deep, [b'\x07\x00\x08', b'\x07\x02yz\x09']),
    'u16': (b_uint16, [b'\x12\x34']),
    'i32': (l_int32, [b'\x12\x34\x56\x78']),
    'str': (str_type_factory(byte_size=3), [b'abc']),
}


def element(o):
    if isinstance(o, Buffer):
        return dict((f.attr_name(), element(getattr(o, f.attr_name()))) for f in type(o)._all_fields())
    if isinstance(o, list):
        return [element(x) for x in o]
    return o


def alone(kind, data):
    t = CONTENT[kind][0]
    if isinstance(t, tuple):
        cls = record(dict(v=list_field(t, n=1, where=bytes_ref[0:len(data)])))
        o = cls()
        o.unpack(data)
        return element(o.v[0])
    o = t()
    o.unpack(data)
    return element(o)


def run_inside(case, ctx):
    """count elements in a place of every size, within data of every length."""
    kind, shape, count, style = case
    t, encodings = CONTENT[kind]
    for chosen in itertools.product(range(len(encodings)), repeat=count):
        content = b''.join(encodings[k] for k in chosen)
        ends = list(itertools.accumulate([0] + [len(encodings[k]) for k in chosen]))
        for size in range(len(content) + 3):
            n = uint_field(where=bytes_ref[0])
            where = {'closed': bytes_ref[1:1 + size], 'field': bytes_ref[1:1 + n], 'parts': bytes_ref[1:1 + size // 2] + bytes_ref[1 + size // 2:1 + size],
                     'bits': bytes_ref[0:1 + size].bits[8:8 + size * 8]}[style]
            if shape == 'one':
                v = buffer_field(t, where=where)
            elif shape == 'counted':
                v = list_field(t, n=count, where=where)
            elif shape == 'by field':
                v = list_field(t, n=num_ref(self_ref.m), where=where)
            else:
                v = list_field(t, where=where)
            attrs = dict(n=n, v=v)
            if shape == 'by field':
                attrs['m'] = uint_field(where=bytes_ref[1 + size] if style != 'field' else bytes_ref[1 + n])
            cls = record(attrs)
            data = struct.pack('B', size) + (content + b'\xee\xee\xee')[:size]
            if shape == 'by field':
                data += struct.pack('B', count)
            what = "%s %s x%d in a place of %d bytes (%s), encoded in %d" % (shape, kind, count, size, style, len(content))
            fits = size in ends if shape == 'filled' else size >= len(content)
            if size > len(content) and shape == 'filled':
                fits = None       # what follows may be elements or not
            if size == 0 and shape == 'filled':
                fits = None
            for extra in (b'', b'\x01\x02\x03\x04\x05\x06\x07\x08'):
                if fits:
                    o = unpack(ctx, cls, data + extra)
                    expected = [alone(kind, encodings[k]) for k in chosen]
                    if shape == 'filled':
                        expected = expected[:ends.index(size)] if len(set(ends)) == len(ends) else expected
                    got = element(o.v if shape != 'one' else [o.v])
                    ctx.eq(got, expected, what)
                    ctx.outcome('complete')
                elif fits is not None:
                    refused(ctx, lambda: cls().unpack(data + extra), what)
                ctx.step()
            if fits:
                for end in range(len(data)):
                    refused(ctx, lambda: cls().unpack(data[:end]), "%s cut after %d of %d" % (what, end, len(data)))
            ctx.state(kind, shape, count, style, size, chosen)
    ctx.trace()


def gen_inside(most):
    def g():
        for kind in sorted(CONTENT):
            for style in ('closed', 'field', 'parts', 'bits'):
                for count in range(1, most + 1):
                    for shape in ('counted', 'filled', 'by field'):
                        yield [kind, shape, count, style]
                if not isinstance(CONTENT[kind][0], tuple):
                    yield [kind, 'one', 1, style]
    return g


# ---------------------------------------------------------------- conditions

def run_condition(case, ctx):
    """Up to three fields that are there or not: data of every length."""
    how, kinds, names = case
    order = {'up': 'abcd', 'down': 'dcba'}[names]
    sizes = {'u8': 1, 'be': 2, 'bytes': 3, 'pair': 3}
    flags = uint_field(where=bytes_ref[0])
    attrs = {order[0]: flags}
    at = 1
    spots = []
    for i, kind in enumerate(kinds):
        name = order[i + 1]
        bit = 1 << i
        if how == 'func':
            cond = (lambda flag_name, bit: lambda obj: bool(getattr(obj, flag_name) & bit))(order[0], bit)
        else:
            present = attrs['%s%d' % (order[0], i)] = uint_field(where=bytes_ref[0].bits[i])
            cond = present == 1
        where = bytes_ref[at] if sizes[kind] == 1 else bytes_ref[at:at + sizes[kind]]
        kw = dict(where=where, unpack_if=cond)
        if how == 'func':
            kw['unpack_after'] = flags
            kw['unpack_if'] = member_func_ref(cond)
        attrs[name] = {'u8': uint_field, 'be': be_uint_field, 'bytes': bytearray_field, 'pair': lambda **k: buffer_field(Pair, **k)}[kind](**kw)
        spots.append((name, at, at + sizes[kind]))
        at += sizes[kind]
    cls = record(attrs)
    for value in range(1 << len(kinds)):
        need = max([1] + [stop for i, (_, _, stop) in enumerate(spots) if value >> i & 1])
        for size in range(at + 2):
            data = bytearray((41 + 7 * k) & 255 for k in range(size))
            if size:
                data[0] = value
            what = "%s with flags %d in %d bytes" % (case, value, size)
            if size < need:
                refused(ctx, lambda: cls().unpack(bytes(data)), what)
            else:
                o = unpack(ctx, cls, data)
                for i, (name, start, stop) in enumerate(spots):
                    v = getattr(o, name)
                    ctx.eq(v is not None, bool(value >> i & 1), what)
                ctx.outcome('complete')
            ctx.step()
            ctx.state(how, kinds, names, value, size)
    ctx.trace()


def gen_condition(most):
    def g():
        for how, names in (('func', 'up'), ('expr', 'up'), ('expr', 'down')):      # a function needs the flags before it
            for n in range(1, most + 1):
                for kinds in itertools.product(('u8', 'be', 'bytes', 'pair'), repeat=n):
                    yield [how, list(kinds), names]
    return g


# ---------------------------------------------------------------- elements of a chosen type

def run_chosen(case, ctx):
    """Elements whose type is chosen by their first byte: cut anywhere."""
    shape, pattern, style = case
    types = {0: (Tail0, 3), 1: (Tail1, 4)}

    def choose(obj, buffer, **kwargs):
        return types[buffer[0]][0]
    data = b''.join({0: b'\x00\x12\x34', 1: b'\x01\x02ab'}[k] for k in pattern)
    where = {'closed': bytes_ref[1:1 + len(data)], 'open': bytes_ref[1:], 'field': bytes_ref[1:1 + num_ref(self_ref.n)]}[style]
    if shape == 'one':
        v = buffer_field(Tail0, unpack_selector=choose, where=where)
    else:
        v = list_field(Tail0, n=len(pattern) if shape == 'counted' else None, unpack_selector=choose, where=where)
    cls = record(dict(n=uint_field(where=bytes_ref[0]), v=v))
    whole = struct.pack('B', len(data)) + data
    ends = list(itertools.accumulate([0] + [types[k][1] if k == 0 else 4 for k in pattern]))
    for end in range(len(whole) + 1):
        cut = whole[:end]
        what = "%s cut after %d of %d" % (case, end, len(whole))
        if style == 'open' and shape != 'one' and end >= 1 and end - 1 in ends:
            o = unpack(ctx, cls, cut)
            got = [type(x) for x in o.v]
            want = [types[k][0] for k in pattern[:ends.index(end - 1)]]
            ctx.eq(got, want, what)
            ctx.outcome('open')
        elif end == len(whole):
            o = unpack(ctx, cls, cut)
            got = [type(x) for x in (o.v if shape != 'one' else [o.v])]
            ctx.eq(got, [types[k][0] for k in pattern], what)
            ctx.outcome('complete')
        else:
            refused(ctx, lambda: cls().unpack(cut), what)
        ctx.step()
        ctx.state(shape, pattern, style, end)
    ctx.trace()


class Tail0(Buffer):
    kind = uint_field(where=bytes_ref[0])
    x = be_uint_field(where=bytes_ref[1:3])


class Tail1(Buffer):
    kind = uint_field(where=bytes_ref[0])
    n = uint_field(where=bytes_ref[1])
    x = bytearray_field(where=bytes_ref[2:2 + n])


def gen_chosen(most):
    def g():
        for style in ('closed', 'open', 'field'):
            for n in range(1, most + 1):
                for pattern in itertools.product((0, 1), repeat=n):
                    for shape in ('counted', 'filled') + (('one',) if n == 1 else ()):
                        yield [shape, list(pattern), style]
    return g


LARGE = {'cut_record': (4096, 16)}


def spaces(tier):
    f = family
    quick = tier == 'quick'
    need = ['rejected']
    out = [
        Space('places', gen_places, run_place, 'field kinds and positions with data of every length', need + ['complete', 'empty']),
        Space('counts', gen_counts(12 if quick else 40), run_counts, 'announced and actual lengths', need + ['complete']),
        Space('inside', gen_inside(2 if quick else 3), run_inside, 'nested records and lists in places of every size', need + ['complete']),
        Space('conditions', gen_condition(2 if quick else 3), run_condition, 'conditional fields with data of every length', need + ['complete']),
        Space('chosen', gen_chosen(3 if quick else 6), run_chosen, 'elements of a chosen type', need + ['complete', 'open']),
        Space('one', gen_programs([0, 1]), run_program, 'all items alone and before every kind of last item', need + ['open']),
    ]
    if quick:
        out += [Space('two', gen_programs([2], names=['up', 'down'], static=[f.Split], dynamic=[f.Bytes, f.ListPairs, f.Clamped]),
                      run_program, 'pairs of few items, and a last item', need)]
    else:
        out += [Space('two', gen_programs([2]), run_program, 'all pairs of items, and a last item', need),
                Space('three', gen_programs([3], static=[f.Flags, f.Split], dynamic=[f.Bytes, f.List16, f.Clamped], names=['down']),
                      run_program, 'triples of few items', need)]
    return out
