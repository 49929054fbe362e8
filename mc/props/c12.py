"""C12: lists and nested records hold exactly the declared elements."""
import itertools
import struct
from mc.core import Space
from mc import family
from mc.family import Program, programs, Pair, Blob, pair_bytes, blob_bytes
from mc.rec import record
from infi.instruct.buffer import *
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, int_field, be_uint_field, le_uint_field, be_int_field, float_field, str_field,
                                  bytearray_field, list_field, buffer_field, after_ref, len_ref, num_ref, self_ref, str_type_factory,
                                  member_func_ref, total_size)
from six.moves import range

ID = 'C12'
RULE = ('lists: every element type with every way to give the count and the place, with all lists of its values to a length; '
        'data: every count with data of every length; chosen: all sequences of what a chooser returns to a length; '
        'nested: record definitions of the C05 family as nested records, and nested in those')
ASSUMPTIONS = ['elements with no size are not specified without a count', 'a text element type without a size takes the whole place']

# ---------------------------------------------------------------- element types


class Half(Buffer):
    """Half a byte: packed to a whole one."""
    a = uint_field(where=bytes_ref[0].bits[0:4])


class Odd(Buffer):
    """11 bits."""
    a = uint_field(where=bytes_ref[0] + bytes_ref[1].bits[0:2])
    b = uint_field(where=bytes_ref[1].bits[2])


class Under(Pair):
    """Inherited, with a field of its own and one redefined."""
    y = uint_field(where=bytes_ref[2].bits[0:5])
    z = uint_field(where=bytes_ref[2].bits[5:8])
    w = be_int_field(where=bytes_ref[3:5])


class More(Blob):
    tail = uint_field(where=bytes_ref[after_ref(Blob.data)])


class Sized(Buffer):
    byte_size = 4
    a = uint_field(where=bytes_ref[1])


class Listed(Buffer):
    n = uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.items))
    items = list_field(b_uint16, n=n, where=bytes_ref[1:1 + n * 2])


class Nest(Buffer):
    n = uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.blobs))
    blobs = list_field(Blob, n=n, where=bytes_ref[1:])
    p = buffer_field(Pair, where=bytes_ref[after_ref(blobs):after_ref(blobs) + 3])


class Maybe(Buffer):
    has = uint_field(where=bytes_ref[0])
    x = be_uint_field(where=bytes_ref[after_ref(has):after_ref(has) + 2], pack_if=has == 1, unpack_if=has == 1)


class Empty(Buffer):
    """Without a size of its own."""
    x = bytearray_field(where=bytes_ref[0:0])


def eq(a, b):
    return type(a) == type(b) and fields_of(a) == fields_of(b)


def fields_of(o):
    if isinstance(o, Buffer):
        return (type(o).__name__, sorted((f.attr_name(), fields_of(getattr(o, f.attr_name()))) for f in type(o)._all_fields()))
    if isinstance(o, list):
        return [fields_of(x) for x in o]
    return (type(o).__name__, o)


def integers():
    for width, name in ((1, '8'), (2, '16'), (4, '32'), (8, '64')):
        for order, char in (('', '='), ('n_', '='), ('b_', '>'), ('l_', '<')):
            for sign in ('u', ''):
                t = {'8': {'': int8, 'n_': n_int8, 'b_': b_int8, 'l_': l_int8, 'u': uint8, 'un_': n_uint8, 'ub_': b_uint8, 'ul_': l_uint8},
                     '16': {'': int16, 'n_': n_int16, 'b_': b_int16, 'l_': l_int16, 'u': uint16, 'un_': n_uint16, 'ub_': b_uint16, 'ul_': l_uint16},
                     '32': {'': int32, 'n_': n_int32, 'b_': b_int32, 'l_': l_int32, 'u': uint32, 'un_': n_uint32, 'ub_': b_uint32, 'ul_': l_uint32},
                     '64': {'': int64, 'n_': n_int64, 'b_': b_int64, 'l_': l_int64, 'u': uint64, 'un_': n_uint64, 'ub_': b_uint64, 'ul_': l_uint64},
                     }[name][sign + order]
                code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[width]
                code = char + (code.upper() if sign else code)
                big = 1 << width * 8 - 1
                values = [0, big, 2 * big - 1, 1 << 8 * (width - 1)] if sign else [-1, big - 1, -big, 1]
                yield order + sign + 'int' + name, t, values, (lambda code: lambda v: struct.pack(code, v))(code)


def text(encoding, size, justify, padding):
    def enc(v):
        v = v.encode(encoding)
        return {'left': v.ljust, 'right': v.rjust, 'center': v.center}[justify](size, padding)
    return str_type_factory(encoding=encoding, byte_size=size, justify=justify, padding=padding), enc


TYPES = {}
for _name, _t, _values, _enc in integers():
    TYPES[_name] = (_t, [(lambda v: lambda: v)(v) for v in _values], _enc, None)
for _e, _s, _j, _p in (('ascii', 3, 'left', b' '), ('utf-8', 5, 'right', b' '), ('utf-16-be', 4, 'left', b' '), ('ascii', 4, 'center', b'*'),
                       ('ascii', 1, 'left', b' ')):
    _t, _enc = text(_e, _s, _j, _p)
    TYPES['str %s %d %s' % (_e, _s, _j)] = (_t, [lambda: '', lambda: 'a', lambda: 'b'] + ([lambda: 'xy'] if _s > 1 else []), _enc, None)
TYPES.update({
    'pair': (Pair, [family.PAIR1, family.PAIR2], pair_bytes, None),
    'blob': (Blob, [family.BLOB0, family.BLOB2, lambda: Blob(data=bytearray(b'xyz'))], blob_bytes, None),
    'half': (Half, [lambda: Half(a=5), lambda: Half(a=15)], lambda o: struct.pack('B', o.a), None),
    'odd': (Odd, [lambda: Odd(a=0x2A5, b=1), lambda: Odd(a=0x300, b=0)], lambda o: struct.pack('<H', o.a | o.b << 10), None),
    'under': (Under, [lambda: Under(x=1, y=0x15, z=5, w=-2), lambda: Under(x=0xFFFE, y=0, z=7, w=3)],
              lambda o: struct.pack('>HBh', o.x, o.y | o.z << 5, o.w), None),
    'more': (More, [lambda: More(data=bytearray(b'ab'), tail=7), lambda: More(data=bytearray(), tail=200)],
             lambda o: blob_bytes(o) + struct.pack('B', o.tail), None),
    'sized': (Sized, [lambda: Sized(a=3), lambda: Sized(a=255)], lambda o: struct.pack('BBBB', 0, o.a, 0, 0), 'padded'),
    'listed': (Listed, [lambda: Listed(items=[]), lambda: Listed(items=[1, 0xFFFE])],
               lambda o: struct.pack('>B%dH' % len(o.items), len(o.items), *o.items), None),
    'nest': (Nest, [lambda: Nest(blobs=[], p=family.PAIR1()), lambda: Nest(blobs=[family.BLOB2(), family.BLOB0()], p=family.PAIR2())],
             lambda o: struct.pack('B', len(o.blobs)) + b''.join(map(blob_bytes, o.blobs)) + pair_bytes(o.p), None),
    'maybe': (Maybe, [lambda: Maybe(has=0, x=None), lambda: Maybe(has=1, x=0x1234)],
              lambda o: b'\0' if not o.has else struct.pack('>BH', 1, o.x), None),
    'empty': (Empty, [lambda: Empty(x=bytearray())], lambda o: b'', 'sizeless'),
})

COUNTS = ('const', 'field', 'expr', 'func', 'method', 'name', 'none')
PLACES = ('closed', 'byte field', 'open', 'parts', 'split', 'bits', 'shifted', 'after', 'reversed')


def list_record(kind, count, where, follow, sizes, total, length, at=4):
    """A record with the list at byte 4; returns the class, its other values and where the list's bytes are."""
    t = TYPES[kind][0]
    attrs = {}
    head = attrs['head'] = uint_field(where=bytes_ref[0])
    size = attrs['size'] = uint_field(where=bytes_ref[1])
    first = attrs['first'] = uint_field(where=bytes_ref[2])
    n = {'const': length, 'field': head, 'expr': head * 2 - head, 'func': num_ref(member_func_ref(lambda o: o.head)),
         'method': num_ref(self_ref.count_of(head)), 'name': num_ref(self_ref.head), 'none': None}[count]
    attrs['count_of'] = lambda self, k: k
    at = 4
    place = list(range(4, 4 + total))
    if where == 'closed':
        w = bytes_ref[4:4 + total]
    elif where == 'byte field':
        w = bytes_ref[4:4 + size]
    elif where == 'open':
        w = bytes_ref[4:]
    elif where == 'parts':
        half = total // 2
        w = bytes_ref[4:4 + half] + bytes_ref[6 + half:6 + total]
        place = list(range(4, 4 + half)) + list(range(6 + half, 6 + total))
    elif where == 'split':
        w = bytes_ref[3] + bytes_ref[5:5 + total - 1]
        place = [3] + list(range(5, 4 + total))
    elif where == 'bits':
        w = bytes_ref[4:4 + total].bits[0:total * 8]
    elif where == 'shifted':
        w = bytes_ref[4:5 + total].bits[3:3 + total * 8]
        place = None
    elif where == 'reversed':
        w = bytes_ref[list(range(3 + total, 3, -1))]
        place = list(range(3 + total, 3, -1))
    elif where == 'after':
        w = bytes_ref[after_ref(first) + 1:]
    v = list_field(t, n=n, where=w)
    # functions of the record need the fields they look at before them
    if count == 'func':
        attrs['v'] = list_field(t, n=n, where=w, unpack_after=head)
    else:
        attrs['v'] = v
    if follow:
        attrs['z'] = be_uint_field(where=bytes_ref[after_ref(attrs['v']):after_ref(attrs['v']) + 2])
    return record(attrs), place


def run_list(case, ctx):
    kind, count, where, follow, longest = case
    t, values, enc, special = TYPES[kind]
    for length in range(longest + 1):
        for chosen in itertools.product(range(len(values)), repeat=length):
            elements = [values[k]() for k in chosen]
            content = b''.join(map(enc, elements))
            total = len(content)
            if where in ('reversed', 'split') and total < 2 or total > 200:
                continue
            if count == 'none' and special == 'sizeless':
                continue
            cls, place = list_record(kind, count, where, follow, None, total, length)
            o = cls(head=length, size=total, first=9, v=elements)
            if follow:
                o.z = 0x1234
            want = bytearray(max([3] + ([p + 1 for p in place] if place is not None else [5 + total] if total else [])))
            if place is None:
                bits = int.from_bytes(content, 'little') << 3
                want[4:] = bits.to_bytes(total + 1, 'little') if total else b''
            else:
                for p, b in zip(place, bytearray(content)):
                    want[p] = b
            want[0:3] = bytearray([length, total, 9])
            if follow:
                if not total:
                    # the position after an empty place
                    want += bytearray(max(0, 4 - len(want)))
                    if where == 'parts':
                        want += bytearray(6 - len(want))
                want += b'\x12\x34'
            before = list(elements)
            what = "%s of %s" % (case, [fields_of(x) for x in elements])
            packed = o.pack()
            if not total and not follow:
                ctx.eq(bytes(packed[:3]), bytes(want[:3]), what)
                want = packed
            ctx.eq(bytes(packed), bytes(want), what)
            ctx.true(len(before) == len(o.v) and all(a is b for a, b in zip(before, o.v)) and o.v is elements, "%s: the list was changed" % what)
            extras = [b'', b'\xe1\xe2\xe3\xe4\xe5'] if where not in ('open', 'after') or (count != 'none' and not follow) or (follow and count != 'none') else [b'']
            for extra in extras:
                back = cls()
                back.unpack(bytes(want) + extra)
                ctx.eq(fields_of(back.v), fields_of(elements), "%s, unpacked with %r" % (what, extra))
                ctx.eq((back.head, back.first), (length, 9), what)
                if follow:
                    ctx.eq(back.z, 0x1234, what)
                ctx.step()
            ctx.state(kind, count, where, follow, chosen)
            ctx.trace()
    ctx.outcome(where)


def gen_lists(tier):
    def g():
        few = ['b_uint16', 'l_int32', 'str ascii 3 left', 'pair', 'blob', 'half', 'odd', 'under', 'more', 'listed', 'nest', 'maybe', 'sized']
        for kind in sorted(TYPES):
            for count in COUNTS:
                for where in PLACES:
                    if kind not in few and tier == 'quick' and (count, where) not in (
                            ('const', 'closed'), ('none', 'closed'), ('field', 'open'), ('none', 'open'), ('none', 'after'), ('name', 'parts'), ('none', 'shifted')):
                        continue
                    if TYPES[kind][3] == 'sizeless' and where in ('reversed', 'split', 'open', 'after'):
                        continue
                    for follow in (0, 1):
                        if follow and where in ('reversed', 'split', 'shifted', 'bits'):
                            continue
                        if follow and where in ('open', 'after') and count == 'none':
                            continue
                        yield [kind, count, where, follow, 2 if tier == 'quick' else 3]
    return g


# ---------------------------------------------------------------- what there is in the data

def run_data(case, ctx):
    """Every declared count with data of every length."""
    kind, count, where, most = case
    t, values, enc, special = TYPES[kind]
    data = b''.join(enc(values[k % len(values)]()) for k in range(most))
    elements = [values[k % len(values)]() for k in range(most)]
    for e in elements:
        if isinstance(e, Buffer):
            e.pack()                  # computes lengths
    ends = [0]
    for e in elements:
        ends.append(ends[-1] + len(enc(e)))
    for n in range(most + 1):
        for size in range(len(data) + 1):
            head = uint_field(where=bytes_ref[0])
            declared = {'const': n, 'field': head, 'none': None}[count]
            v = list_field(t, n=declared, where={'open': bytes_ref[2:], 'closed': bytes_ref[2:2 + num_ref(self_ref.size)]}[where])
            attrs = dict(head=head, size=uint_field(where=bytes_ref[1]), v=v)
            cls = record(attrs)
            o = cls()
            given = struct.pack('BB', n, size) + data[:size] + (b'\xee' * 7 if where == 'closed' else b'')
            what = "%s: %d declared, %d of %d bytes" % (case, n, size, len(data))
            bound = most if count == 'none' else n
            complete = [k for k in range(most + 1) if ends[k] <= size][-1]
            if bound <= complete:
                want = bound
            elif where == 'closed' and count != 'none':
                want = None                          # less than declared
            else:
                want = complete if ends[complete] == size else None     # an element that's cut
            if want is None:
                ctx.rejects(lambda: o.unpack(given), what)
            else:
                o.unpack(given)
                ctx.eq(fields_of(o.v), fields_of(elements[:want]), what)
                ctx.outcome('unpacked')
            ctx.state(kind, count, where, n, size)
            ctx.step()
    ctx.trace()


def gen_data(tier):
    def g():
        for kind in sorted(TYPES):
            if TYPES[kind][3] in ('sizeless', 'padded'):
                continue
            for count in ('const', 'field', 'none'):
                for where in ('open', 'closed'):
                    yield [kind, count, where, 3 if tier == 'quick' else 5]
    return g


# ---------------------------------------------------------------- chosen elements

CHOICES = {
    # what the chooser returns, bytes it stands for
    'pair': (lambda: Pair, 3), 'blob': (lambda: Blob, None), 'under': (lambda: Under, 5), 'number': (lambda: (77, 2), 2), 'list': (lambda: [['x'], 1], 1),
    'skip': (lambda: None, 0), 'object': (lambda: (Half(a=3), 1), 1), 'zero': (lambda: (0, 1), 1), 'none': (lambda: (None, 2), 2),
    'nibble': (lambda: (5, 0.5), 0.5), 'empty': (lambda: ('', 0), 0), 'half': (lambda: Half, 1),
}
BYTES = {'pair': b'\x12\x34\xa5', 'blob': b'\x02xy', 'under': b'\x00\x01\x15\xff\xfe', 'number': b'ab', 'list': b'c', 'object': b'\x03', 'zero': b'd',
         'none': b'ef', 'half': b'\x0c', 'skip': b'', 'empty': b''}


def expected(name, data):
    if name in ('pair', 'blob', 'under', 'half'):
        o = CHOICES[name][0]()()
        o.unpack(data)
        return o
    if name == 'skip':
        return None
    return CHOICES[name][0]()[0]


def run_chosen(case, ctx):
    """The elements are what the chooser says, one after another."""
    sequence, count, where, how = case
    pieces = [BYTES[c] for c in sequence]
    content = b''.join(pieces)
    tail = b'\x01\x02\x03\x04\x05'
    calls = []

    def choose(obj, buffer, *args, **kwargs):
        calls.append((obj, bytes(buffer.to_bytes()), kwargs.get('index'), kwargs.get('n'), list(kwargs['container']), args, obj.head,
                      kwargs['container']))
        return CHOICES[sequence[kwargs['index']]][0]()
    if how == 'method':
        attrs = dict(_choose=lambda self, buffer, index, n, container, **kwargs: choose(self, buffer, index=index, n=n, container=container))
        chooser = attrs['_choose']
    elif how == 'kwargs':
        attrs = {}
        chooser = lambda obj, buffer, **kwargs: choose(obj, buffer, **kwargs)
    else:
        attrs = {}
        chooser = choose
    n = {'const': len(sequence), 'field': None, 'none': None}[count]
    head = attrs['head'] = uint_field(where=bytes_ref[0])
    if count == 'field':
        n = head
    size = attrs['size'] = uint_field(where=bytes_ref[1])
    w = {'closed': bytes_ref[2:2 + len(content)], 'field': bytes_ref[2:2 + size], 'open': bytes_ref[2:]}[where]
    attrs['v'] = list_field(Pair, n=n, unpack_selector=chooser, where=w)
    data = struct.pack('BB', len(sequence), len(content)) + content
    # without a count, elements without a size at the end are never asked for
    wanted = list(sequence)
    if count == 'none' or where == 'open':
        while wanted and not BYTES[wanted[-1]] and (count == 'none' or where == 'open'):
            wanted.pop()
    for extra in (b'', tail) if where != 'open' or count != 'none' else (b'',):
        if where == 'open' and extra:
            wanted = list(sequence)
        cls = record(attrs) if 'cls' not in locals() else cls
        o = cls()
        del calls[:]
        result = o.unpack(data + extra)
        what = "%s followed by %r" % (case, extra)
        left = content + (extra if where == 'open' else b'')
        want_calls = []
        so_far = []
        for k, name in enumerate(wanted):
            want_calls.append((k, None if count == 'none' else len(sequence), left, fields_of(so_far)))
            so_far.append(expected(name, left))
            left = left[len(BYTES[name]):]
        ctx.eq([(c[2], c[3], c[1], fields_of(c[4])) for c in calls], want_calls, "what the chooser saw in %s" % what)
        ctx.true(all(c[0] is o and c[6] == len(sequence) and not c[5] for c in calls), "the record the chooser saw in %s" % what)
        ctx.eq(fields_of(o.v), fields_of(so_far), what)
        ctx.step()
    ctx.state(sequence, count, where)
    ctx.trace()
    ctx.outcome('skips' if 'skip' in sequence else 'elements')


def gen_chosen(tier):
    names = ['pair', 'blob', 'number', 'skip', 'object', 'none']
    most = sorted(BYTES)

    def g():
        for count in ('const', 'field', 'none'):
            for where in ('closed', 'field', 'open'):
                for how in ('plain', 'kwargs', 'method'):
                    for length in range(5 if tier != 'quick' else 4):
                        for sequence in itertools.product(most if length < 3 else names, repeat=length):
                            if how != 'plain' and length > 2:
                                continue
                            yield [list(sequence), count, where, how]
                    for k in range(len(most)):
                        yield [[most[(k + i * (i + 1) // 2) % len(most)] for i in range(6 + k)], count, where, how]
    return g


def run_nibbles(case, ctx):
    """Elements whose size isn't whole bytes start where the previous one ended."""
    sizes, where = case
    calls = []
    bits = [k % 5 % 2 ^ (k // 3) % 2 for k in range(200)]
    total = sum(sizes)
    whole = (total + 7) // 8
    number = sum(b << k for k, b in enumerate(bits[:whole * 8]))
    content = number.to_bytes(whole, 'little') if whole else b''

    def choose(obj, buffer, index, **kwargs):
        size = sizes[index] / 8.0
        v = sum(b << 8 * k for k, b in enumerate(buffer[0:size]))
        return v, size
    cls = record(dict(v=list_field(Pair, n=len(sizes), unpack_selector=choose, where={'closed': bytes_ref[0:whole], 'open': bytes_ref[0:]}[where])))
    o = cls()
    o.unpack(content)
    want = []
    at = 0
    for s in sizes:
        want.append(sum(b << k for k, b in enumerate(bits[at:at + s])))
        at += s
    ctx.eq(o.v, want, "elements of %s bits" % (sizes,))
    ctx.state(*sizes)
    ctx.step()
    ctx.outcome('bits')


def gen_nibbles():
    for n in range(1, 6):
        for sizes in itertools.product((1, 3, 4, 8, 11) if n < 5 else (3, 4), repeat=n):
            for where in ('closed', 'open'):
                yield [list(sizes), where]


def run_one(case, ctx):
    """A nested record of a chosen type."""
    name, where, follow = case
    content = BYTES.get(name, b'')
    calls = []

    def choose(obj, buffer, **kwargs):
        calls.append((obj, bytes(buffer.to_bytes()), obj.head))
        return CHOICES[name][0]()
    attrs = dict(head=uint_field(where=bytes_ref[0]))
    w = {'closed': bytes_ref[2:2 + len(content)], 'wide': bytes_ref[2:4 + len(content)], 'open': bytes_ref[2:]}[where]
    v = attrs['v'] = buffer_field(Pair, unpack_selector=choose, where=w)
    if follow:
        attrs['z'] = uint_field(where=bytes_ref[after_ref(v)])
    rest = b'\xd1\xd2\xd3\xd4'
    cls = record(attrs)
    o = cls()
    o.unpack(b'\x05\x00' + content + rest)
    seen = content + {'closed': b'', 'wide': rest[:2], 'open': rest}[where]
    ctx.eq([(c[1], c[2]) for c in calls], [(seen, 5)], "what the chooser saw in %s" % (case,))
    ctx.true(calls[0][0] is o, "the record the chooser saw in %s" % (case,))
    ctx.eq(fields_of(o.v), fields_of(expected(name, seen)), "%s" % (case,))
    if follow:
        ctx.eq(o.z, bytearray(rest)[2 if where == 'wide' else 0], "field after %s" % (case,))
    ctx.state(*case)
    ctx.step()
    ctx.outcome('one')


def gen_one():
    for name in sorted(BYTES):
        for where in ('closed', 'wide', 'open'):
            for follow in (0, 1):
                yield [name, where, follow]


# ---------------------------------------------------------------- wrong choices

def run_wrong(case, ctx):
    what, shape = case
    wrong = {'number': 5, 'text': 'Pair', 'three': (1, 2, 3), 'one': (1,), 'instance': Pair(x=1, y=2, z=3), 'true': True, 'dict': {}, 'int': int,
             'raise': None}[what]

    def choose(obj, buffer, **kwargs):
        if what == 'raise':
            raise KeyError("injected")
        return wrong
    f = {'one': lambda: buffer_field(Pair, unpack_selector=choose, where=bytes_ref[0:3]),
         'list': lambda: list_field(Pair, unpack_selector=choose, where=bytes_ref[0:3]),
         'counted': lambda: list_field(Pair, n=1, unpack_selector=choose, where=bytes_ref[0:])}[shape]()
    cls = record(dict(v=f))
    ctx.rejects(lambda: cls().unpack(b'\x01\x02\x03'), "%s" % (case,))
    ctx.state(*case)


def gen_wrong():
    for what in ('number', 'text', 'three', 'one', 'instance', 'true', 'dict', 'int', 'raise'):
        for shape in ('one', 'list', 'counted'):
            yield [what, shape]


# ---------------------------------------------------------------- nested records

def run_nested(case, ctx):
    """A record inside another is packed and unpacked as it would be alone."""
    kinds, style, names, how = case
    p = Program(kinds, style, names)
    inner = p.define()
    for combo in p.values(6):
        content = p.encode(combo)
        fields = p.fields(combo)
        obj = inner(**p.set(combo))
        attrs = dict(first=uint_field(where=bytes_ref[0]))
        depth = 1
        at = 1
        if how == 'open':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[1:])
        elif how == 'closed':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[1:1 + len(content)])
        elif how == 'sized':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[1:1 + len(content)], byte_size=len(content))
        elif how == 'sized open':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[1:], byte_size=len(content))
        elif how == 'after':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[after_ref(attrs['first']):])
        elif how == 'shifted':
            v = attrs['v'] = buffer_field(inner, where=bytes_ref[1:2 + len(content)].bits[4:4 + 8 * len(content)])
        elif how == 'list':
            v = attrs['v'] = list_field(inner, n=1, where=bytes_ref[1:1 + len(content)])
        elif how == 'deep':
            mid = record(dict(k=uint_field(where=bytes_ref[0]), o=buffer_field(inner, where=bytes_ref[1:])))
            v = attrs['v'] = buffer_field(mid, where=bytes_ref[1:])
            obj = mid(k=0x77, o=obj)
            at = 2
        if how == 'list':
            obj = [obj]
        cls = record(attrs)
        outer = cls(first=0x5A, v=obj)
        if how == 'shifted':
            number = int.from_bytes(content, 'little') << 4
            want = b'\x5a' + number.to_bytes(len(content) + 1, 'little') if content else b'\x5a'
        else:
            want = b'\x5a' + (b'\x77' if how == 'deep' else b'') + content
        if not content and how == 'shifted':
            continue
        what = "%r nested %s: %s" % (p, how, fields)
        ctx.eq(bytes(outer.pack()), want, what)
        back = cls()
        back.unpack(want)
        got = back.v[0] if how == 'list' else back.v.o if how == 'deep' else back.v
        if how == 'list' and not content:
            continue
        ctx.true(type(got) is inner, what)
        ctx.eq(dict((n, getattr(got, n)) for n in fields), fields, what)
        ctx.eq(bytes(got.pack()), content, what)
        ctx.eq(bytes(back.pack()), want, what)
        if how != 'shifted' and not p.items[-1].open:
            ctx.eq(bytes(outer.pack()), want, what)
        ctx.state(repr(p), how, repr(combo))
        ctx.step()
    ctx.trace()
    ctx.outcome(how)


def gen_nested(lengths, **kw):
    def g():
        for kinds, style, names in programs(lengths, **kw):
            for how in ('open', 'closed', 'sized', 'sized open', 'after', 'shifted', 'list', 'deep'):
                yield [kinds, style, names, how]
    return g


def run_misfit(case, ctx):
    """Nested records and lists that don't have the size of their place never disturb what's next to them."""
    kind, shape, chosen, size = case
    t, values, enc, special = TYPES[kind]
    elements = [values[k % len(values)]() for k in chosen]
    content = b''.join(map(enc, elements))
    where = bytes_ref[1:1 + size]
    if shape == 'one':
        v = buffer_field(t, where=where)
    else:
        v = list_field(t, where=where)
    cls = record(dict(a=uint_field(where=bytes_ref[0]), v=v, z=uint_field(where=bytes_ref[1 + size])))
    o = cls(a=0xA1, v=elements[0] if shape == 'one' else elements, z=0xE1)
    what = "%s, encoded in %d bytes" % (case, len(content))
    if len(content) < size:
        ctx.rejects(o.pack, what)
    elif len(content) == size:
        ctx.eq(bytes(o.pack()), b'\xa1' + content + b'\xe1', what)
        ctx.outcome('fits')
    else:
        try:
            packed = bytes(o.pack())
        except Exception:
            ctx.outcome('rejected')
        else:
            ctx.eq((packed[:1], packed[1 + size:]), (b'\xa1', b'\xe1'), what)
            ctx.outcome('cut')
    ctx.state(*map(repr, case))
    ctx.step()


def gen_misfit():
    for kind in sorted(TYPES):
        if TYPES[kind][3] == 'sizeless':
            continue
        for n in (1, 2):
            for chosen in itertools.product((0, 1), repeat=n):
                for size in range(0, 12):
                    if n == 1 and not isinstance(TYPES[kind][0], tuple):
                        yield [kind, 'one', list(chosen), size]
                    yield [kind, 'list', list(chosen), size]


LARGE = {'lists': (2048, 20), 'depth': (16, 16)}


def spaces(tier):
    quick = tier == 'quick'
    f = family
    ways = ['open', 'closed', 'after', 'shifted', 'list', 'deep']
    return [
        Space('lists', gen_lists(tier), run_list, 'element types, counts and places', list(PLACES)),
        Space('data', gen_data(tier), run_data, 'declared counts with data of every length', ['unpacked', 'rejected']),
        Space('chosen', gen_chosen(tier), run_chosen, 'sequences of chosen elements', ['elements', 'skips']),
        Space('nibbles', gen_nibbles, run_nibbles, 'chosen elements of any number of bits', ['bits']),
        Space('one', gen_one, run_one, 'nested records of a chosen type', ['one']),
        Space('wrong', gen_wrong, run_wrong, 'choices that are not one', ['rejected']),
        Space('misfit', gen_misfit, run_misfit, 'contents that do not have the size of their place', ['rejected', 'fits', 'cut']),
        Space('nested', gen_nested([0, 1]), run_nested, 'nested records: all items alone and before every kind of last item', ways),
        Space('nested two', gen_nested([2], names=['up', 'down'], static=[f.Flags, f.Split] if quick else f.STATIC,
                                       dynamic=[f.Bytes, f.ListPairs, f.Clamped] if quick else f.DYNAMIC,
                                       tails=[f.TailBlobs, f.TotalRest] if quick else f.TAILS),
              run_nested, 'nested records: pairs of items', ways),
    ]
