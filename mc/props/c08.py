"""C08: every size that a record reports is the number of bytes it occupies."""
import itertools
import math
from mc.core import Space
from mc.again import struct_changes, record_changes
from mc import family
from mc.family import Program, programs
from mc.rec import record
from mc.props.c04 import where, CUTS, FIELD, encode as encode_bits
from infi.instruct.buffer import (Buffer, bytes_ref, uint_field, be_uint_field, bytearray_field, str_field, list_field, uint8,
                                  total_size, after_ref, len_ref, self_ref, num_ref, member_func_ref, input_buffer_length)

ID = 'C08'
RULE = ('a case is one record definition; every size it reports (class, instance, unpack result, total-size, after and '
        'length fields) is compared with the bytes of the reference encoding, with all combinations of its values')
ASSUMPTIONS = ['a size in bits is compared after rounding up to bytes', 'a declared size of 0, and records that end with an empty range, '
               'are not specified']


def whole(n):
    return int(math.ceil(n))


def check_sizes(ctx, cls, values, length, static, what, trailing=b''):
    """An instance with these values occupies this length."""
    obj = cls(**values)
    if static:
        ctx.eq(whole(cls.byte_size), length, "byte_size of %s" % (what,))
    else:
        ctx.eq(cls.byte_size, None, "byte_size of %s" % (what,))
    ctx.eq(whole(obj.calc_byte_size()), length, "calc_byte_size of %s with %s" % (what, values))
    packed = cls(**values).pack()
    ctx.eq(len(packed), length, "length of %s with %s" % (what, values))
    again = cls()
    ctx.eq(whole(again.unpack(bytes(packed) + trailing)), length, "size returned by unpack of %s with %s" % (what, values))
    ctx.eq(whole(again.calc_byte_size()), length, "calc_byte_size of unpacked %s with %s" % (what, values))
    ctx.step(4)
    return packed, again


# ---------------------------------------------------------------- records of the family, with size fields before them

def run_family(case, ctx):
    kinds, style, names = case
    p = Program(kinds, style, names)
    cls = p.define()
    head = 4 + 2 * len(kinds)          # total when packing, total when unpacking, and the end of each item both ways
    h = Program(kinds, style, names, base=head)

    attrs = h.attrs()
    attrs['t_pack'] = be_uint_field(where=bytes_ref[0:2], set_before_pack=total_size)
    attrs['t_unpack'] = be_uint_field(where=bytes_ref[2:4], set_before_pack=0, set_after_unpack=total_size)
    for k, item in enumerate(h.items):
        attrs['e%d_pack' % k] = uint_field(where=bytes_ref[4 + 2 * k], set_before_pack=after_ref(item.last(attrs)))
        attrs['e%d_unpack' % k] = uint_field(where=bytes_ref[5 + 2 * k], set_before_pack=0,
                                             set_after_unpack=after_ref(item.last(attrs)))
    headed = record(attrs)
    for combo in p.values():
        data = p.encode(combo)
        extras = [b'']
        if p.bounded or getattr(p.items[-1], 'self_delimited', False):
            extras.append(b'\xff\x03\x02')
        ends, at = [], head
        for item, v in zip(p.items, combo):
            at += len(item.encode(v)) + (2 if item.kind == 'total' else 0)
            ends.append(at)
        for extra in extras:
            check_sizes(ctx, cls, p.set(combo), len(data), p.static, p, extra)
            packed, again = check_sizes(ctx, headed, h.set(combo), head + len(data), p.static, h, extra)
            want = [0, at, 0, 0]
            for e in ends:
                want += [e, 0]
            ctx.eq(list(packed[:head]), want, "total size and ends in %r with %s" % (h, h.set(combo)))
            ctx.eq((again.t_pack, again.t_unpack), (at, at), "total size when %r with %s is unpacked" % (h, h.set(combo)))
            ctx.eq([getattr(again, 'e%d_unpack' % k) for k in range(len(ends))], ends,
                   "ends when %r with %s is unpacked" % (h, h.set(combo)))
        ctx.state(kinds, style, names, repr(combo))
        ctx.trace()
    ctx.outcome('static' if p.static else 'dynamic')


# ---------------------------------------------------------------- bit layouts in any order

def run_layout(case, ctx):
    owners, how, order = case
    layout = {}
    for (a, b), owner in zip(zip(CUTS, CUTS[1:]), owners):
        if owner:
            layout.setdefault('xabc'[owner], []).append((a, b))
    if not layout:
        return
    if order == 'down':
        for s in layout.values():
            s.reverse()
    attrs = dict((n, uint_field(where=where(s, how))) for n, s in layout.items())
    size = (max(b for s in layout.values() for a, b in s) + 7) // 8
    values = dict((n, (1 << sum(b - a for a, b in s)) - 1) for n, s in layout.items())
    what = "%s %s" % (layout, how)
    check_sizes(ctx, record(attrs), values, size, how != 'computed', what)
    attrs = dict((n, uint_field(where=where(s, how))) for n, s in layout.items())
    attrs['t'] = be_uint_field(where=bytes_ref[5:7], set_before_pack=total_size, set_after_unpack=total_size)
    packed, again = check_sizes(ctx, record(attrs), values, 7, how != 'computed', what + ' and total')
    ctx.eq((bytes(packed[5:]), again.t), (b'\x00\x07', 7), "total size of %s" % (what,))
    ctx.state(owners, how, order)
    ctx.outcome('%d fields' % len(layout))


def gen_layout(hows, labels=4):
    def gen():
        for how in hows:
            for order in ('up', 'down'):
                for owners in itertools.product(range(labels), repeat=len(CUTS) - 1):
                    yield [list(owners), how, order]
    return gen


# ---------------------------------------------------------------- the same instance with other values

def run_again(case, ctx):
    """Sizes follow the values that an instance has now: after assignments, packing, unpacking and asking before."""
    kinds, style, names, first = case
    def look(obj, cls, data, fresh, what):
        ctx.eq(whole(obj.calc_byte_size()), len(data), what + ": calc_byte_size")
        ctx.eq(len(obj.pack()), len(data), what + ": bytes packed")
        ctx.eq(whole(obj.calc_byte_size()), len(data), what + ": calc_byte_size after packing")
        ctx.eq(whole(cls().unpack(bytes(data))), len(data), what + ": size returned by unpack")
        ctx.eq(whole(obj.unpack(bytes(data))), len(data), what + ": size returned by unpack into it")
        ctx.eq(whole(obj.calc_byte_size()), len(data), what + ": calc_byte_size after unpacking")
    record_changes(kinds, style, names, look, ctx, first)


def gen_again(**kwargs):
    def gen():
        for kinds, style, names in programs([0, 1], **kwargs):
            for k in range(len(list(Program(kinds, style, names).values()))):
                yield [kinds, style, names, k]
    return gen


# ---------------------------------------------------------------- places of no bits

def run_nothing(case, ctx):
    """A field without bits ends where it is: the next one is right there."""
    start, stop, at, how = case             # the place of bits, and the byte of it at which nothing is taken

    def num(n):
        return num_ref(member_func_ref(lambda obj: n)) if how != 'plain' else n
    parent = bytes_ref[num(start):] if stop is None else bytes_ref[num(start):num(stop)]
    if at is None:
        here, place = start, bytes_ref[num(start):num(start)]
    else:
        here, place = start + at, parent.bits[num(at * 8):num(at * 8)]
    attrs = dict(head=uint_field(where=bytes_ref[0]), none=bytearray_field(where=place))
    attrs['next'] = uint_field(where=bytes_ref[after_ref(attrs['none'])])
    attrs['end'] = uint_field(where=bytes_ref[after_ref(attrs['next'])], set_before_pack=after_ref(attrs['none']))
    cls = record(attrs)
    want = [7] + [0] * (here - 1) + [0xa5, here]
    check_sizes(ctx, cls, dict(head=7, none=bytearray(), next=0xa5), len(want), how == 'plain' and False, "%s" % (case,))
    packed = cls(head=7, none=bytearray(), next=0xa5).pack()
    ctx.eq(list(packed), want, "packed %s" % (case,))
    obj = cls()
    obj.unpack(bytes(packed) + b'\xff\xff')
    ctx.eq((obj.head, obj.none, obj.next, obj.end), (7, bytearray(), 0xa5, here), "unpacked %s" % (case,))
    ctx.step(2)
    ctx.state(*case)
    ctx.outcome('slice' if at is None else 'bits')


def gen_nothing():
    for how in ('plain', 'computed'):
        for start in range(1, 5):
            yield [start, start, None, how]
            for stop in list(range(start, start + 4)) + [None]:
                for at in range(0, (3 if stop is None else stop - start) + 1):
                    yield [start, stop, at, how]


# ---------------------------------------------------------------- inheritance

INHERIT = ['u8', 'be16', 'raw2', 'bytes', 'text', 'list16']


def run_inherit(case, ctx):
    kinds, cuts, style = case      # items of a program, and how many of them belong to the base and to the middle class
    p = Program(kinds, style, 'up')
    attrs = p.attrs()
    classes, length = [], []
    at = 0
    base = Buffer
    for k, cut in enumerate(cuts):
        names = set(n for item in p.items[at:cut] for n in (item.name, item.len_name))
        base = record(dict((n, f) for n, f in attrs.items() if n in names), (base,), 'C%d' % k)
        classes.append(base)
        at = cut
    for combo in p.values():
        for cut, cls in zip(cuts, classes):
            part = Program(kinds[:cut], style, 'up')
            if not part.items:
                continue
            check_sizes(ctx, cls, part.set(combo[:cut]), len(part.encode(combo[:cut])), part.static, "%s of %r" % (cls, p))
    ctx.state(kinds, cuts, style)
    ctx.outcome('static' if p.static else 'dynamic')
    ctx.trace()


def gen_inherit(n):
    def gen():
        for kinds in itertools.product(INHERIT, repeat=n):
            for a in range(1, n + 1):
                for b in range(a, n + 1):
                    for style in ('after', 'self'):
                        yield [list(kinds), [a, b, n], style]
    return gen


# ---------------------------------------------------------------- conditional fields

def run_conditional(case, ctx):
    kinds, conditions, names, flags = case
    names = 'bcd' if names == 'up' else 'dcb'
    attrs = {'a': uint_field(where=bytes_ref[0]), 'z': uint_field(where=bytes_ref[1], set_before_pack=total_size)}
    place = attrs['z']
    want = 2
    values = {'a': flags}
    for k, (kind, condition, n) in enumerate(zip(kinds, conditions, names)):
        if condition == 'field':
            c = attrs['a'] >= (k + 1) if names == 'bcd' else num_ref(self_ref.a) >= (k + 1)
            on = flags >= k + 1
        elif condition == 'func':
            c = member_func_ref(lambda obj, k=k: obj.a & 1 << k)
            on = bool(flags & 1 << k)
        else:
            c, on = condition, condition
        kw = dict(pack_if=c, unpack_if=c)
        start = after_ref(place)
        if kind == 'byte':
            f, v, size = uint_field(where=bytes_ref[start], **kw), 3, 1
        elif kind == 'word':
            f, v, size = be_uint_field(where=bytes_ref[start:start + 2], **kw), 0x102, 2
        elif kind == 'gap':       # a fixed position after all the others
            f, v, size = uint_field(where=bytes_ref[8 + k], **kw), 5, None
        else:
            f, v, size = bytearray_field(where=bytes_ref[start:], **kw), bytearray(b'opqr'), 4
        attrs[n] = f
        values[n] = v
        if kind == 'gap':
            if on:
                want = max(want, 9 + k)
            continue
        place = f
        attrs_end = attrs.get('_end', 2)
        if kind == 'open' and not on:
            size = 0
        attrs['_end'] = attrs_end + size      # a closed place is taken even if it's skipped
        if on:
            want = max(want, attrs['_end'])
    attrs.pop('_end', None)
    cls = record(attrs)
    dynamic = cls.byte_size is None
    length = want
    what = "%s" % (case,)
    if not dynamic:        # the size of the class includes optional fields, and the bytes of those that are skipped are filled
        length = whole(cls.byte_size)
        ctx.true(length >= want, "byte_size of " + what)
    obj = cls(**values)
    ctx.eq(whole(obj.calc_byte_size()), length, "calc_byte_size of " + what)
    packed = cls(**values).pack()
    ctx.eq(len(packed), length, "length of " + what)
    ctx.eq(packed[1], length, "total size of " + what)
    again = cls()
    ctx.eq(whole(again.unpack(bytes(packed))), length, "size returned by unpack of " + what)
    ctx.state(case)
    ctx.outcome('dynamic' if dynamic else 'static')
    ctx.trace()


def gen_conditional(n):
    def gen():
        for kinds in itertools.product(['byte', 'word', 'gap', 'open'], repeat=n):
            if 'open' in kinds[:-1] and any(k != 'gap' for k in kinds[kinds.index('open') + 1:]):
                continue
            if 'gap' in kinds and 'open' in kinds:
                continue
            for conditions in itertools.product([True, False, 'field', 'func'], repeat=n):
                for names in ('up', 'down'):
                    for flags in range(n + 1) if 'func' not in conditions else range(1 << n):
                        yield [list(kinds), list(conditions), names, flags]
    return gen


# ---------------------------------------------------------------- declared sizes and the size of the input

def run_declared(case, ctx):
    kinds, style, names, more = case
    p = Program(kinds, style, names)
    for combo in p.values():
        n = len(p.encode(combo))
        declared = n + more
        if declared <= 0:
            continue
        cls = p.define(byte_size=declared)
        what = "%r of declared size %d with %s" % (p, declared, combo)
        if more < 0:
            # the size of a record with a total size field is what's declared, so it's not necessarily known to be wrong
            ctx.rejects(lambda: cls(**p.set(combo)).pack(), what)
            continue
        ctx.eq(cls.byte_size, declared, "byte_size of " + what)
        ctx.eq(cls(**p.set(combo)).calc_byte_size(), declared, "calc_byte_size of " + what)
        packed = cls(**p.set(combo)).pack()
        ctx.eq(bytes(packed), p.encode(combo) + bytes(more), "packed " + what)
        again = cls()
        if p.bounded:
            ctx.eq(again.unpack(bytes(packed)), declared, "size returned by unpack of " + what)
            outer = record({'n': uint_field(where=bytes_ref[0], set_before_pack=total_size),
                            'items': list_field(cls, where=bytes_ref[1:])})
            data = outer(items=[cls(**p.set(combo)), cls(**p.set(combo))]).pack()
            ctx.eq(bytes(data), bytes([1 + 2 * declared]) + bytes(packed) * 2, "list of " + what)
            back = outer()
            ctx.eq((back.unpack(bytes(data)), len(back.items)), (1 + 2 * declared, 2), "unpacked list of " + what)
        ctx.state(kinds, style, names, more)
        ctx.outcome('padded' if more else 'exact')


def gen_declared(**kw):
    def gen():
        for kinds, style, names in programs([1, 2], tails=[family.TailBytes, family.TailList], **kw):
            for more in (-1, 0, 1, 5):
                yield [kinds, style, names, more]
    return gen


def run_empty(case, ctx):
    """A record of a known size occupies it even when nothing is written to it."""
    kind, declared = case
    attrs = {'bytes': lambda: dict(v=bytearray_field(where=bytes_ref[0:])),
             'text': lambda: dict(v=str_field(where=bytes_ref[0:])),
             'list': lambda: dict(v=list_field(uint8, where=bytes_ref[0:])),
             'two': lambda: dict(v=bytearray_field(where=bytes_ref[0:0]), w=bytearray_field(where=bytes_ref[0:])),
             'off': lambda: dict(v=uint_field(where=bytes_ref[0], pack_if=num_ref(self_ref.on), unpack_if=num_ref(self_ref.on))),
             'computed': lambda: dict(v=bytearray_field(where=bytes_ref[0:num_ref(self_ref.on)])),
             'none': dict}[kind]()
    empty = dict(bytes=bytearray(), text='', list=[], two=bytearray(), off=5, computed=bytearray())
    values = {} if kind == 'none' else dict(v=empty[kind])
    if kind == 'two':
        values['w'] = bytearray()
    cls = type(Buffer)('R', (Buffer,), dict(attrs, byte_size=declared, __module__='case', on=0))
    what = "%s of declared size %d without content" % (kind, declared)
    ctx.eq(cls.byte_size, declared, "byte_size of " + what)
    obj = cls(**values)
    for n in range(2):
        ctx.eq(bytes(obj.pack()), bytes(declared), "packed " + what)
        ctx.eq(obj.calc_byte_size(), declared, "calc_byte_size of " + what)
    outer = record({'head': uint_field(where=bytes_ref[0:2], set_before_pack=total_size), 'items': list_field(cls, where=bytes_ref[2:])})
    for n in range(3):
        ctx.eq(bytes(outer(items=[cls(**values) for k in range(n)]).pack()), bytes([2 + n * declared]) + bytes(1 + n * declared),
               "%d of %s in a list" % (n, what))
        ctx.step()
    if kind in ('off', 'computed', 'none'):
        ctx.eq(cls().unpack(bytes(declared)), declared, "size returned by unpack of " + what)
    ctx.state(*case)
    ctx.outcome('zeros')


def gen_empty():
    for kind in ('bytes', 'text', 'list', 'two', 'off', 'computed', 'none'):
        for declared in (1, 2, 3, 8, 17):
            yield [kind, declared]


def run_input(case, ctx):
    before, after, unit, n = case
    # content between a header and a trailer, with a size that follows from the size of the input
    attrs = {}
    attrs['h'] = uint_field(where=bytes_ref[0:before]) if before else None
    attrs['m'] = bytearray_field(where_when_pack=bytes_ref[before:], where_when_unpack=bytes_ref[before:input_buffer_length - after])
    if after:
        attrs['t'] = uint_field(where_when_pack=bytes_ref[after_ref(attrs['m']):after_ref(attrs['m']) + after],
                                where_when_unpack=bytes_ref[input_buffer_length - after:input_buffer_length])
    attrs['s'] = uint_field(where=bytes_ref[0], set_before_pack=total_size) if not before else None
    attrs = dict((k, f) for k, f in attrs.items() if f is not None)
    if not before:
        attrs['m'] = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:input_buffer_length - after])
        if after:
            attrs['t'] = uint_field(where_when_pack=bytes_ref[after_ref(attrs['m']):after_ref(attrs['m']) + after],
                                    where_when_unpack=bytes_ref[input_buffer_length - after:input_buffer_length])
    cls = record(attrs)
    values = {'m': bytearray(range(1, n + 1))}
    if before:
        values['h'] = 7
    if after:
        values['t'] = 9
    length = max(before, 1) + n + after
    _, again = check_sizes(ctx, cls, values, length, False, case)
    ctx.eq(again.m, values['m'], "content of %s" % (case,))
    if after:
        ctx.eq(again.t, 9, "trailer of %s" % (case,))
    ctx.state(case)
    ctx.outcome('input')


def gen_input():
    return ([b, a, 1, n] for b in range(5) for a in range(5) for n in range(6))


# ---------------------------------------------------------------- positions of which only one side is constant

def run_sides(case, ctx):
    """n is a length field; the content has one position when packing and another when unpacking, that agree for n = size."""
    pack_side, unpack_side, kind, size, follow = case
    start = 1

    def position(side, n):
        if side == 'const':
            return bytes_ref[start:start + size]
        if side == 'open':
            return bytes_ref[start:]
        if side == 'field':
            return bytes_ref[start:start + n]
        return bytes_ref[start:start + num_ref(member_func_ref(lambda obj: obj.n))]
    attrs = {}
    n = attrs['n'] = uint_field(where=bytes_ref[0])
    where = dict(where_when_pack=position(pack_side, n), where_when_unpack=position(unpack_side, n))
    if kind == 'bytes':
        attrs['data'] = bytearray_field(**where)
        make = lambda k: bytearray(range(k))
    elif kind == 'text':
        attrs['data'] = str_field(**where)
        make = lambda k: 'abcdefghij'[:k]
    else:
        attrs['data'] = list_field(uint8, n=n if unpack_side == 'open' else None, **where)
        make = lambda k: list(range(k))
    data = attrs['data']
    if follow:
        attrs['z'] = uint_field(where=bytes_ref[after_ref(data)])
    fixed = pack_side == unpack_side == 'const' and not follow
    cls = record(attrs)
    if 'const' not in (pack_side, unpack_side):
        ctx.eq(cls.byte_size, None, "byte_size of %s" % (case,))
    if not fixed and unpack_side != 'const':
        ctx.eq(cls.byte_size, None, "byte_size of %s" % (case,))
    if fixed:
        ctx.eq(cls.byte_size, 1 + size + follow, "byte_size of %s" % (case,))
    values = dict(n=size, data=make(size))
    if follow:
        values['z'] = 7
    length = 1 + size + follow
    obj = cls(**values)
    ctx.eq(obj.calc_byte_size(), length, "calc_byte_size of %s" % (case,))
    packed = cls(**values).pack()
    ctx.eq(len(packed), length, "length of %s" % (case,))
    # unpack inputs in which the length differs from the constant
    for k in range(size + 3):
        taken = size if unpack_side == 'const' else k
        if unpack_side in ('open',) and kind != 'list':
            if follow:
                continue        # an open position without a limit takes what follows too
            buffer = bytearray([k]) + bytearray(bytes(bytearray(97 + i for i in range(k))))
        else:
            buffer = bytearray([k]) + bytearray(97 + i for i in range(taken)) + (b'\x07' if follow else b'') + b'rest'
        if unpack_side == 'const' and pack_side != 'const' and k != size:
            continue
        again = cls()
        ctx.eq(whole(again.unpack(bytes(buffer))), 1 + taken + follow, "size returned by unpack of %s of %s" % (buffer, case))
        got = again.data
        ctx.eq(len(got), taken, "content of %s unpacked from %s" % (case, buffer))
        if follow:
            ctx.eq(again.z, 7, "the next field of %s unpacked from %s" % (case, buffer))
        ctx.step()
    ctx.state(*case)
    ctx.outcome('static' if fixed else 'dynamic')
    ctx.trace()


def gen_sides():
    for pack_side in ('const', 'field', 'func', 'open'):
        for unpack_side in ('const', 'field', 'open'):
            for kind in ('bytes', 'text', 'list'):
                for size in (1, 2, 5):
                    for follow in (0, 1):
                        if follow and unpack_side == 'open' and kind != 'list':
                            continue
                        yield [pack_side, unpack_side, kind, size, follow]


LARGE = {'far': (8192, 12), 'chain': (64, 12)}


def spaces(tier):
    f = family
    both = ['static', 'dynamic']
    out = [
        Space('one', lambda: programs([0, 1]), run_family, 'all items alone and before every kind of last item', both),
        Space('layout', gen_layout(['plain', 'computed'], 3 if tier == 'quick' else 4), run_layout,
              'assignments of the parts of a record to fields, in both orders, with constant and computed positions'),
        Space('again', gen_again(styles=['after'], names=['up']) if tier == 'quick' else gen_again(), run_again, 'the same instance with other values', ['changed']),
        Space('empty', gen_empty, run_empty, 'records of a declared size without content', ['zeros']),
        Space('nothing', gen_nothing, run_nothing, 'the end of places of no bits', ['slice', 'bits']),
        Space('inherit', gen_inherit(2 if tier == 'quick' else 3), run_inherit, 'items spread over three levels of classes', both),
        Space('conditional', gen_conditional(2), run_conditional, 'optional fields x kinds of conditions x flags', ['dynamic']),
        Space('sides', gen_sides, run_sides, 'different positions when packing and when unpacking', both),
        Space('input', gen_input, run_input, 'sizes that follow from the size of the input'),
    ]
    if tier == 'quick':
        out += [
            Space('two', lambda: programs([2], static=[f.BE16, f.Split], dynamic=[f.Bytes, f.List16, f.ListPairs, f.FuncBytes],
                                          names=['down']), run_family, 'pairs of items, and a last item', both),
            Space('declared', gen_declared(static=[f.U8, f.Flags, f.Nested], dynamic=[f.Bytes], names=['up'], styles=['after']),
                  run_declared, 'declared sizes', ['rejected', 'padded', 'exact']),
        ]
    else:
        out += [
            Space('two', lambda: programs([2]), run_family, 'all pairs of items, and a last item', both),
            Space('three', lambda: programs([3], static=[f.BE16, f.Split], dynamic=[f.Bytes, f.List16, f.ListPairs, f.FuncBytes], names=['down']),
                  run_family, 'triples of items', both),
            Space('conditional3', gen_conditional(3), run_conditional, 'three optional fields', ['dynamic']),
            Space('declared', gen_declared(), run_declared, 'declared sizes', ['rejected', 'padded', 'exact']),
        ]
    return out
