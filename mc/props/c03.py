"""C03: a position expression addresses exactly the bits that slicing the addressed sequence gives, in that order."""
from mc.core import Space
from mc.bits import to_bits, to_bytes, bits_int
from mc.rec import record
from infi.instruct.buffer import (bytes_ref, uint_field, bytearray_field, be_uint_field, le_uint_field, num_ref,
                                  member_func_ref, self_ref)

ID = 'C03'
RULE = ('a case is one position expression with constant or computed bounds; codes that give every bit position its own '
        'number are packed to and unpacked from it, so that any misplaced bit shows')
ASSUMPTIONS = ['an empty bit slice past the end of its parent may be an error',
               'bit slices of a parent whose open range is not its last are not specified',
               'the length of a record that ends with an empty range is not specified']

TOP = 6            # bytes in the data that's unpacked


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


# ---------------------------------------------------------------- reference model
# A position is a list of pieces: lists of bit addresses, and at most one open piece ('open', first address).

def evaluate(e):
    kind = e[0]
    if kind == 'i':
        if e[1] < 0:
            raise Reject()
        return [list(range(e[1] * 8, e[1] * 8 + 8))]
    if kind == 's':
        a, b = e[1] or 0, e[2]
        if a < 0 or (b is not None and b < a):
            raise Reject()
        return [('open', a * 8)] if b is None else [list(range(a * 8, b * 8))]
    if kind in ('l', '+'):
        return [piece for x in e[1] for piece in evaluate(x)]
    parent = evaluate(e[1])
    if kind == 'bl':
        return [piece for x in e[2] for piece in evaluate([x[0], e[1]] + x[1:])]
    is_open = any(p[0:1] == ('open',) for p in parent)
    if any(p[0:1] == ('open',) for p in parent[:-1]):
        raise Unspecified()
    if is_open:
        closed = [a for p in parent[:-1] for a in p]
        first = parent[-1][1]
        size = None
    else:
        closed = [a for p in parent for a in p]
        first, size = None, len(closed)

    def addr(k):
        return closed[k] if k < len(closed) else first + k - len(closed)
    if kind == 'bi':
        k = e[2]
        if k < 0 or (size is not None and k >= size):
            raise Reject()
        return [[addr(k)]]
    assert kind == 'bs'
    a, b = e[2] or 0, e[3]
    if a < 0 or (b is not None and b < a):
        raise Reject()
    if size is not None:
        if (a if b is None else b) > size or a > size:
            if a == b or b is None:
                raise Unspecified()
            raise Reject()
        return [closed[a:b]]
    if b is None:
        return [closed[a:], ('open', first + max(0, a - len(closed)))]
    return [[addr(k) for k in range(a, b)]]


def overlapping(pieces):
    closed = [a for p in pieces if p[0:1] != ('open',) for a in p]
    opens = [p[1] for p in pieces if p[0:1] == ('open',)]
    return len(set(closed)) < len(closed) or len(opens) > 1 or any(a >= o for a in closed for o in opens)


def addresses(pieces, total=None, length=None):
    """Bit addresses when the record has total bits (unpack) or the value length bits (pack)."""
    result = []
    closed = sum(len(p) for p in pieces if p[0:1] != ('open',))
    for p in pieces:
        if p[0:1] == ('open',):
            stop = total if total is not None else p[1] + length - closed
            if stop < p[1]:
                raise Reject()
            result.extend(range(p[1], stop))
        else:
            result.extend(p)
    return result


# ---------------------------------------------------------------- the same expression for the library

def build(e, bound):
    kind = e[0]
    if kind == 'i':
        return bytes_ref[bound(e[1])]
    if kind == 's':
        return bytes_ref[bound(e[1]):bound(e[2])]
    if kind == 'l':
        return bytes_ref[tuple(loc(x, bound) for x in e[1])]
    if kind == '+':
        result = build(e[1][0], bound)
        for x in e[1][1:]:
            result = result + build(x, bound)
        return result
    parent = build(e[1], bound)
    if kind == 'bi':
        return parent.bits[bound(e[2])]
    if kind == 'bs':
        return parent.bits[bound(e[2]):bound(e[3])]
    if kind == 'bl':
        return parent.bits[tuple(loc([x[0][1:]] + x[1:], bound) for x in e[2])]
    raise ValueError(e)


def loc(x, bound):
    if x[0] == 'i':
        return bound(x[1])
    if x[0] == 'l':
        return [loc(y, bound) for y in x[1]]
    return slice(bound(x[1]), bound(x[2]))


def count_bounds(e):
    if e[0] in 'is':
        return sum(x is not None for x in e[1:])
    if e[0] in ('l', '+'):
        return sum(count_bounds(x) for x in e[1])
    rest = e[2] if e[0] == 'bl' else [[e[0]] + e[2:]]
    return count_bounds(e[1]) + sum(sum(v is not None for v in x[1:]) for x in rest)


def make_bound(mode):
    """mode: bit k set: the k'th bound is computed; -1: all of them are computed from another field"""
    index = [0]

    def bound(v):
        if v is None:
            return None
        k = index[0]
        index[0] += 1
        if mode == -1:
            return num_ref(self_ref.k) + (v - 7)
        if mode >> k & 1:
            return num_ref(member_func_ref(lambda obj: v))
        return v
    return bound


def codes(n):
    """Bit patterns over n positions that tell all positions apart."""
    count = max(1, n).bit_length()
    for j in range(count):
        yield [(i + 1) >> j & 1 for i in range(n)]
    for j in range(count):
        yield [1 - ((i + 1) >> j & 1) for i in range(n)]
    yield [1] * n


def run(case, ctx):
    e, mode = case
    try:
        pieces = evaluate(e)
        rejected = overlapping(pieces)
    except Unspecified:
        ctx.outcome('unspecified')
        return
    except Reject:
        rejected = True
    is_open = not rejected and any(p[0:1] == ('open',) for p in pieces)
    ctx.trace()
    if mode == -1 and is_open:
        return

    def define(field, **kwargs):
        attrs = {'f': field(where=build(e, make_bound(mode)), **kwargs)}
        if mode == -1:
            attrs['k'] = uint_field(where=bytes_ref[TOP + 1], default=7)
        return record(attrs)
    extra = [0] * 8 + [1, 1, 1, 0, 0, 0, 0, 0] if mode == -1 else []     # the field k that bounds are computed from

    if rejected:
        def pack():
            return define(bytearray_field)(f=bytearray(TOP)).pack()

        def unpack():
            obj = define(bytearray_field)()
            obj.unpack(bytes([255] * TOP + [255, 7]))
            return obj
        ctx.rejects(pack, "pack at %s" % (e,))
        ctx.rejects(unpack, "unpack from %s" % (e,))
        ctx.outcome('rejected position')
        return
    ctx.state(repr(pieces), mode)
    has_empty = any(len(p) == 0 for p in pieces) or (is_open)

    def check_pack(cls, value, bits, addrs, what):
        got = cls(f=value).pack()
        want = dict(zip(addrs, bits))
        if extra:
            want.update((TOP * 8 + i, b) for i, b in enumerate(extra))
        got_bits = to_bits(got)
        n = (max(want) // 8 + 1) * 8 if want else 0
        if has_empty or not addrs:
            ctx.true(len(got_bits) >= n, "%s: %d bytes" % (what, len(got)))
        else:
            ctx.eq(len(got_bits), n, what + ": bits in the packed record")
        for i, bit in enumerate(got_bits):
            if bit != want.get(i, 0):
                ctx.fail("%s: bit %d is %d: %r", what, i, bit, bytes(got))
        ctx.step()

    def check_unpack(cls, data_bits, want, what):
        obj = cls()
        obj.unpack(to_bytes(data_bits + extra))
        ctx.eq(obj.f, want, what)
        ctx.step()

    cls = define(bytearray_field)
    if is_open:
        closed = sum(len(p) for p in pieces if p[0:1] != ('open',))
        for n in range((closed + 7) // 8, (closed + 7) // 8 + 4):
            addrs = addresses(pieces, length=n * 8)
            for bits in codes(n * 8):
                check_pack(cls, bytearray(to_bytes(bits)), bits, addrs, "pack %d bytes at %s" % (n, e))
        first = [p[1] for p in pieces if p[0:1] == ('open',)][0]
        for total in range(max([first] + [a + 1 for p in pieces if p[0:1] != ('open',) for a in p]), TOP * 8 + 1):
            if total % 8:
                continue
            addrs = addresses(pieces, total=total)
            for data in codes(total):
                check_unpack(cls, data, bytearray(to_bytes([data[a] for a in addrs])),
                             "unpack %d bytes from %s" % (total // 8, e))
        ctx.outcome('open')
        return
    addrs = addresses(pieces)
    if not addrs:
        check_pack(cls, bytearray(), [], [], "pack at %s" % (e,))
        for data in ([0] * TOP * 8, [1] * TOP * 8):
            check_unpack(cls, data, bytearray(), "unpack from %s" % (e,))
        ctx.outcome('empty')
        return
    n = len(addrs)
    kinds = [(bytearray_field, lambda bits: bytearray(to_bytes(bits)))]
    kinds.append((le_uint_field, bits_int))
    if n % 8 == 0:
        kinds.append((be_uint_field, lambda bits: bits_int(to_bits(to_bytes(bits)[::-1]))))
    for field, decode in kinds:
        cls = define(field)
        for bits in codes(n):
            check_pack(cls, decode(bits), bits, addrs, "pack %s at %s" % (field.__name__, e))
        for data in codes(TOP * 8):
            check_unpack(cls, data, decode([data[a] for a in addrs]), "unpack %s from %s" % (field.__name__, e))
    ctx.outcome('closed')


# ---------------------------------------------------------------- the grammar

def with_modes(exprs, modes):
    for e in exprs:
        n = count_bounds(e)
        for mode in modes:
            if mode == 'each':
                for k in range(n):
                    yield [e, 1 << k]
            elif mode == 'all':
                yield [e, (1 << n) - 1]
            else:
                yield [e, mode]


def atoms(top, negative=False):
    out = [['i', k] for k in range(-1 if negative else 0, top)]
    starts = ([-1] if negative else []) + [None] + list(range(top))
    for a in starts:
        for b in [None] + list(range(0, top + 1)):
            if negative or b is None or b >= (a or 0):
                out.append(['s', a, b])
    return out


SMALL = [['i', 0], ['i', 2], ['i', 3], ['s', 0, 2], ['s', 1, 3], ['s', 3, 5], ['s', 2, 2], ['s', 2, None], ['s', 4, None]]
TINY = [['i', 0], ['i', 3], ['s', 1, 3], ['s', 4, 5], ['s', 1, 1], ['s', 3, None]]


def lists(items, lengths):
    def rec(n):
        if n == 0:
            yield []
            return
        for rest in rec(n - 1):
            for x in items:
                yield rest + [x]
    for n in lengths:
        for x in rec(n):
            yield ['l', x]


def parents(tier):
    out = [['i', 0], ['i', 2], ['s', 0, 1], ['s', 1, 3], ['s', 2, 2], ['s', 3, None], ['s', None, 2]]
    out += [['l', [x, y]] for x in TINY for y in TINY]
    out += [['l', [['i', 3], ['i', 1], ['i', 0]]], ['l', [['i', 0], ['s', 2, 2], ['i', 1]]],
            ['l', [['i', 2], ['s', 0, 1], ['s', 4, None]]], ['l', [['i', 1]]], ['l', [['l', [['i', 1], ['i', 0]]], ['i', 3]]]]
    if tier != 'quick':
        out += list(lists(TINY, [3]))
    return out


def parent_size(p):
    try:
        pieces = evaluate(p)
    except (Reject, Unspecified):
        return None
    if overlapping(pieces):
        return None
    if any(x[0:1] == ('open',) for x in pieces):
        return sum(len(x) for x in pieces if x[0:1] != ('open',)) + 11
    return sum(len(x) for x in pieces)


def bit_exprs(tier):
    for p in parents(tier):
        n = parent_size(p)
        if n is None:
            yield ['bi', p, 1]
            yield ['bs', p, 0, 4]
            continue
        for k in range(-1, n + 2):
            yield ['bi', p, k]
        fine = n <= 16 or tier != 'quick'
        points = range(0, n + 2) if fine else sorted(set([0, 1, 3, 7, 8, 9, 12, 15, 16, 17, n - 1, n, n + 1]))
        for a in [None] + list(points):
            for b in [None] + list(points):
                if a is None or b is None or a <= b or (a, b) in ((3, 2), (8, 0)):
                    yield ['bs', p, a, b]


def bit_lists(tier):
    items = [['bi', 0], ['bi', 9], ['bs', 0, 4], ['bs', 4, 12], ['bs', 3, 3], ['bs', 12, None], ['bs', None, 3], ['bi', 5]]
    for p in [['i', 1], ['s', 1, 3], ['s', 1, None], ['l', [['i', 3], ['i', 0]]], ['l', [['i', 2], ['s', 4, None]]]]:
        for x in items:
            for y in items:
                yield ['bl', p, [x, y]]
                if tier != 'quick':
                    for z in items:
                        yield ['bl', p, [x, y, z]]


def sums(tier):
    bits = [['bs', ['i', 0], 0, 4], ['bs', ['i', 0], 4, 8], ['bi', ['i', 3], 7], ['bs', ['s', 1, 3], 3, 13],
            ['bs', ['s', 4, None], 4, None], ['bs', ['l', [['i', 2], ['i', 1]]], 5, 11], ['bl', ['i', 4], [['bi', 0], ['bs', 5, 7]]]]
    items = SMALL + bits + [['l', [['i', 4], ['i', 1]]]]
    for x in items:
        for y in items:
            yield ['+', [x, y]]
    few = items if tier != 'quick' else [SMALL[k] for k in (0, 4, 8)] + bits[:5]
    for x in few:
        for y in few:
            for z in few:
                yield ['+', [x, y, z]]


LARGE = {'parts': (512, 24)}


def spaces(tier):
    quick = tier == 'quick'
    need = ['closed', 'open', 'empty', 'rejected position']
    return [
        Space('bytes', lambda: with_modes(atoms(4 if quick else 6, True), [0, 'each', 'all', -1]), run,
              'all byte indexes and slices, bounds constant, each computed, all computed, computed from a field', need),
        Space('byte-lists', lambda: with_modes(lists(SMALL if quick else atoms(3), [1, 2]), [0, 'all', -1] if quick else [0, 'each', 'all', -1]),
              run, 'all lists of one and two', need),
        Space('byte-lists3', lambda: with_modes(lists(TINY if quick else SMALL, [3]), [0, 'all']), run,
              'all lists of three', need),
        Space('bits', lambda: with_modes(bit_exprs(tier), [0] if quick else [0, 'all']), run, 'all bit indexes and bit slices of parents', need),
        Space('bits-computed', lambda: with_modes((e for i, e in enumerate(bit_exprs('quick')) if not quick or i % 6 == 0),
                                                  ['each', 'all', -1]), run, 'bit positions with single computed bounds', need),
        Space('bit-lists', lambda: with_modes(bit_lists(tier), [0, 'all']), run, 'lists of bit indexes and slices',
              ['closed', 'open', 'rejected position']),
        Space('sums', lambda: with_modes(sums(tier), [0] if quick else [0, 'each', 'all', -1]), run, 'concatenations', need),
    ]
